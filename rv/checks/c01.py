"""C01: convective subcolumn occupancy."""
import numpy as np

from emc2.simulator.subcolumn import set_convective_sub_col_frac
from .. import world, common

PROPERTY = "C01"
RULE = ("random model profiles (fractions 0, 1, ties k+0.5, uniform; mixing ratios around the threshold) x family x "
        "1..1000 subcolumns x logic x threshold; non-trivial = at least one occupied and compared cell")
REQUIRED = {"conv-occupancy": 2000, "count-mismatch-rejected": 1, "single-subcolumn": 20, "inputs-untouched": 50}


def plan(tier):
    n = 24 if tier == "quick" else 240
    return [("occupancy", n), ("mismatch", max(4, n // 6)), ("single", n // 2), ("large", 4 if tier == "quick" else 24)]


def occupancy(case):
    rng = case.rng
    for rep in range(4):
        fam = common.pick(rng, ["ModelE", "CESM", "Multi", "WRF"])
        N = int(common.pick(rng, [2, 3, 4, 5, 7, 8, 10, 16, 20, 33, 40]))
        T, H = int(rng.integers(1, 5)), int(rng.integers(2, 14))
        m = world.make_model(rng, fam, N, T, H)
        rad = bool(rng.integers(0, 2))
        thr = common.pick(rng, [1e-18, 1e-18, 1e-5, 0.0])
        kw = {} if thr == 1e-18 else {"q_trunc_thresh": thr}
        hy = list(rng.permutation(m.hyd_types))
        first = True
        for h in hy:
            before = common.snapshot(m.ds)
            how = int(rng.integers(0, 2))
            m = set_convective_sub_col_frac(m, h, N_columns=N if (first or how) else None, use_rad_logic=rad, **kw)
            common.inputs_untouched(case, before, m.ds, "convective placement", allow=())
            first = False
            got = common.sub(case, m, f"conv_frac_subcolumns_{h}")
            cnt = common.counts_from(common.fld(m, m.conv_frac_names_for_rad[h] if rad else m.conv_frac_names[h]),
                                     common.fld(m, m.q_names_convective[h]), N, rad, thr)
            exp = np.arange(N)[:, None, None] < cnt[None]
            case.equal("conv-occupancy", got.astype(float), exp.astype(float), what=f"convective {h} N={N} rad={rad}")
            for c in np.unique(cnt):
                case.state("N", N, "count", c, "rad", rad)
        case.check(m.num_subcolumns == N, "subcolumn-count", f"model reports {m.num_subcolumns} subcolumns, not {N}")
    case.info = dict(family=fam, N=N, T=T, H=H)


def mismatch(case):
    rng = case.rng
    N = int(rng.integers(2, 20))
    m = world.make_model(rng, "ModelE", N, 2, 5)
    m = set_convective_sub_col_frac(m, "cl", N_columns=N, use_rad_logic=bool(rng.integers(0, 2)))
    for bad in (N + 1, N + 7, 1 if N > 1 else 3, 2 * N):
        case.raises("count-mismatch-rejected", ValueError, set_convective_sub_col_frac, m, "ci", N_columns=bad)
    m = set_convective_sub_col_frac(m, "ci", N_columns=N)
    case.check(m.num_subcolumns == N, "subcolumn-count", "subcolumn count changed")
    # the same holds where the single-subcolumn run came first
    m = world.make_model(rng, "ModelE", 1, 2, 5)
    m = set_convective_sub_col_frac(m, "cl", N_columns=1)
    for bad in (2, N + 1):
        case.raises("count-mismatch-rejected", ValueError, set_convective_sub_col_frac, m, "ci", N_columns=bad)


def large(case):
    """Many subcolumns, levels and columns; fractions next to (but not at) rounding ties."""
    rng = case.rng
    N = int(common.pick(rng, [100, 128, 200, 257, 300, 1000]))
    T, H = (int(rng.integers(1, 4)), int(rng.integers(60, 140))) if case.index % 2 else (int(rng.integers(60, 300)), 4)
    m = world.make_model(rng, "ModelE", N, T, H, single=False)     # differences of 1e-9 matter
    rad = bool(rng.integers(0, 2))
    for h in m.hyd_types:
        for names in (m.conv_frac_names, m.conv_frac_names_for_rad):
            v = m.ds[names[h]].values
            tie = (rng.integers(0, N, size=v.shape) + 0.5) / N + rng.choice([-1e-9, 1e-9], size=v.shape)
            v[:] = np.where(rng.uniform(size=v.shape) < 0.4, np.clip(tie, 0, 1), v)
        m = set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
        got = common.sub(case, m, f"conv_frac_subcolumns_{h}")
        cnt = common.counts_from(common.fld(m, m.conv_frac_names_for_rad[h] if rad else m.conv_frac_names[h]),
                                 common.fld(m, m.q_names_convective[h]), N, rad)
        case.equal("conv-occupancy", got.astype(float), (np.arange(N)[:, None, None] < cnt[None]).astype(float),
                   what=f"convective {h} N={N} T={T} H={H} rad={rad}")
    case.info = dict(N=N, T=T, H=H, rad=rad)


def single(case):
    rng = case.rng
    T, H = int(rng.integers(1, 4)), int(rng.integers(2, 10))
    m = world.make_model(rng, common.pick(rng, ["ModelE", "CESM"]), 1, T, H)
    for h in m.hyd_types:
        thr = common.pick(rng, [1e-18, 1e-18, 1e-5, 0.0])
        kw = {} if thr == 1e-18 else {"q_trunc_thresh": thr}
        # the number need not be repeated once the model has it
        n_col = 1 if m.num_subcolumns == 0 else common.pick(rng, [1, None])
        m = set_convective_sub_col_frac(m, h, N_columns=n_col, use_rad_logic=bool(rng.integers(0, 2)), **kw)
        got = common.sub(case, m, f"conv_frac_subcolumns_{h}")
        exp = (common.fld(m, m.q_names_convective[h]) > thr)[None]
        case.equal("single-subcolumn", got.astype(float), exp.astype(float), what=f"single subcolumn conv {h}")


SCENARIOS = dict(occupancy=occupancy, mismatch=mismatch, single=single, large=large)
