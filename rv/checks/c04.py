"""C04: mixing ratio and number distribution into subcolumns."""
import numpy as np
import xarray as xr

from emc2.simulator.subcolumn import (set_convective_sub_col_frac, set_stratiform_sub_col_frac,
                                      set_precip_sub_col_frac, set_q_n)
from .. import world, common

PROPERTY = "C04"
RULE = ("generated subcolumn scenes x logic x class x convective / stratiform x homogeneous / sub-grid PDF x relative "
        "variance (field, scalar, default) x scheduling; monitors compare every subcolumn cell and cell sums")
REQUIRED = {"q-in-cloud": 3000, "n-in-cloud": 2000, "pdf-sum": 300, "pdf-nonneg": 1000, "pdf-spread": 6,
            "finite": 5000, "inputs-untouched": 100, "single-subcolumn": 20}


def plan(tier):
    n = 40 if tier == "quick" else 500
    return [("homogeneous", n), ("pdf", n), ("spread", 8 if tier == "quick" else 40), ("single", n // 4), ("reject", 4),
            ("large", 4 if tier == "quick" else 24)]


def scene(case, fam, N, T, H, conv, rad, q_mode="hostile", relvar=False, frac_mode=None, thr=1e-18):
    kw = {} if thr == 1e-18 else dict(q_trunc_thresh=thr)
    m = world.make_model(case.rng, fam, N, T, H, process_conv=conv, q_mode=q_mode, relvar=relvar, frac_mode=frac_mode)
    if conv:
        for h in m.hyd_types:
            m = set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad, **kw)
    m = set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=False, **kw)
    types = [h for h in m.hyd_types if h not in ("cl", "ci")]
    m = set_precip_sub_col_frac(m, False, use_rad_logic=rad, precip_types=types, parallel=False, **kw)
    if conv:
        m = set_precip_sub_col_frac(m, True, use_rad_logic=rad, precip_types=types, parallel=False, **kw)
    return m


def fields(m, h, is_conv, rad, thr):
    q = common.fld(m, (m.q_names_convective if is_conv else m.q_names_stratiform)[h])
    if is_conv:
        f = common.fld(m, (m.conv_frac_names_for_rad if rad else m.conv_frac_names)[h])
    else:
        f = common.fld(m, (m.strat_frac_names_for_rad if rad else m.strat_frac_names)[h])
    qic = np.where((q > thr) & (f > 0), q / np.where(f > 0, f, 1), 0.)
    return q, f, qic


def judge_homog(case, m, h, is_conv, rad, thr, what):
    pre = "conv" if is_conv else "strat"
    occ = common.sub(case, m, f"{pre}_frac_subcolumns_{h}").astype(bool)
    q, f, qic = fields(m, h, is_conv, rad, thr)
    got = common.sub(case, m, f"{pre}_q_subcolumns_{h}")
    case.see("finite", got.size)
    if not np.isfinite(got).all() or (got < 0).any():
        case.fail("finite", f"{what}: non-finite or negative mixing ratio in subcolumns")
    case.equal("q-in-cloud", got, np.where(occ, qic[None], 0.), what=f"{what} q")
    if not is_conv:
        judge_n(case, m, h, occ, q, f, rad, thr, what)
    else:
        case.check(f"conv_n_subcolumns_{h}" not in m.ds, "no-conv-number", f"{what}: unexpected convective number")


def judge_n(case, m, h, occ, q, f, rad, thr, what):
    n = common.fld(m, m.N_field[h])
    n_ic = np.where(f > 0, n / np.where(f > 0, f, 1), 0.)
    got = common.sub(case, m, f"strat_n_subcolumns_{h}")
    case.see("finite", got.size)
    if not np.isfinite(got).all() or (got < 0).any():
        case.fail("finite", f"{what}: non-finite or negative number concentration in subcolumns")
    case.equal("n-in-cloud", got, np.where(occ, n_ic[None], 0.), what=f"{what} N")


def homogeneous(case):
    rng = case.rng
    N = int(common.pick(rng, [2, 3, 5, 8, 10, 17]))
    T, H = int(rng.integers(1, 6)), int(rng.integers(3, 12))
    conv, rad = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    thr = common.pick(rng, [1e-18, 1e-18, 1e-6])
    kw = {} if thr == 1e-18 else dict(q_trunc_thresh=thr)
    m = scene(case, common.pick(rng, ["ModelE", "CESM", "Multi", "WRF"]), N, T, H, conv, rad, thr=thr)
    before = common.snapshot(m.ds)
    for h in rng.permutation(m.hyd_types):
        for is_conv in ([False, True] if conv else [False]):
            qc = bool(rad or is_conv) and bool(rng.integers(0, 2))   # ignored by documentation
            m = set_q_n(m, h, is_conv=is_conv, qc_flag=qc, use_rad_logic=rad, **common.pick(rng, common.PAR), **kw)
            judge_homog(case, m, h, is_conv, rad, thr, f"{h} conv={is_conv} rad={rad}")
    common.inputs_untouched(case, before, m.ds, "q/N distribution")
    case.info = dict(N=N, T=T, H=H, conv=conv, rad=rad)


def pdf(case):
    rng = case.rng
    N = int(common.pick(rng, [2, 3, 4, 6, 8, 12, 25]))
    T, H = int(rng.integers(1, 7)), int(rng.integers(3, 12))
    conv = bool(rng.integers(0, 2))
    relvar = bool(rng.integers(0, 2))
    m = scene(case, common.pick(rng, ["ModelE", "Multi", "WRF"]), N, T, H, conv, False, relvar=relvar)
    before = common.snapshot(m.ds)
    par = common.pick(rng, common.PAR)
    arg = common.pick(rng, [None, 0.7, 2.0, 3, "array"])
    if isinstance(arg, str):
        arg = rng.uniform(0.3, 4, size=(T, H))
    thr = common.pick(rng, [1e-18, 1e-18, 1e-6])
    kw = {} if thr == 1e-18 else dict(q_trunc_thresh=thr)
    h = "cl"
    m = set_q_n(m, h, is_conv=False, qc_flag=True, inv_rel_var=arg, use_rad_logic=False, **par, **kw)
    occ = common.sub(case, m, "strat_frac_subcolumns_cl").astype(bool)
    q, f, qic = fields(m, h, False, False, thr)
    got = common.sub(case, m, "strat_q_subcolumns_cl")
    what = f"PDF N={N} {par} relvar={relvar}"
    case.see("finite", got.size)
    if not np.isfinite(got).all():
        case.fail("finite", f"{what}: non-finite mixing ratio in subcolumns")
    case.see("pdf-nonneg", got.size)
    if (got < -1e-18).any():
        case.fail("pdf-nonneg", f"{what}: negative mixing ratio {got.min()!r}")
    case.equal("q-in-cloud", np.where(occ, 0, got), 0., what=f"{what} empty subcolumns")
    case.equal("pdf-sum", got.sum(axis=0), qic * occ.sum(axis=0), rtol=1e-7, atol=1e-20, what=f"{what} cell sum")
    for t, k in np.argwhere(occ.sum(axis=0) > 0)[:60]:
        case.state("n", min(int(occ[:, t, k].sum()), 4), "par", str(par), "q0", qic[t, k] == 0)
    judge_n(case, m, h, occ, q, f, False, thr, what)
    common.inputs_untouched(case, before, m.ds, "q/N distribution")
    case.info = dict(N=N, T=T, H=H, conv=conv, relvar=relvar, par=str(par))


def spread(case):
    """The sub-grid values follow the requested relative variance (and its field when the model has one)."""
    rng = case.rng
    N, T, H = 60, 40, 4
    relvar = bool(case.index % 2)
    m = scene(case, "ModelE", N, T, H, False, False, q_mode="pos", relvar=relvar, frac_mode="full")
    big = common.pick(rng, [1.0, 1.0, 50.0])     # thin clouds up to convective water contents
    m.ds[m.q_names_stratiform["cl"]].values[:] *= big
    hi, lo = 0.05, 2.0      # relative variances of the two halves
    # by time or changing from level to level (no cell may follow its neighbour's)
    half = (np.arange(T) < T // 2)[:, None] & np.ones(H, bool) if case.index % 4 == 1 else np.add.outer(np.arange(T), np.arange(H)) % 2 == 0
    if relvar:
        rv = m.ds["relvar"]
        rv.values[:] = xr.DataArray(np.where(half, hi, lo), dims=(m.time_dim, m.height_dim)).transpose(*rv.dims).values
        m = set_q_n(m, "cl", is_conv=False, qc_flag=True, use_rad_logic=False, parallel=bool(rng.integers(0, 2)))
        target = np.where(half, hi, lo)[:, :H - 1]
    else:
        iv = common.pick(rng, [0.5, 1.0, 20.0, None])
        m = set_q_n(m, "cl", is_conv=False, qc_flag=True, use_rad_logic=False, inv_rel_var=iv,
                    parallel=bool(rng.integers(0, 2)))
        target = np.full((T, H - 1), 1.0 / (iv or 1.0))
    q = common.sub(case, m, "strat_q_subcolumns_cl")[:, :, :H - 1]
    _, _, qic = fields(m, "cl", False, False, 1e-18)
    r = q / qic[None, :, :H - 1]
    for tv in np.unique(target):
        v = float(np.mean(np.var(r[:, target == tv], axis=0)))
        # closing each cell at its mean total widens the spread by 35 to 65 % (the last values take the rest), with a
        # standard deviation below 0.14 over these samples: far from either limit
        case.check(0.5 * tv < v < 2.7 * tv, "pdf-spread", f"relative variance {v:.3f} where {tv:.3f} was asked for")
        first = r[:, target == tv].mean(axis=1)
        s = np.sqrt(tv / (target == tv).sum())
        case.check(np.abs(first - 1).max() < 8 * s, "pdf-spread", "sub-grid water favours particular subcolumns")


def single(case):
    rng = case.rng
    T, H = int(rng.integers(1, 5)), int(rng.integers(2, 10))
    rad = bool(case.index % 2)
    thr = common.pick(rng, [1e-18, 1e-18, 1e-6])
    kw = {} if thr == 1e-18 else dict(q_trunc_thresh=thr)
    # fractions of every size, down to the very small ones (the subcolumn number only shapes the workload here)
    m = scene(case, common.pick(rng, ["ModelE", "Multi"]), 1, T, H, True, rad, frac_mode="tiny", thr=thr)
    for h in m.hyd_types:
        for is_conv in (False, True):
            m = set_q_n(m, h, is_conv=is_conv, qc_flag=bool(rng.integers(0, 2)), use_rad_logic=rad,
                        **common.pick(rng, common.PAR), **kw)
            q, f, qic = fields(m, h, is_conv, rad, thr)
            got = common.sub(case, m, f"{'conv' if is_conv else 'strat'}_q_subcolumns_{h}")
            case.see("finite", got.size)
            if not np.isfinite(got).all() or (got < 0).any():
                case.fail("finite", f"single {h}: non-finite or negative mixing ratio")
            case.equal("single-subcolumn", got, qic[None], what=f"single {h}")
            if not is_conv:
                n = common.fld(m, m.N_field[h])
                ok = (f > 0) & ((q > thr) | (not rad))
                got = common.sub(case, m, f"strat_n_subcolumns_{h}")
                case.see("finite", got.size)
                if not np.isfinite(got).all() or (got < 0).any():
                    case.fail("finite", f"single {h}: non-finite or negative number concentration")
                case.equal("single-subcolumn", got, np.where(ok, n / np.where(f > 0, f, 1), 0)[None],
                           what=f"single {h} number")


def large(case):
    """Many subcolumns, levels or columns; in-cloud water up to several g/kg."""
    rng = case.rng
    k = case.index % 4
    N = int(rng.integers(129, 401)) if k == 0 else int(rng.integers(2, 30))
    H = int(rng.integers(70, 140)) if k in (1, 3) else int(rng.integers(4, 10))
    T = int(rng.integers(130, 300)) if k == 2 else int(rng.integers(1, 4))
    rad = bool(rng.integers(0, 2))
    # with many subcolumns even fractions below one percent are resolved
    m = scene(case, "ModelE", N, T, H, False, rad, frac_mode="few" if k == 0 else None)
    for h in m.hyd_types:
        m = set_q_n(m, h, is_conv=False, qc_flag=rad, use_rad_logic=rad,
                    **common.pick(rng, common.PAR[:1] + common.PAR[2:]))
        judge_homog(case, m, h, False, rad, 1e-18, f"large {h} rad={rad}")
    case.info = dict(N=N, T=T, H=H, rad=rad)


def reject(case):
    m = world.make_model(case.rng, "ModelE", 4, 2, 4)
    for is_conv in (False, True):
        case.raises("reject", RuntimeError, set_q_n, m, "cl", is_conv=is_conv)


SCENARIOS = dict(homogeneous=homogeneous, pdf=pdf, spread=spread, single=single, reject=reject, large=large)
