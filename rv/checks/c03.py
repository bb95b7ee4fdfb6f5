"""C03: precipitation placement (exact fraction, nesting, preference order)."""
import numpy as np
import xarray as xr

from emc2.simulator.subcolumn import (set_convective_sub_col_frac, set_stratiform_sub_col_frac,
                                      set_precip_sub_col_frac)
from .. import world, common

PROPERTY = "C03"
RULE = ("random profiles x 1..5 precipitation classes (lists in any order) x stratiform / convective x logic x "
        "scheduling x subcolumn count; every level and class of every column judged by count, nesting, and the three "
        "preference-step monitors")
REQUIRED = {"count": 5000, "nested": 1500, "prefer-precip-above": 1000, "prefer-cloud": 800, "top-empty": 200,
            "single-subcolumn": 50, "uniform": 20, "inputs-untouched": 100}


def plan(tier):
    n = 40 if tier == "quick" else 600
    return [("placement", n), ("directed", 24 if tier == "quick" else 200), ("single", n // 4),
            ("uniformity", 8 if tier == "quick" else 32), ("reject", 6),
            ("large", 4 if tier == "quick" else 24)]


def judge(case, m, types, is_conv, N, rad, thr=1e-18, what=""):
    pre = "conv" if is_conv else "strat"
    occ = np.stack([common.sub(case, m, f"{pre}_frac_subcolumns_{h}").astype(bool) for h in types])
    if not case.check(occ.shape[1] == N, "subcolumn-count", f"{occ.shape[1]} subcolumns, not {N}"):
        return
    T, H = occ.shape[2:]
    cloud = (common.sub(case, m, f"{pre}_frac_subcolumns_cl").astype(bool) |
             common.sub(case, m, f"{pre}_frac_subcolumns_ci").astype(bool))
    if is_conv:
        names, qn = (m.conv_frac_names_for_rad if rad else m.conv_frac_names), m.q_names_convective
    else:
        names, qn = (m.strat_frac_names_for_rad if rad else m.strat_frac_names), m.q_names_stratiform
    want = np.stack([common.counts_from(common.fld(m, names[h]), common.fld(m, qn[h]), N, rad, thr) for h in types])
    got = occ.sum(axis=1)
    case.equal("count", got[:, :, :H - 1], want[:, :, :H - 1], what=f"{what} {pre} {types} N={N} rad={rad}")
    case.equal("top-empty", got[:, :, -1], 0, what=f"{what} top level")
    order = np.argsort(want, axis=0)
    sorted_occ = np.take_along_axis(occ, order[:, None], axis=0)
    if len(types) > 1:
        out = (sorted_occ[:-1] & ~sorted_occ[1:]).any(axis=(0, 1))
        case.equal("nested", out[:, :-1].astype(float), 0.0, what=f"{what} {types}: less abundant inside more abundant")
    else:
        case.see("nested", 0)
    above = np.zeros((N, T, H), bool)
    above[:, :, :-1] = occ.any(axis=0)[:, :, 1:]
    n_ab = above.sum(axis=0)
    cl_free = (cloud & ~above).sum(axis=0)
    for i, h in enumerate(types):
        n = want[i]
        k = (occ[i] & above).sum(axis=0)
        e = np.minimum(n, n_ab)
        case.equal("prefer-precip-above", k[:, :-1], e[:, :-1], what=f"{what} {h} under precipitation above")
        k2 = (occ[i] & cloud & ~above).sum(axis=0)
        e2 = np.minimum(n - e, cl_free)
        case.equal("prefer-cloud", k2[:, :-1], e2[:, :-1], what=f"{what} {h} in cloudy subcolumns next")
        for t in range(T):
            for j in range(H - 1):
                case.state(min(int(n[t, j]), 2), int(np.sign(n[t, j] - n_ab[t, j])),
                           int(np.sign(n[t, j] - n_ab[t, j] - cl_free[t, j])), len(types), pre)


def put_cloud(m, rng, N, is_conv):
    """Cloud placement from anywhere (the precipitation step only reads it)."""
    T, H = m.ds["tair"].shape
    m.num_subcolumns = N
    pre = "conv" if is_conv else "strat"
    dims = ("subcolumn",) + m.ds["tair"].dims
    for h in ("cl", "ci"):
        cover = rng.choice([0.0, 0.1, 0.5, 0.9], size=(1, T, H))
        m.ds[f"{pre}_frac_subcolumns_{h}"] = xr.DataArray(rng.uniform(size=(N, T, H)) < cover, dims=dims)
    return m


def types_for(rng, m):
    t = [h for h in m.hyd_types if h not in ("cl", "ci")]
    t = list(rng.permutation(t))
    k = int(rng.integers(1, len(t) + 1))
    return t if rng.uniform() < 0.6 else t[:k]


def placement(case):
    rng = case.rng
    for rep in range(3):
        N = int(common.pick(rng, [2, 3, 4, 5, 7, 8, 10, 16, 20, 33, 40]))
        T, H = int(rng.integers(1, 7)), int(rng.integers(3, 18))
        conv = bool(rng.integers(0, 2))
        rad = bool(rng.integers(0, 2))
        thr = common.pick(rng, [1e-18, 1e-18, 1e-18, 1e-5])
        m = world.make_model(rng, common.pick(rng, ["ModelE", "CESM", "Multi", "WRF"]), N, T, H, process_conv=conv)
        par = common.pick(rng, common.PAR)
        before = common.snapshot(m.ds)
        is_conv = conv and bool(rng.integers(0, 2))
        if rng.integers(0, 2):
            m = put_cloud(m, rng, N, is_conv)
        else:
            if conv:
                for h in m.hyd_types:
                    m = set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
            m = set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, **par)
        types = types_for(rng, m)
        kw = dict(par)
        if thr != 1e-18:
            kw["q_trunc_thresh"] = thr
        m = set_precip_sub_col_frac(m, is_conv, use_rad_logic=rad, precip_types=types, **kw)
        common.inputs_untouched(case, before, m.ds, "precipitation placement")
        judge(case, m, types, is_conv, N, rad, thr, f"{par}")
    case.info = dict(N=N, T=T, H=H, rad=rad, conv=is_conv, types=list(types), par=str(par))


def large(case):
    """Many subcolumns, levels or columns."""
    rng = case.rng
    k = case.index % 4
    N = int(rng.integers(129, 401)) if k == 0 else int(rng.integers(2, 30))
    H = int(rng.integers(70, 140)) if k in (1, 3) else int(rng.integers(4, 10))
    T = int(rng.integers(130, 300)) if k == 2 else int(rng.integers(1, 4))
    is_conv, rad = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    m = world.make_model(rng, common.pick(rng, ["ModelE", "Multi"]), N, T, H)
    m = put_cloud(m, rng, N, is_conv)
    types = types_for(rng, m)
    m = set_precip_sub_col_frac(m, is_conv, use_rad_logic=rad, precip_types=types,
                                **common.pick(rng, common.PAR[:1] + common.PAR[2:]))
    judge(case, m, types, is_conv, N, rad, what="large")
    case.info = dict(N=N, T=T, H=H, conv=is_conv, rad=rad)


def directed(case):
    """All combinations of counts in two stacked layers for two classes, over random cloud."""
    rng = case.rng
    N = int(common.pick(rng, [2, 3, 4, 5]))
    combos = np.array(np.meshgrid(*[np.arange(N + 1)] * 4)).reshape(4, -1).T
    combos = combos[rng.permutation(len(combos))[:100]]
    T = len(combos)
    rad = bool(rng.integers(0, 2))
    is_conv = bool(rng.integers(0, 2))
    m = world.make_model(rng, "ModelE", N, T, 5, q_mode="pos")
    sets = ((m.conv_frac_names, m.conv_frac_names_for_rad) if is_conv
            else (m.strat_frac_names, m.strat_frac_names_for_rad))
    for names in sets:
        for i, h in enumerate(("pl", "pi")):
            v = np.zeros((T, 5))
            v[:, 4] = rng.integers(0, N + 1, size=T) / N
            v[:, 3] = combos[:, i] / N
            v[:, 2] = combos[:, 2 + i] / N
            v[:, 1] = rng.integers(0, N + 1, size=T) / N
            v[:, 0] = combos[:, i] / N
            m.ds[names[h]].values[:] = v
    m = put_cloud(m, rng, N, is_conv)
    if rng.integers(0, 2):   # default class list
        types = ["pl", "pi"]
        m = set_precip_sub_col_frac(m, is_conv, use_rad_logic=rad, **common.pick(rng, common.PAR))
    else:
        types = ["pi", "pl"]
        m = set_precip_sub_col_frac(m, is_conv, use_rad_logic=rad, precip_types=types, **common.pick(rng, common.PAR))
    judge(case, m, types, is_conv, N, rad, what="directed")


def single(case):
    rng = case.rng
    T, H = int(rng.integers(1, 5)), int(rng.integers(2, 10))
    m = world.make_model(rng, common.pick(rng, ["ModelE", "Multi"]), 1, T, H)
    rad = bool(rng.integers(0, 2))
    is_conv = bool(rng.integers(0, 2))
    for h in m.hyd_types:
        m = set_convective_sub_col_frac(m, h, N_columns=common.pick(rng, [1, None]) if m.num_subcolumns else 1,
                                        use_rad_logic=rad)
    m = set_stratiform_sub_col_frac(m, N_columns=common.pick(rng, [1, None]), use_rad_logic=rad)
    types = types_for(rng, m)
    thr = common.pick(rng, [1e-18, 1e-18, 1e-5, 0.0])
    kw = {} if thr == 1e-18 else {"q_trunc_thresh": thr}
    m = set_precip_sub_col_frac(m, is_conv, use_rad_logic=rad, precip_types=types, **common.pick(rng, common.PAR), **kw)
    qn = m.q_names_convective if is_conv else m.q_names_stratiform
    for h in types:
        got = common.sub(case, m, f"{'conv' if is_conv else 'strat'}_frac_subcolumns_{h}")
        case.equal("single-subcolumn", got.astype(float), (common.fld(m, qn[h]) > thr)[None].astype(float),
                   what=f"single precip {h}")


def uniformity(case):
    rng = case.rng
    N, T = int(common.pick(rng, [4, 6, 9])), 400
    m = world.make_model(rng, "ModelE", N, T, 6, process_conv=False, q_mode="pos")
    k = rng.integers(1, N, size=6)
    for h, off in (("pl", 0), ("pi", 1)):
        v = np.zeros((T, 6))
        v[:, 3], v[:, 1], v[:, 0] = k[off] / N, k[2 + off] / N, k[4 + off] / N
        m.ds[m.strat_frac_names[h]].values[:] = v
    m.num_subcolumns = N
    dims = ("subcolumn",) + m.ds["tair"].dims
    for h in ("cl", "ci"):
        m.ds[f"strat_frac_subcolumns_{h}"] = xr.DataArray(np.zeros((N, T, 6), bool), dims=dims)
    m = set_precip_sub_col_frac(m, False, use_rad_logic=False, parallel=False)
    for h in ("pl", "pi"):
        occ = common.sub(case, m, f"strat_frac_subcolumns_{h}").astype(bool)
        for j in (3, 1, 0):
            p = occ[:, :, j].mean()
            f = occ[:, :, j].mean(axis=1)
            s = np.sqrt(max(p * (1 - p), 1e-9) / T)
            case.see("uniform", N)
            if np.abs(f - p).max() > 8 * s + 1e-9:
                case.fail("uniform", f"level {j} {h}: occupancy frequencies {np.round(f, 3).tolist()} not uniform")
            if 0 < p < 1:
                same = (occ[:, 1:, j] == occ[:, :-1, j]).all(axis=0).mean()
                case.check(same < 0.75, "uniform", f"{h}: {same:.0%} of neighbouring columns share one placement")


def reject(case):
    rng = case.rng
    m = world.make_model(rng, "ModelE", 4, 2, 4)
    case.raises("reject", RuntimeError, set_precip_sub_col_frac, m, False)
    m = put_cloud(m, rng, 4, False)
    case.raises("reject", ValueError, set_precip_sub_col_frac, m, False, N_columns=7)
    before = common.snapshot(m.ds)
    case.raises("reject", (KeyError, TypeError), set_precip_sub_col_frac, m, True)   # no convective cloud placed yet
    common.inputs_untouched(case, before, m.ds, "rejected request")
    cloud = common.pick(rng, ["strat", "conv"])
    m = put_cloud(world.make_model(rng, "ModelE", 4, 2, 4), rng, 4, cloud == "conv")
    gone = f"{cloud}_frac_subcolumns_{common.pick(rng, ['cl', 'ci'])}"
    m.ds = m.ds.drop_vars(gone)
    try:
        set_precip_sub_col_frac(m, cloud == "conv")
        case.fail("reject", f"precipitation placed without {gone}")
    except KeyError as e:
        case.see("reject")
        case.check(gone in str(e), "reject", f"refusal does not name the missing field {gone}: {e}")
    except Exception as e:
        case.fail("reject", f"without {gone}: {type(e).__name__}: {e}")


SCENARIOS = dict(placement=placement, directed=directed, single=single, uniformity=uniformity, reject=reject, large=large)
