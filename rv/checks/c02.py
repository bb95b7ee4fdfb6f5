"""C02: stratiform cloud liquid / ice placement (exact fraction, maximum-random overlap)."""
import numpy as np

from emc2.simulator.subcolumn import set_convective_sub_col_frac, set_stratiform_sub_col_frac
from .. import world, common

PROPERTY = "C02"
RULE = ("random profiles (0, 1, ties, vertically coherent, sparse fractions; mixing ratio around the threshold) x "
        "1..400 subcolumns x logic x with/without convection x scheduling option; every level of every column is "
        "judged by the count, exclusion, nesting, overlap and top-level monitors")
REQUIRED = {"count": 5000, "no-convective-cell": 1500, "nested": 1500, "overlap": 800, "top-empty": 200,
            "single-subcolumn": 50, "uniform": 20, "inputs-untouched": 100}


def plan(tier):
    n = 40 if tier == "quick" else 600
    return [("placement", n), ("directed", 24 if tier == "quick" else 200), ("single", n // 4),
            ("uniformity", 8 if tier == "quick" else 32), ("order", 8),
            ("large", 4 if tier == "quick" else 24)]


def judge(case, m, N, rad, thr=1e-18, what=""):
    cl = common.sub(case, m, "strat_frac_subcolumns_cl").astype(bool)
    ci = common.sub(case, m, "strat_frac_subcolumns_ci").astype(bool)
    if not case.check(cl.shape[0] == N and ci.shape[0] == N, "subcolumn-count", f"{cl.shape[0]} subcolumns, not {N}"):
        return
    T, H = cl.shape[1:]
    if m.process_conv:
        conv = (common.sub(case, m, "conv_frac_subcolumns_cl").astype(bool) |
                common.sub(case, m, "conv_frac_subcolumns_ci").astype(bool))
    else:
        conv = np.zeros(cl.shape, bool)
    names = m.strat_frac_names_for_rad if rad else m.strat_frac_names
    want = np.stack([common.counts_from(common.fld(m, names[h]), common.fld(m, m.q_names_stratiform[h]), N, rad, thr)
                     for h in ("cl", "ci")])
    free = (~conv).sum(axis=0)
    both = want.min(axis=0) == N
    exp = np.where(both[None], N, np.minimum(want, free[None]))
    got = np.stack([cl.sum(axis=0), ci.sum(axis=0)])
    sl = np.s_[:, :, :H - 1]
    case.equal("count", got[sl], exp[sl], what=f"{what} occupied subcolumns (cl, ci) N={N} rad={rad}")
    case.equal("top-empty", got[:, :, -1], 0, what=f"{what} top level")
    occ = cl | ci
    bad = (occ & conv).any(axis=0) & ~both
    case.see("no-convective-cell", (conv.any(axis=0) & ~both)[:, :-1].sum() or 0)
    if bad.any():
        case.fail("no-convective-cell", f"{what}: stratiform cloud in a convective subcolumn at (t, k) "
                  f"{np.argwhere(bad)[0].tolist()}")
    nest = ~((cl & ~ci).any(axis=0) & (ci & ~cl).any(axis=0))
    case.equal("nested", nest[:, :-1].astype(float), 1.0, what=f"{what} less abundant phase inside the other")
    for t in range(T):
        for j in range(H - 2, -1, -1):
            if both[t, j] or exp[:, t, j].max() == 0:
                continue
            O1 = cl[:, t, j + 1] & ~conv[:, t, j]
            O2 = ci[:, t, j + 1] & ~conv[:, t, j]
            O, OB = O1 | O2, O1 & O2
            if not O.any():
                continue
            for S, n, h in ((cl, exp[0, t, j], "cl"), (ci, exp[1, t, j], "ci")):
                k, kb = int((S[:, t, j] & O).sum()), int((S[:, t, j] & OB).sum())
                case.see("overlap", 2)
                case.state("ov", min(n, 3), min(int(O.sum()), 3), min(int(OB.sum()), 3), h,
                           int(np.sign(n - O.sum())), int(np.sign(n - OB.sum())))
                if k != min(n, O.sum()):
                    case.fail("overlap", f"{what}: {h} at (t={t}, k={j}) has {n} subcolumns, {k} of them under the "
                              f"{int(O.sum())} cloudy ones above (expected {min(n, int(O.sum()))})")
                if kb != min(n, OB.sum()):
                    case.fail("overlap", f"{what}: {h} at (t={t}, k={j}): {kb} under the {int(OB.sum())} subcolumns "
                              f"holding both phases above (expected {min(n, int(OB.sum()))})")


def _generate(case, m, N, rad, thr, par, via="direct"):
    rng = case.rng
    if m.process_conv:
        for h in m.hyd_types:
            m = set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
    kw = dict(par)
    if thr != 1e-18:
        kw["q_trunc_thresh"] = thr
    mode = rng.integers(0, 3)
    if mode == 0 and m.process_conv:
        n_arg = None
    elif mode == 1 and not m.process_conv:
        m.num_subcolumns = N
        n_arg = None
    else:
        n_arg = N
    return set_stratiform_sub_col_frac(m, N_columns=n_arg, use_rad_logic=rad, **kw)


def placement(case):
    rng = case.rng
    for rep in range(3):
        N = int(common.pick(rng, [2, 3, 4, 5, 7, 8, 10, 16, 20, 33, 40]))
        T, H = int(rng.integers(1, 7)), int(rng.integers(3, 20))
        conv = bool(rng.integers(0, 2))
        rad = bool(rng.integers(0, 2))
        thr = common.pick(rng, [1e-18, 1e-18, 1e-18, 1e-5])
        m = world.make_model(rng, common.pick(rng, ["ModelE", "CESM", "Multi", "WRF"]), N, T, H, process_conv=conv)
        par = common.pick(rng, common.PAR)
        before = common.snapshot(m.ds)
        m = _generate(case, m, N, rad, thr, par)
        common.inputs_untouched(case, before, m.ds, "stratiform placement")
        judge(case, m, N, rad, thr, f"{par}")
    case.info = dict(N=N, T=T, H=H, rad=rad, conv=conv, par=str(par))


def large(case):
    """Many subcolumns, levels or columns."""
    rng = case.rng
    k = case.index % 4
    N = int(rng.integers(129, 401)) if k == 0 else int(rng.integers(2, 30))
    H = int(rng.integers(70, 140)) if k in (1, 3) else int(rng.integers(4, 10))
    T = int(rng.integers(130, 300)) if k == 2 else int(rng.integers(1, 4))
    conv, rad = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    m = world.make_model(rng, "ModelE", N, T, H, process_conv=conv)
    m = _generate(case, m, N, rad, 1e-18, common.pick(rng, common.PAR[:1] + common.PAR[2:]))
    judge(case, m, N, rad, what="large")
    case.info = dict(N=N, T=T, H=H, conv=conv, rad=rad)


def directed(case):
    """Every combination of counts (upper cl, ci) x (lower cl, ci), one combination per model column."""
    rng = case.rng
    N = int(common.pick(rng, [2, 3, 4, 5, 6]))
    combos = np.array(np.meshgrid(*[np.arange(N + 1)] * 4)).reshape(4, -1).T
    combos = combos[rng.permutation(len(combos))[:80]]
    T = len(combos)
    conv = bool(case.index % 2)
    rad = bool(rng.integers(0, 2))
    m = world.make_model(rng, "ModelE", N, T, 5, process_conv=conv, q_mode="pos")
    for names in (m.strat_frac_names, m.strat_frac_names_for_rad):
        for i, h in enumerate(("cl", "ci")):
            v = np.zeros((T, 5))
            v[:, 4] = rng.integers(0, N + 1, size=T) / N
            v[:, 3] = combos[:, i] / N
            v[:, 2] = combos[:, 2 + i] / N
            v[:, 1] = combos[:, i] / N * (rng.uniform(size=T) < 0.7)
            v[:, 0] = rng.integers(0, N + 1, size=T) / N
            m.ds[names[h]].values[:] = v
    m = _generate(case, m, N, rad, 1e-18, common.pick(rng, common.PAR))
    judge(case, m, N, rad, what="directed")
    case.info = dict(N=N, T=T, conv=conv, rad=rad)


def single(case):
    rng = case.rng
    T, H = int(rng.integers(1, 5)), int(rng.integers(2, 10))
    conv = bool(rng.integers(0, 2))
    m = world.make_model(rng, "ModelE", 1, T, H, process_conv=conv)
    rad = bool(rng.integers(0, 2))
    if conv:
        for h in m.hyd_types:
            m = set_convective_sub_col_frac(m, h, N_columns=1, use_rad_logic=rad)
    thr = common.pick(rng, [1e-18, 1e-18, 1e-5, 0.0])
    kw = {} if thr == 1e-18 else {"q_trunc_thresh": thr}
    if not conv and rng.integers(0, 2):
        m.num_subcolumns = 1                     # a count set beforehand need not be repeated
    n_col = 1 if m.num_subcolumns == 0 else common.pick(rng, [1, None])
    m = set_stratiform_sub_col_frac(m, N_columns=n_col, use_rad_logic=rad, **common.pick(rng, common.PAR), **kw)
    for h in ("cl", "ci"):
        got = common.sub(case, m, f"strat_frac_subcolumns_{h}")
        exp = (common.fld(m, m.q_names_stratiform[h]) > thr)[None]
        case.equal("single-subcolumn", got.astype(float), exp.astype(float), what=f"single strat {h}")


def uniformity(case):
    """Placement that the overlap rules leave open must not favour any subcolumn (thresholds at ~8 sigma)."""
    rng = case.rng
    N, T = int(common.pick(rng, [4, 6, 9])), 400
    rad = bool(case.index % 2)
    m = world.make_model(rng, "ModelE", N, T, 6, process_conv=False, q_mode="pos")
    k = rng.integers(1, N, size=6)
    for names in (m.strat_frac_names, m.strat_frac_names_for_rad):
        for h, off in (("cl", 0), ("ci", 1)):
            v = np.zeros((T, 6))
            v[:, 3] = k[0 + off] / N          # isolated layer
            v[:, 1] = k[2 + off] / N          # two-layer cloud
            v[:, 0] = k[4 + off] / N
            m.ds[names[h]].values[:] = v
    m = set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=False)
    for h in ("cl", "ci"):
        occ = common.sub(case, m, f"strat_frac_subcolumns_{h}").astype(bool)
        for j in (3, 1, 0):
            p = occ[:, :, j].mean()
            f = occ[:, :, j].mean(axis=1)
            s = np.sqrt(max(p * (1 - p), 1e-9) / T)
            case.see("uniform", N)
            if np.abs(f - p).max() > 8 * s + 1e-9:
                case.fail("uniform", f"level {j} {h}: subcolumn occupancy frequencies {np.round(f, 3).tolist()} are "
                          f"not uniform (mean {p:.3f}, {T} columns)")
            # consecutive columns must not repeat the same choice
            same = (occ[:, 1:, j] == occ[:, :-1, j]).all(axis=0).mean()
            if 0 < p < 1:
                case.check(same < 0.75, "uniform", f"{h}: {same:.0%} of neighbouring columns share one placement")


def order(case):
    rng = case.rng
    m = world.make_model(rng, "ModelE", 4, 2, 4, process_conv=True)
    case.raises("needs-convective-first", KeyError, set_stratiform_sub_col_frac, m, N_columns=4)
    m = set_convective_sub_col_frac(m, "cl", N_columns=4)
    case.raises("needs-convective-first", KeyError, set_stratiform_sub_col_frac, m, N_columns=4)
    m = set_convective_sub_col_frac(m, "ci", N_columns=4)
    m = set_stratiform_sub_col_frac(m, N_columns=4)
    judge(case, m, 4, True, what="order")


SCENARIOS = dict(placement=placement, directed=directed, single=single, uniformity=uniformity, order=order, large=large)
