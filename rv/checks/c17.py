"""C17: frequency and mass phase ratios."""
import numpy as np
import xarray as xr

from emc2.simulator.classification import calculate_phase_ratio
from .. import world, common

PROPERTY = "C17"
RULE = ("counts and masses recomputed per cell with explicit loops over subcolumns: random masks (0..5, stored as "
        "uint8, int or float with NaN for empty cells, including all-empty cells), scalar / list / default class "
        "selections in any order, finalised (NaN for zero) and plain water fields, selected hydrometeor classes, every "
        "model family, with and without convection; the mask is never modified")
REQUIRED = {"fpr": 5000, "mpr": 5000, "mpr_sum": 2000, "mpr_q": 1000, "inputs-untouched": 400}
LIQ = ("cl", "pl")


def plan(tier):
    n = 100 if tier == "quick" else 2000
    return [("ratios", 3 * n)]


def ratio(a, b):
    with np.errstate(all="ignore"):
        return np.where(b > 0, a / np.where(b > 0, b, 1), np.nan)


def ratios(case):
    rng = case.rng
    fam = common.pick(rng, list(world.FAMILIES)[:-1])
    N, T, H = int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(2, 12))
    N, T, H = common.stretch(case, N, T, H)
    m = world.put_subcolumns(world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2))), rng, N,
                             cover=float(rng.uniform(0.1, 0.8)))
    K = int(rng.integers(1, 6))
    v = np.where(rng.uniform(size=(N, T, H)) < rng.uniform(0, 0.9), 0, rng.integers(0, K + 1, size=(N, T, H)))
    if rng.uniform() < 0.1:
        v[:] = 0
    kind = common.pick(rng, ["uint8", "int64", "float64", "nan"])
    arr = v.astype("float64" if kind == "nan" else kind)
    if kind == "nan":
        arr = np.where(v == 0, np.nan, arr)
    m.ds["somemask"] = xr.DataArray(arr, dims=("subcolumn",) + m.ds["tair"].dims)
    if rng.uniform() < 0.4:        # finalised water fields
        for k in list(m.ds):
            if "q_subcolumns" in k:
                m.ds[k] = m.ds[k].where(m.ds[k] != 0)
        case.state("finalised")
    hy = None
    if rng.uniform() < 0.4:
        hy = [str(h) for h in rng.choice(m.hyd_types, int(rng.integers(1, len(m.hyd_types) + 1)), replace=False)]
    use = hy or m.hyd_types
    before = common.snapshot(m.ds)
    # -- frequency
    num = [int(x) for x in rng.choice(np.arange(1, K + 1), int(rng.integers(1, K + 1)), replace=False)]
    den = None
    if rng.uniform() < 0.5:
        den = sorted(set(num) | {int(x) for x in rng.integers(1, K + 2, 2)}) if rng.uniform() < 0.6 else \
            [int(x) for x in rng.choice(np.arange(1, K + 1), int(rng.integers(1, K + 1)), replace=False)]
        if rng.uniform() < 0.2:
            den = den[0]
    narg = num[0] if rng.uniform() < 0.3 else num
    nset = {narg} if np.isscalar(narg) else set(narg)
    dset = set(range(1, K + 1)) if den is None else ({den} if np.isscalar(den) else set(den))
    m = calculate_phase_ratio(m, "somemask", narg, den, hyd_types=hy)
    a, b = np.zeros((T, H)), np.zeros((T, H))
    for i in range(N):
        a += np.vectorize(lambda x: x in nset)(v[i])
        b += np.vectorize(lambda x: x in dset)(v[i])
    e = ratio(a, b)
    got = common.fld(m, "somemask_fpr")
    case.equal("fpr", got, e, what=f"fpr {narg}/{den} of {kind} mask")
    if nset <= dset:
        case.check(np.all((got >= 0) & (got <= 1) | np.isnan(got)), "fpr-range", "phase ratio outside [0, 1]")
    case.state("fpr", kind, "scalar" if np.isscalar(narg) else len(nset), "all" if den is None else len(dset))
    # -- mass, from subcolumns
    m = calculate_phase_ratio(m, "somemask", narg, mass_pr=True, mpr_subcolmod=True, hyd_types=hy)
    ml, mi = np.zeros((N, T, H)), np.zeros((N, T, H))
    for c in (["strat", "conv"] if m.process_conv else ["strat"]):
        for h in use:
            q = np.where(v > 0, np.nan_to_num(before[f"{c}_q_subcolumns_{h}"][1]), 0.)
            if h in LIQ:
                ml = ml + q
            else:
                mi = mi + q
    case.equal("mpr", common.sub(case, m, "somemask_mpr"), ratio(ml, ml + mi), rtol=1e-9, what=f"mpr of {use}")
    case.equal("mpr_sum", common.fld(m, "somemask_mpr_sum"), ratio(ml.sum(0), ml.sum(0) + mi.sum(0)), rtol=1e-9,
               what=f"mpr_sum of {use}")
    # -- mass, from the model's own fields
    m = calculate_phase_ratio(m, "somemask", narg, mass_pr=True, hyd_types=hy)
    ql = sum((before[m.q_names_stratiform[h]][1] for h in use if h in LIQ), np.zeros((T, H)))
    qi = sum((before[m.q_names_stratiform[h]][1] for h in use if h not in LIQ), np.zeros((T, H)))
    case.equal("mpr_q", common.fld(m, "mpr_q"), ratio(ql, ql + qi), rtol=1e-9, what=f"mpr_q of {use}")
    case.equal("fpr", common.fld(m, "somemask_fpr"), e, what="fpr after the mass ratios")
    common.inputs_untouched(case, before, m.ds, "phase ratio")
    case.info = dict(family=fam, N=N, T=T, H=H, mask=kind, classes=K, hyd_types=str(hy))


SCENARIOS = dict(ratios=ratios)
