"""C15: lidar phase classification."""
import numpy as np
import xarray as xr

from emc2.simulator.classification import lidar_classify_phase
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta, calc_LDR_and_ext
from .. import world, common, ref

PROPERTY = "C15"
RULE = ("masks recomputed cell by cell from depolarisation, backscatter and optical depth: installed hostile fields "
        "(missing values, zero backscatter, values on and beyond the ends of the threshold lines, exactly on a "
        "threshold node, optical depth exactly at the limit), default and random user thresholds in any class "
        "numbering, and fields from real lidar runs")
REQUIRED = {"mask": 20000, "legend": 100, "reject": 4, "inputs-untouched": 200}


def preload(tier):
    for r in world.LIDARS:
        world._instrument(r)


def plan(tier):
    n = 60 if tier == "quick" else 900
    return [("installed", 2 * n), ("operator", n), ("reject", 6)]


FIELDS = {"": ("sub_col_LDR_tot", "sub_col_OD_tot", "sub_col_beta_p_tot"),
          "strat": ("sub_col_LDR_strat", "sub_col_OD_tot_strat", "sub_col_beta_p_tot_strat"),
          "conv": ("sub_col_LDR_conv", "sub_col_OD_tot_conv", "sub_col_beta_p_tot_conv")}


def interp_log(ldr, thr):
    """Independent piecewise-linear interpolation of log10 threshold against depolarisation, flat beyond the ends."""
    x, y = np.asarray(thr["LDR"], float), np.log10(np.asarray(thr["beta_p"], float))
    k = np.clip(np.searchsorted(x, ldr, side="right") - 1, 0, len(x) - 2)
    w = (ldr - x[k]) / (x[k + 1] - x[k])
    v = y[k] + w * (y[k + 1] - y[k])
    v = np.where(ldr <= x[0], y[0], np.where(ldr >= x[-1], y[-1], v))
    return np.where(np.isnan(ldr), np.nan, v)


def judge(case, m, inst, thr, nan, remove, what):
    i = inst.instrument_str
    for key in (["", "strat", "conv"] if m.process_conv else [""]):
        name = f"phase_mask_{i}_all_hyd" if key == "" else f"{key}_phase_mask_{i}"
        ldr, od, beta = (common.sub(case, m, f) for f in FIELDS[key])
        e = np.zeros(ldr.shape)
        sure = np.ones(ldr.shape, bool)
        lb = np.where(beta > 0, np.log10(np.where(beta > 0, beta, 1)), np.nan)
        for t in thr:
            line = interp_log(ldr, t)
            d = lb - line
            e = np.where(d >= 0, t["class_ind"], e)
            node = np.isin(ldr, t["LDR"]) & (d == 0)
            sure &= ~((np.abs(d) < 1e-9) & ~node)
        if remove:
            e = np.where(od > inst.ext_OD, 0, e)
        for v in np.unique(e):
            case.state("class", int(v), key or "all", len(thr), "remove" if remove else "keep")
        if nan:
            e = np.where(e == 0, np.nan, e)
        case.equal("mask", common.sub(case, m, name), e, where=sure if not sure.all() else None, what=f"{what} {name}")
        leg = list(m.ds[name].attrs.get("legend", []))
        case.check(len(leg) >= len(thr) and all(leg[t["class_ind"] - 1] == t["class"] for t in thr), "legend",
                   f"{what} {name}: legend {leg} does not name the classes")


def thresholds(rng, inst):
    if rng.uniform() < 0.3 and inst.beta_p_phase_thresh:
        return None, inst.beta_p_phase_thresh
    n = int(rng.integers(1, 6))
    ind = rng.permutation(n) + 1
    out, base = [], -8.
    for k in range(n):
        L = int(rng.integers(2, 6))
        ldr = np.sort(rng.choice(np.round(np.linspace(0, 1, 21), 3), L, replace=False))
        base += float(rng.uniform(0.2, 1.5))
        b = 10. ** (base + np.sort(rng.uniform(-0.3, 0.3, L)) if rng.integers(0, 2) else base + rng.uniform(-1, 1, L))
        out.append({"class": f"kind{k}", "class_ind": int(ind[k]), "LDR": [float(x) for x in ldr],
                    "beta_p": [float(x) for x in b]})
    return out, out


def installed(case):
    rng = case.rng
    N, T, H = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 12))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, "ModelE", N, T, H, process_conv=bool(rng.integers(0, 2)))
    inst = world.instrument(common.pick(rng, [x for x in world.LIDARS]))
    inst.ext_OD = float(common.pick(rng, [4., rng.uniform(0.5, 6)]))
    arg, thr = thresholds(rng, inst)
    if arg is None and not inst.beta_p_phase_thresh:
        arg = thr = thresholds(np.random.default_rng(1), inst)[1]
    dims = ("subcolumn",) + m.ds["tair"].dims
    nodes = [(x, b) for t in thr for x, b in zip(t["LDR"], t["beta_p"])]
    for key in ("", "strat", "conv"):
        fl, fo, fb = FIELDS[key]
        s = (N, T, H)
        ldr, beta = rng.uniform(-0.05, 1.1, s), 10 ** rng.uniform(-9, -2, s)
        pick = rng.integers(0, len(nodes), s)
        on = rng.uniform(size=s) < 0.25
        ldr = np.where(on, np.array([x for x, _ in nodes])[pick], ldr)
        beta = np.where(on, np.array([b for _, b in nodes])[pick], beta)
        near = rng.uniform(size=s) < 0.1
        beta = np.where(near, beta * (1 + rng.choice([-1e-3, 1e-3], size=s)), beta)
        u = rng.uniform(size=s)
        ldr = np.where(u < 0.08, np.nan, ldr)
        beta = np.select([u < 0.04, (u > 0.08) & (u < 0.14), (u > 0.14) & (u < 0.17)], [0., 0., np.nan], beta)
        v = rng.uniform(size=s)
        od = np.select([v < 0.15, v < 0.25, v < 0.35], [inst.ext_OD, np.nextafter(inst.ext_OD, 100), 0.],
                       rng.uniform(0, 2 * inst.ext_OD, s))
        for n, a in ((fl, ldr), (fo, od), (fb, beta)):
            m.ds[n] = xr.DataArray(a, dims=dims)
    before = common.snapshot(m.ds)
    nan, remove = bool(rng.integers(0, 2)), bool(rng.uniform() < 0.7)
    m = lidar_classify_phase(inst, m, beta_p_phase_thresh=arg, convert_zeros_to_nan=nan, remove_sub_detect=remove)
    judge(case, m, inst, thr, nan, remove, f"{inst.instrument_str} user={arg is not None} remove={remove}")
    common.inputs_untouched(case, before, m.ds, "lidar classification")
    case.info = dict(instrument=inst.instrument_str, N=N, T=T, H=H, thresholds=len(thr), user=arg is not None)


def operator(case):
    rng = case.rng
    fam = common.pick(rng, ["ModelE", "CESM", "DHARMA", "WRF", "Multi"])
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 4)), int(rng.integers(3, 12))
    N, T, H = common.stretch(case, N, T, H)
    m = world.put_subcolumns(world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)),
                                              re_nan=bool(rng.integers(0, 2))), rng, N)
    inst = world.instrument(common.pick(rng, [x for x in world.LIDARS if world._instrument(x).beta_p_phase_thresh]))
    sfc = bool(rng.integers(0, 2))
    mode = ["bulk", "emp"][case.index % 2]
    for c in (["strat", "conv"] if m.process_conv else ["strat"]):
        m = calc_lidar_moments(inst, m, c == "conv", OD_from_sfc=sfc, parallel=False, use_empiric_calc=mode == "emp")
    m = calc_total_alpha_beta(m, OD_from_sfc=sfc)
    m = calc_LDR_and_ext(m, OD_from_sfc=sfc)
    nan = bool(rng.integers(0, 2))
    m = lidar_classify_phase(inst, m, convert_zeros_to_nan=nan)
    judge(case, m, inst, inst.beta_p_phase_thresh, nan, True, f"{fam} {inst.instrument_str} {mode}")
    case.info = dict(family=fam, instrument=inst.instrument_str, mode=mode, sfc=sfc)


def reject(case):
    m = world.make_model(case.rng, "ModelE", 4, 2, 4)
    if case.index % 2:
        inst = world.instrument(common.pick(case.rng, world.RADARS))
        case.raises("reject", ValueError, lidar_classify_phase, inst, m)
    else:
        inst = world.instrument("HSRL")
        inst.beta_p_phase_thresh = [] if case.index % 4 else None
        case.raises("reject", ValueError, lidar_classify_phase, inst, m)


SCENARIOS = dict(installed=installed, operator=operator, reject=reject)
