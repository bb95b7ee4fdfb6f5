"""C14: radar-sounding phase classification."""
import numpy as np
import xarray as xr

from emc2.simulator.attenuation import calc_radar_Ze_min
from emc2.simulator.classification import radar_classify_phase
from emc2.simulator.radar_moments import calc_radar_moments, calc_total_reflectivity
from .. import world, common, ref

PROPERTY = "C14"
RULE = ("masks recomputed cell by cell from presence, attenuated reflectivity and minimum detectable signal, for "
        "installed hostile fields (missing, exactly at and one ulp around the threshold, infinite) and for fields from "
        "real bulk / empirical / microphysics runs; random height ranges, storage units, zero conversion, radars, "
        "with and without convection; a case counts as non-trivial when all four classes occur in it")
REQUIRED = {"mask": 20000, "inputs-untouched": 200, "reject": 4}


def preload(tier):
    for r in world.RADARS:
        world._instrument(r)


def plan(tier):
    n = 60 if tier == "quick" else 900
    return [("installed", 2 * n), ("operator", n), ("history", n // 3), ("reject", 4)]


def names(m, inst):
    i = inst.instrument_str
    out = [(f"phase_mask_{i}_sounding_all_hyd", "")]
    if m.process_conv:
        out += [(f"strat_phase_mask_{i}_sounding", "_strat"), (f"conv_phase_mask_{i}_sounding", "_conv")]
    return out


def judge(case, m, inst, hrng, to_nan, what, only=None):
    z = common.fld(m, m.z_field)
    zmin = common.fld(m, "Ze_min")[None]
    inside = np.ones(z.shape, bool) if hrng is None else (z >= hrng[0]) & (z <= hrng[1])
    pres = {"_" + c: common.sub(case, m, f"{c}_frac_subcolumns_cl") > 0
            for c in (["strat", "conv"] if m.process_conv else ["strat"])}
    pres[""] = np.any(list(pres.values()), axis=0)
    for name, key in names(m, inst):
        sig = common.sub(case, m, "sub_col_Ze_att_tot" + key) >= zmin
        cld = pres[key]
        e = np.zeros(sig.shape)
        e[cld & ~sig], e[cld & sig], e[sig & ~cld] = 1, 2, 3
        e[np.broadcast_to(~inside[None], e.shape)] = 0
        for v in range(4):
            if (e == v).any():
                case.state("class", v, key or "_all", "conv" if m.process_conv else "noconv")
        if to_nan:
            e = np.where(e == 0, np.nan, e)
        case.equal("mask", common.sub(case, m, name), e, what=f"{what} {name}")
        case.check(list(m.ds[name].attrs.get("legend", [])) == ["Cloud", "Mixed", "Precip"], "legend",
                   f"{what} {name}: legend does not name classes 1, 2, 3 as cloud, mixed and precipitation")


def hrange(rng, m):
    z = m.ds[m.z_field].values
    k = int(rng.integers(0, 6))
    if k < 2:
        return None
    a, b = np.sort(rng.choice(z.ravel(), 2))
    if k == 2:                                   # bounds exactly on grid heights
        return (float(a), float(b))
    if k == 3:
        return [float(rng.uniform(z.min(), z.max())), float(z.max())]
    if k == 4:
        return (0., float(rng.uniform(0, z.min())))
    return (float(rng.uniform(z.min(), a)), float(rng.uniform(a, z.max())))


def installed(case):
    rng = case.rng
    N, T, H = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 12))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, common.pick(rng, ["ModelE", "WRF", "CESM"]), N, T, H,
                         process_conv=bool(rng.integers(0, 2)), z_units=common.pick(rng, ["m", "km"]))
    m = world.put_subcolumns(m, rng, N, cover=float(rng.uniform(0.1, 0.9)))
    inst = world.instrument(common.pick(rng, world.RADARS))
    dims = ("subcolumn",) + m.ds["tair"].dims
    zmin = rng.uniform(-60, -10, size=(T, H))
    m.ds["Ze_min"] = xr.DataArray(zmin, dims=m.ds["tair"].dims)
    for k in (["_strat", "_conv", ""] if m.process_conv else ["_strat", ""]):
        u = rng.integers(0, 7, size=(N, T, H))
        zb = np.broadcast_to(zmin[None], u.shape)
        ze = np.select([u == 0, u == 1, u == 2, u == 3, u == 4], [np.nan, zb, np.nextafter(zb, -1e3),
                       np.nextafter(zb, 1e3), zb + 30.], zb + rng.normal(0, 10, size=u.shape))
        m.ds["sub_col_Ze_att_tot" + k] = xr.DataArray(ze, dims=dims)
    if rng.uniform() < 0.3:                      # single-subcolumn runs store presence as 0./1. floats
        for c in (["strat", "conv"] if m.process_conv else ["strat"]):
            m.ds[f"{c}_frac_subcolumns_cl"] = m.ds[f"{c}_frac_subcolumns_cl"].astype(float)
    before = common.snapshot(m.ds)
    hr, nan = hrange(rng, m), bool(rng.integers(0, 2))
    m = radar_classify_phase(inst, m, mask_height_rng=hr, convert_zeros_to_nan=nan)
    judge(case, m, inst, hr, nan, f"{inst.instrument_str} range={hr}")
    common.inputs_untouched(case, before, m.ds, "radar classification")
    case.info = dict(instrument=inst.instrument_str, N=N, T=T, H=H, conv=m.process_conv, height_range=str(hr), nan=nan)


def run(rng, m, inst, mode):
    micro = mode == "micro"
    i = world.coarsen(inst, 12) if micro else inst
    for c in (["strat", "conv"] if m.process_conv else ["strat"]):
        m = calc_radar_moments(i, m, c == "conv", OD_from_sfc=bool(rng.integers(0, 2)), parallel=False,
                               use_rad_logic=not micro, use_empiric_calc=mode == "emp")
    m = calc_radar_Ze_min(inst, m)
    return calc_total_reflectivity(m, detect_mask=True)


def operator(case):
    rng = case.rng
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 4)), int(rng.integers(3, 12))
    N, T, H = common.stretch(case, N, T, H)
    fam = common.pick(rng, ["ModelE", "CESM", "DHARMA", "WRF", "Multi"])
    m = world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)),
                         z_units=common.pick(rng, ["m", "km"]), p_units=common.pick(rng, ["hPa", "Pa"]))
    m = world.put_subcolumns(m, rng, N)
    inst = world.instrument(common.pick(rng, world.RADARS))
    inst.Z_min_1km = float(inst.Z_min_1km + rng.uniform(0, 50))     # a less sensitive radar: some cells undetected
    mode = ["bulk", "emp", "micro"][case.index % 3]
    m = run(rng, m, inst, mode)
    hr, nan = hrange(rng, m), bool(rng.integers(0, 2))
    m = radar_classify_phase(inst, m, mask_height_rng=hr, convert_zeros_to_nan=nan)
    judge(case, m, inst, hr, nan, f"{fam} {inst.instrument_str} {mode} range={hr}")
    det = common.sub(case, m, "detect_mask").astype(bool)
    ze = common.sub(case, m, "sub_col_Ze_att_tot")
    z0 = np.broadcast_to(common.fld(m, "Ze_min")[None], ze.shape)
    ok = ~(np.abs(ze - z0) < 1e-12)
    case.equal("detect-mask-consistent", det, z0 >= ze, where=ok, what="detectability mask against reflectivity")
    case.info = dict(family=fam, instrument=inst.instrument_str, mode=mode, N=N, T=T, H=H)


def history(case):
    """Two radars classified on one model, and one radar classified again with other options."""
    rng = case.rng
    m = world.make_model(rng, "ModelE", 5, 2, 8, process_conv=bool(rng.integers(0, 2)))
    m = world.put_subcolumns(m, rng, 5)
    a, b = (world.instrument(r) for r in rng.choice(world.RADARS, 2, replace=False))
    m = run(rng, m, a, "bulk")
    m = radar_classify_phase(a, m, convert_zeros_to_nan=bool(rng.integers(0, 2)))
    first = {n: common.sub(case, m, n).copy() for n, _ in names(m, a)}
    m = run(rng, m, b, "emp")
    hr = hrange(rng, m)
    m = radar_classify_phase(b, m, mask_height_rng=hr)
    judge(case, m, b, hr, False, f"{b.instrument_str} after {a.instrument_str}")
    if a.instrument_str != b.instrument_str:
        for n, v in first.items():
            case.equal("mask", common.sub(case, m, n), v, what=f"{n} after classifying another radar")
    m = radar_classify_phase(b, m)
    judge(case, m, b, None, False, f"{b.instrument_str} again without height range")


def reject(case):
    m = world.put_subcolumns(world.make_model(case.rng, "ModelE", 4, 2, 4), case.rng, 4)
    case.raises("reject", ValueError, radar_classify_phase, world.instrument(world.LIDARS[case.index % 4]), m)


SCENARIOS = dict(installed=installed, operator=operator, history=history, reject=reject)
