"""C09: radar path attenuation, totals, minimum detectable signal, detection mask."""
import numpy as np
import xarray as xr

from emc2.simulator.radar_moments import calc_radar_moments, calc_total_reflectivity, accumulate_attenuation
from emc2.simulator.attenuation import calc_radar_atm_attenuation, calc_radar_Ze_min
from .. import world, common, ref

PROPERTY = "C09"
RULE = ("gaseous attenuation over random soundings in every storage unit; transmittances and totals after bulk, "
        "empirical and microphysics runs, both geometries, with and without convection; direct hostile extinction "
        "profiles; totals from hand-installed reflectivity with missing cells")
REQUIRED = {"gas": 3000, "atm-transmittance": 1000, "ze-att-cloud": 2000, "ze-total": 3000, "ze-att-total": 3000,
            "ze-min": 500, "detect-mask": 3000, "transmittance-range": 5000, "direct-transmittance": 2000}


def preload(tier):
    for r in world.RADARS:
        world._instrument(r)


def plan(tier):
    n = 32 if tier == "quick" else 500
    return [("gas", n), ("totals", n * 3 // 2), ("direct", n), ("installed", n), ("reject", 2)]


UN = dict(p=["hPa", "Pa", "kPa"], t=["K", "degC"], z=["m", "km"])


def mk(rng, fam, N, T, H, conv):
    pu, tu, zu = common.pick(rng, UN["p"]), common.pick(rng, UN["t"]), common.pick(rng, UN["z"])
    m = world.make_model(rng, fam, N, T, H, process_conv=conv, t_units=tu, z_units=zu)
    if pu != "hPa":
        m.ds["pres"] = m.ds["pres"] * {"Pa": 100., "kPa": 0.1}[pu]
        m.ds["pres"].attrs["units"] = pu
    return m, (pu, tu, zu)


def gas(case):
    rng = case.rng
    T, H = int(rng.integers(1, 6)), int(rng.integers(3, 40))
    _, T, H = common.stretch(case, 1, T, H)
    m, u = mk(rng, "ModelE", 4, T, H, False)
    if rng.uniform() < 0.5:     # reach the stratospheric line-width regimes
        _, _, z = ref.units(m)
        s = m.ds["pres"].attrs["units"]
        k = {"hPa": 1., "Pa": 100., "kPa": 0.1}[s]
        prof = np.exp(np.linspace(np.log(1013), np.log(rng.uniform(3, 40)), H))
        m.ds["pres"].values = np.repeat(prof[None], T, 0) * k
    inst = world.instrument(common.pick(rng, world.RADARS))
    before = common.snapshot(m.ds)
    m = calc_radar_atm_attenuation(inst, m)
    wv, o2 = ref.gas_attenuation(m, inst)
    for n, e in (("kappa_wv", wv), ("kappa_o2", o2), ("kappa_att", wv + o2)):
        case.equal("gas", common.fld(m, n), e, rtol=1e-9, what=f"{inst.instrument_str} {n} {u}")
    case.state("gas", inst.instrument_str, *u)
    rr = float(rng.choice([1000., 500., 1500., 3000.]))
    m = calc_radar_Ze_min(inst, m, rr) if rr != 1000. else calc_radar_Ze_min(inst, m)
    case.equal("ze-min", common.fld(m, "Ze_min"), ref.ze_min(m, inst, rr), rtol=1e-10, atol=1e-10,
               what=f"{inst.instrument_str} Ze_min {u}")
    common.inputs_untouched(case, before, m.ds, "gaseous attenuation")


def path_ok(case, tr, sfc, what):
    case.see("transmittance-range", tr.size)
    if not (np.isfinite(tr).all() and (tr >= 0).all() and (tr <= 1 + 1e-12).all()):
        case.fail("transmittance-range", f"{what}: transmittance outside [0, 1]")
    d = np.diff(tr, axis=-1)
    if ((d if sfc else -d) > 1e-12).any():
        case.fail("transmittance-range", f"{what}: transmittance increases away from the radar")
    edge = tr[..., 0 if sfc else -1]
    if not np.allclose(edge, 1.):
        case.fail("transmittance-range", f"{what}: transmittance at the radar is {edge.ravel()[0]}, not 1")


def lin(x):
    return np.where(np.isfinite(x), 10 ** (x / 10), 0.)


def judge_total(case, m, what):
    zs = common.sub(case, m, "sub_col_Ze_tot_strat")
    tot, att = lin(zs), np.nan_to_num(common.fld(m, "atm_ext"), nan=1.)[None]
    att = att * np.nan_to_num(common.sub(case, m, "hyd_ext_strat"), nan=1.)
    if m.process_conv:
        tot = tot + lin(common.sub(case, m, "sub_col_Ze_tot_conv"))
        att = att * np.nan_to_num(common.sub(case, m, "hyd_ext_conv"), nan=1.)
    case.equal("ze-total", common.sub(case, m, "sub_col_Ze_tot"), ref.db(tot), rtol=1e-10, atol=1e-9,
               what=what + " Ze_tot")
    got = common.sub(case, m, "sub_col_Ze_att_tot")
    case.equal("ze-att-total", got, ref.db(tot * att), rtol=1e-10, atol=1e-9, what=what + " Ze_att_tot")
    zm = common.fld(m, "Ze_min")[None]
    e = ref.db(tot * att)
    clear = ~(np.abs(zm - e) < 1e-6)
    mask = common.sub(case, m, "detect_mask").astype(float)
    case.equal("detect-mask", mask, (zm >= e).astype(float), where=clear, what=what + " detect_mask")
    for v in (0, 1):
        if (mask == v).any():
            case.state("mask", v, "conv" if m.process_conv else "strat")


def totals(case):
    rng = case.rng
    fam = ["ModelE", "CESM", "DHARMA", "WRF", "P3", "Multi"][case.index % 6]
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 5)), int(rng.integers(3, 14))
    N, T, H = common.stretch(case, N, T, H)
    m, u = mk(rng, fam, N, T, H, fam != "P3" and bool(rng.uniform() < 0.6))
    m = world.put_subcolumns(m, rng, N)
    inst = world.instrument(common.pick(rng, world.RADARS))
    sfc = bool(rng.integers(0, 2))
    mode = ["bulk", "emp", "micro"][case.index // 6 % 3]
    if mode == "emp" and fam == "P3":
        mode = "bulk"
    if mode == "micro":
        inst = world.coarsen(inst, 12)
    before = common.snapshot(m.ds)
    _, _, z = ref.units(m)
    wv, o2 = ref.gas_attenuation(m, inst)
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        m = calc_radar_moments(inst, m, cloud == "conv", OD_from_sfc=sfc, use_rad_logic=mode != "micro",
                               use_empiric_calc=mode == "emp", parallel=False)
        what = f"{fam} {inst.instrument_str} {mode} {cloud} sfc={sfc} {u}"
        ta = 10 ** (-2 * ref.path_sum(z / 1e3, wv + o2, sfc) / 10)
        case.equal("atm-transmittance", common.fld(m, "atm_ext"), ta, rtol=1e-9, what=what + " gaseous transmittance")
        th = common.sub(case, m, f"hyd_ext_{cloud}")
        path_ok(case, th, sfc, what + " hydrometeor")
        path_ok(case, common.fld(m, "atm_ext"), sfc, what + " gaseous")
        e = lin(common.sub(case, m, f"sub_col_Ze_tot_{cloud}")) * th * ta[None]
        case.equal("ze-att-cloud", common.sub(case, m, f"sub_col_Ze_att_tot_{cloud}"), ref.db(e), rtol=1e-9,
                   atol=1e-8, what=what + " Ze_att_tot")
        case.state("path", fam, mode, cloud, sfc)
    m = calc_radar_Ze_min(inst, m, 1000)
    m = calc_total_reflectivity(m, detect_mask=True)
    judge_total(case, m, f"{fam} {mode}")
    common.inputs_untouched(case, before, m.ds, "radar totals")


def direct(case):
    rng = case.rng
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 20))
    N, T, H = common.stretch(case, N, T, H)
    m, u = mk(rng, "ModelE", N, T, H, True)
    m = world.put_subcolumns(m, rng, N)
    _, _, z = ref.units(m)
    emp, sfc, conv = (bool(rng.integers(0, 2)) for _ in range(3))
    cloud = "conv" if conv else "strat"
    ext = 10 ** rng.uniform(-8, -2.5, size=(N, T, H)) * (rng.uniform(size=(N, T, H)) < 0.6)
    if emp:
        ext = ext * 1e4
    atm = 10 ** rng.uniform(-4, 0.5, size=(T, H))
    m.ds[f"sub_col_Ze_tot_{cloud}"] = (("subcolumn",) + m.ds["tair"].dims, np.zeros((N, T, H)))
    e0, a0 = ext.copy(), atm.copy()
    m = accumulate_attenuation(m, conv, z, ext, atm, OD_from_sfc=sfc, use_empiric_calc=emp)
    p = ref.path_sum(z[None] / 1e3, e0 * (1. if emp else 1e3), sfc)
    what = f"emp={emp} sfc={sfc} {cloud}"
    case.equal("direct-transmittance", common.sub(case, m, f"hyd_ext_{cloud}"),
               10 ** (-2 * p / 10) if emp else np.exp(-2 * p), rtol=1e-9, atol=1e-300, what=what + " hydrometeor")
    case.equal("direct-transmittance", common.fld(m, "atm_ext"), 10 ** (-2 * ref.path_sum(z / 1e3, a0, sfc) / 10),
               rtol=1e-9, what=what + " gaseous")
    path_ok(case, common.sub(case, m, f"hyd_ext_{cloud}"), sfc, what)
    case.check((ext == e0).all() and (atm == a0).all(), "inputs-untouched", "caller's extinction arrays were modified")
    case.state("direct", emp, sfc, conv)


def installed(case):
    """Totals from reflectivity and transmittance installed by hand, with missing and infinite cells."""
    rng = case.rng
    N, T, H = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 20))
    N, T, H = common.stretch(case, N, T, H)
    conv = bool(rng.integers(0, 2))
    m, u = mk(rng, "ModelE", N, T, H, conv)
    d3 = ("subcolumn",) + m.ds["tair"].dims
    for cloud in ("strat", "conv"):
        x = rng.uniform(common.pick(rng, [-60, -60, -160]), 30, size=(N, T, H))
        x[rng.uniform(size=x.shape) < 0.35] = np.nan
        x[rng.uniform(size=x.shape) < 0.05] = -np.inf
        m.ds[f"sub_col_Ze_tot_{cloud}"] = (d3, x)
        # optical depths far beyond anything physical, but short of where doubles lose their digits (below 1e-308)
        tr = np.exp(-np.minimum(np.cumsum(rng.uniform(0, common.pick(rng, [0.5, 0.5, 8.]), size=x.shape), axis=-1), 250.))
        tr[rng.uniform(size=x.shape) < 0.05] = np.nan
        m.ds[f"hyd_ext_{cloud}"] = (d3, tr)
    at = rng.uniform(0.3, 1, size=(T, H)) * 10. ** -common.pick(rng, [0, 0, 0, 5])
    at[rng.uniform(size=at.shape) < 0.05] = np.nan
    m.ds["atm_ext"] = (d3[1:], at)
    inst = world.instrument(common.pick(rng, world.RADARS))
    m = calc_radar_Ze_min(inst, m, float(rng.choice([1000., 2000.])))
    m = calc_total_reflectivity(m, detect_mask=True)
    judge_total(case, m, f"installed conv={conv}")


def reject(case):
    m = world.make_model(case.rng, "ModelE", 4, 2, 4)
    case.raises("reject", ValueError, calc_radar_atm_attenuation, "KAZR" if case.index else None, m)


SCENARIOS = dict(gas=gas, totals=totals, direct=direct, installed=installed, reject=reject)
