"""C06: bulk (radiation-logic) radar reflectivity."""
import numpy as np

from emc2.simulator.radar_moments import calc_radar_moments
from .. import world, common, ref

PROPERTY = "C06"
RULE = ("model family (ModelE, CESM with/without fluffiness, DHARMA, many-ice-class, WRF, P3 hybrid 0/1/2) x radar x "
        "stratiform/convective x Mie/non-Mie ice x class subset and order x NaN effective radii x storage units; "
        "every subcolumn cell compared with the reference")
REQUIRED = {"ze-class": 20000, "ze-total": 5000, "hyd-transmittance": 5000, "no-infinity": 5000,
            "inputs-untouched": 200}
FAMS = ["ModelE", "CESM", "CESMnofl", "DHARMA", "Multi", "WRF", "P3"]


def preload(tier):
    for r in world.RADARS:
        world._instrument(r)


def plan(tier):
    n = 112 if tier == "quick" else 700
    return [("forward", n), ("generated", n // 4), ("reject", 4)]


def setup(case, fam=None, radar=None):
    rng = case.rng
    fam = fam or FAMS[case.index % len(FAMS)]
    inst = world.instrument(radar or common.pick(rng, world.RADARS))
    N, T, H = int(rng.integers(2, 9)), int(rng.integers(1, 5)), int(rng.integers(3, 12))
    N, T, H = common.stretch(case, N, T, H)
    conv = fam != "P3" and bool(rng.integers(0, 2))
    hybrid = int(rng.integers(0, 3))
    m = world.make_model(rng, fam, N, T, H, process_conv=conv, re_nan=bool(rng.integers(0, 2)) and fam != "P3",
                         p_units=common.pick(rng, ["hPa", "Pa"]), t_units=common.pick(rng, ["K", "degC"]),
                         z_units=common.pick(rng, ["m", "km"]), hybrid=hybrid, lut_inst=inst.instrument_str
                         if inst.instrument_str in world.INSTRUMENTS else "KAZR")
    return rng, fam, inst, N, T, H, conv, hybrid, m


def judge(case, m, inst, cloud, hyds, mie, from_sfc, what):
    r = ref.bulk(m, inst, cloud, hyds, mie)
    f = ref.radar_factor(inst)
    tot = 0
    for h in hyds:
        got = common.sub(case, m, f"sub_col_Ze_{h}_{cloud}")
        case.equal("ze-class", got, ref.db(r[h][0] * f), rtol=1e-7, atol=1e-7, what=f"{what} Ze {h}")
        tot = tot + r[h][0] * f
        case.see("no-infinity", got.size)
        if np.isinf(got).any():
            case.fail("no-infinity", f"{what}: infinite reflectivity {h}")
        case.state(m.rad_scheme_family, h, inst.instrument_str, "mie", mie, cloud)
    case.equal("ze-total", common.sub(case, m, f"sub_col_Ze_tot_{cloud}"), ref.db(tot), rtol=1e-7, atol=1e-7,
               what=f"{what} Ze total")
    _, _, z = ref.units(m)
    ext = sum(r[h][1] for h in hyds)
    tr = np.exp(-2 * ref.path_sum(z[None], ext, from_sfc))
    case.equal("hyd-transmittance", common.sub(case, m, f"hyd_ext_{cloud}"), tr, rtol=1e-8, atol=1e-300,
               what=f"{what} hydrometeor transmittance")


def forward(case):
    rng, fam, inst, N, T, H, conv, hybrid, m = setup(case)
    m = world.put_subcolumns(m, rng, N, top=True)
    hyds = list(rng.permutation(m.hyd_types))
    if rng.uniform() < 0.3:
        hyds = hyds[: max(1, len(hyds) - 1)]
    arg = None if (len(hyds) == len(m.hyd_types) and rng.uniform() < 0.5) else hyds
    before = common.snapshot(m.ds)
    hist = common.other_first(case, m, inst)
    for cloud in (["strat", "conv"] if conv else ["strat"]):
        mie = bool(rng.integers(0, 2))
        sfc = bool(rng.integers(0, 2))
        rad = True if cloud == "strat" else bool(rng.integers(0, 2))   # convection always uses bulk tables
        m = calc_radar_moments(inst, m, cloud == "conv", OD_from_sfc=sfc, hyd_types=arg, mie_for_ice=mie,
                               use_rad_logic=rad, parallel=bool(rng.integers(0, 2)))
        judge(case, m, inst, cloud, hyds, mie, sfc, f"{fam} {inst.instrument_str} {cloud} mie={mie} hyb={hybrid}")
    common.inputs_untouched(case, before, m.ds, "bulk radar")
    case.info = dict(family=fam, instrument=inst.instrument_str, N=N, T=T, H=H, hyds=list(hyds), hybrid=hybrid, history=hist)


def generated(case):
    """Through the subcolumn generator instead of synthetic occupancy."""
    from emc2.simulator.main import make_simulated_data
    rng, fam, inst, N, T, H, conv, hybrid, m = setup(case, fam=["ModelE", "CESM", "DHARMA", "P3"][case.index % 4])
    if fam == "P3":   # driver runs the microphysics number too; keep P3 pieces consistent
        m.process_conv = False
    m = make_simulated_data(m, inst, N, use_rad_logic=True, parallel=False)
    hyds = m.hyd_types
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        judge(case, m, inst, cloud, hyds, False, inst.OD_from_sfc if hasattr(inst, "OD_from_sfc") else True,
              f"{fam} driver {cloud}")
    case.info = dict(family=fam, instrument=inst.instrument_str, N=N, T=T, H=H)


def reject(case):
    rng = case.rng
    m = world.make_model(rng, "ModelE", 4, 2, 4, process_conv=True)
    case.raises("reject", KeyError, calc_radar_moments, world.instrument("KAZR"), m, bool(case.index % 2))
    m = world.put_subcolumns(m, rng, 4)
    case.raises("reject", ValueError, calc_radar_moments, world.instrument("HSRL"), m, bool(case.index % 2))
    m.rad_scheme_family = "nonsense"
    case.raises("reject", (ValueError, UnboundLocalError), calc_radar_moments, world.instrument("KAZR"), m, False)


SCENARIOS = dict(forward=forward, generated=generated, reject=reject)
