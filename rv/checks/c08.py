"""C08: empirical radar and lidar relations."""
import copy

import numpy as np

from emc2.simulator.radar_moments import calc_radar_moments
from emc2.simulator.lidar_moments import calc_lidar_moments
from .. import world, common, ref

PROPERTY = "C08"
RULE = ("model family x radar band / lidar x stratiform/convective x class subset and order x storage units; every "
        "subcolumn cell of reflectivity, extinction, backscatter and liquid attenuation is recomputed")
REQUIRED = {"ze-class": 10000, "ze-total": 3000, "liquid-transmittance": 3000, "lidar-class": 10000,
            "inputs-untouched": 200}
FAMS = ["ModelE", "CESM", "DHARMA", "Multi", "WRF"]


def preload(tier):
    for r in world.RADARS + world.LIDARS:
        world._instrument(r)


def plan(tier):
    n = 40 if tier == "quick" else 600
    return [("radar", n), ("lidar", n)]


def retuned(rng, inst):
    """Half of the radars transmit elsewhere, often right at the edge of a band of Hogan et al. (2006)."""
    if rng.uniform() < .5:
        return inst
    g = float(common.pick(rng, [2., 4., 27., 40., 75., 110.]) * (1 + common.pick(rng, [0., 1e-6, -1e-6, .02, -.02])))
    if rng.uniform() < .2:
        g = float(rng.uniform(1, 120))
    inst = copy.copy(inst)
    inst.freq, inst.wavelength = g * 1e9, 299792458. / (g * 1e9) * 1e6
    return inst


def setup(case, insts):
    rng = case.rng
    fam = FAMS[case.index % len(FAMS)]
    inst = world.instrument(insts[(case.index // len(FAMS)) % len(insts)])
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 5)), int(rng.integers(3, 12))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)),
                         p_units=common.pick(rng, ["hPa", "Pa"]), t_units=common.pick(rng, ["K", "degC"]),
                         z_units=common.pick(rng, ["m", "km"]))
    m = world.put_subcolumns(m, rng, N)
    hyds = [str(h) for h in rng.permutation(m.hyd_types)]
    if rng.uniform() < 0.3:
        hyds = hyds[: int(rng.integers(1, len(hyds) + 1))]
    case.info = dict(family=fam, instrument=inst.instrument_str, N=N, T=T, H=H, hyds=hyds)
    return rng, fam, inst, m, hyds


def radar(case):
    rng, fam, inst, m, hyds = setup(case, world.RADARS)
    inst = retuned(rng, inst)
    case.info["GHz"] = inst.freq / 1e9
    before = common.snapshot(m.ds)
    _, _, z = ref.units(m)
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        sfc = bool(rng.integers(0, 2))
        m = calc_radar_moments(inst, m, cloud == "conv", OD_from_sfc=sfc, hyd_types=hyds, use_empiric_calc=True,
                               use_rad_logic=bool(rng.integers(0, 2)), parallel=False)
        tot, lwc = 0, 0
        for h in hyds:
            e = ref.empirical_ze(m, inst, cloud, h)
            tot = tot + e
            case.equal("ze-class", common.sub(case, m, f"sub_col_Ze_{h}_{cloud}"), ref.db(e), rtol=1e-9, atol=1e-7,
                       what=f"{fam} {inst.instrument_str} {cloud} empirical Ze {h}")
            if h in ref.LIQ:
                lwc = lwc + ref.water_content(m, cloud, h) * 1e3
            case.state(inst.instrument_str, h, cloud)
        case.equal("ze-total", common.sub(case, m, f"sub_col_Ze_tot_{cloud}"), ref.db(tot), rtol=1e-9, atol=1e-7,
                   what=f"{fam} {inst.instrument_str} {cloud} empirical Ze total")
        kappa = ref.liquid_absorption(m, inst) * (lwc + np.zeros_like(e))       # dB km-1
        tr = 10 ** (-2 * ref.path_sum(z[None] / 1e3, kappa, sfc) / 10)
        case.equal("liquid-transmittance", common.sub(case, m, f"hyd_ext_{cloud}"), tr, rtol=1e-8, atol=1e-300,
                   what=f"{fam} {inst.instrument_str} {cloud} liquid transmittance")
    common.inputs_untouched(case, before, m.ds, "empirical radar")


def lidar(case):
    rng, fam, inst, m, hyds = setup(case, world.LIDARS)
    before = common.snapshot(m.ds)
    _, _, z = ref.units(m)
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        sfc = bool(rng.integers(0, 2))
        m = calc_lidar_moments(inst, m, cloud == "conv", OD_from_sfc=sfc, hyd_types=hyds, use_empiric_calc=True,
                               use_rad_logic=bool(rng.integers(0, 2)), parallel=False)
        tb = ta = 0
        for h in hyds:
            b, a = ref.empirical_lidar(m, cloud, h)
            tb, ta = tb + b, ta + a
            for v, e in (("beta_p", b), ("alpha_p", a), ("OD", ref.path_sum(z[None], a, sfc))):
                case.equal("lidar-class", common.sub(case, m, f"sub_col_{v}_{h}_{cloud}"), e, rtol=1e-9,
                           what=f"{fam} {inst.instrument_str} {cloud} empirical {v} {h}")
            case.state(inst.instrument_str, h, cloud)
        for v, e in (("beta_p", tb), ("alpha_p", ta), ("OD", ref.path_sum(z[None], ta, sfc))):
            case.equal("lidar-total", common.sub(case, m, f"sub_col_{v}_tot_{cloud}"), e, rtol=1e-9,
                       what=f"{fam} {inst.instrument_str} {cloud} empirical {v} total")
    common.inputs_untouched(case, before, m.ds, "empirical lidar")


SCENARIOS = dict(radar=radar, lidar=lidar)
