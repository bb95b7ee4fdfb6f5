"""C11: molecular scattering and transmittance."""
import numpy as np

from emc2.simulator.attenuation import calc_theory_beta_m
from .. import world, common, ref

PROPERTY = "C11"
RULE = ("random soundings (incl. very high tops) in every storage unit x wavelengths 0.3-2.5 um and every lidar x both "
        "geometries, called directly and through the lidar operator; every field recomputed in SI")
REQUIRED = {"molecular": 20000, "boundary": 100, "monotone": 500, "through-operator": 1000, "column-local": 200}


def preload(tier):
    for r in world.LIDARS:
        world._instrument(r)


def plan(tier):
    n = 48 if tier == "quick" else 800
    return [("theory", n), ("operator", n // 2)]


def mk(rng, T, H, conv=False):
    m = world.make_model(rng, "ModelE", 4, T, H, process_conv=conv, single=False, t_units=common.pick(rng, ["K", "degC"]),
                         z_units=common.pick(rng, ["m", "km"]), p_units=common.pick(rng, ["hPa", "Pa"]))
    return m


def judge(case, m, lam, sfc, what, mon="molecular"):
    r = ref.molecular(m, lam, sfc)
    for n, e in r.items():
        got = common.fld(m, n)
        case.equal(mon, got - 1 if n == "n_s" else got, e - 1 if n == "n_s" else e, rtol=1e-7 if n != "n_s" else 1e-9,
                   atol=1e-300 if n not in ("u_atm", "n_s") else 1e-15, what=f"{what} {n}")
    tau = common.fld(m, "tau")
    edge = tau[:, 0 if sfc else -1]
    case.check((edge == 1).all(), "boundary", f"{what}: transmittance at the instrument side is {edge}")
    d = np.diff(tau, axis=1)
    case.check(((d if sfc else -d) <= 0).all() and (tau > 0).all(), "monotone",
               f"{what}: transmittance increases away from the instrument")
    case.see("boundary", edge.size - 1)
    case.see("monotone", d.size - 1)


def theory(case):
    rng = case.rng
    T, H = int(rng.integers(1, 6)), int(rng.integers(2, 40))
    _, T, H = common.stretch(case, 1, T, H)
    m = mk(rng, T, H)
    lam = float(rng.choice([0.355, 0.532, 0.91, 1.064, rng.uniform(0.3, 2.5)]))
    sfc = bool(rng.integers(0, 2))
    before = common.snapshot(m.ds)
    alone = world.clone(m)
    k = int(rng.integers(0, T))
    if sfc and rng.uniform() < 0.5:
        m = calc_theory_beta_m(m, lam)
    else:
        m = calc_theory_beta_m(m, lam, OD_from_sfc=sfc)
    judge(case, m, lam, sfc, f"lambda={lam:.4g} sfc={sfc} p={m.ds.pres.units} t={m.ds.tair.units} z={m.ds.zhgt.units}")
    alone.ds = alone.ds.isel({alone.time_dim: [k]})
    alone = calc_theory_beta_m(alone, lam, OD_from_sfc=sfc)
    for n in ("tau", "sigma_180_vol", "beta"):
        case.equal("column-local", common.fld(alone, n)[0], common.fld(m, n)[k], rtol=1e-12, what=f"{n} alone")
    common.inputs_untouched(case, before, m.ds, "molecular")
    case.state(m.ds.pres.units, m.ds.tair.units, m.ds.zhgt.units, sfc, round(lam, 1))


def operator(case):
    """The lidar operator uses the instrument's wavelength and the requested geometry."""
    from emc2.simulator.lidar_moments import calc_lidar_moments
    rng = case.rng
    T, H, N = int(rng.integers(1, 4)), int(rng.integers(3, 12)), 3
    N, T, H = common.stretch(case, N, T, H)
    m = mk(rng, T, H, True)
    m = world.put_subcolumns(m, rng, N)
    inst = world.instrument(common.pick(rng, world.LIDARS))
    sfc = bool(rng.integers(0, 2))
    m = calc_lidar_moments(inst, m, bool(rng.integers(0, 2)), OD_from_sfc=sfc, parallel=False,
                           use_empiric_calc=bool(rng.integers(0, 2)))
    wl = dict(HSRL=.532, CEIL=.910, RL=.355, CALIOP=.532, Ten64nm=1.064)
    name = next(k for k in world.LIDARS if world._instrument(k).wavelength == inst.wavelength
                and world._instrument(k).instrument_str == inst.instrument_str)
    case.equal("wavelength", inst.wavelength, wl[name], rtol=1e-9, what=name)
    judge(case, m, wl[name], sfc, f"operator {name} sfc={sfc}", mon="through-operator")
    case.state("operator", name, sfc)


SCENARIOS = dict(theory=theory, operator=operator)
