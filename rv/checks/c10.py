"""C10: lidar backscatter and extinction per class."""
import numpy as np

from emc2.simulator.lidar_moments import calc_lidar_moments
from .. import world, common, ref
from . import c07

PROPERTY = "C10"
RULE = ("model family (incl. variable-density NSSL and P3 hybrid 0/1/2) x lidar x radiation/microphysics logic x "
        "stratiform/convective x Mie/non-Mie ice x class subset and order x scheduling x repetition x units; every "
        "cell of per-class and total backscatter, extinction and optical depth is recomputed")
REQUIRED = {"bulk-class": 20000, "micro-class": 10000, "bulk-total": 5000, "micro-total": 3000, "scaling": 500,
            "inputs-untouched": 200}
FAMS = ["ModelE", "CESM", "CESMnofl", "DHARMA", "Multi", "WRF", "NSSL", "P3"]


def preload(tier):
    for r in world.LIDARS:
        world._instrument(r)


def plan(tier):
    n = 96 if tier == "quick" else 700
    return [("bulk", n), ("micro", n), ("scaling", n // 3), ("reject", 4)]


def judge(case, m, r, cloud, hyds, sfc, mon, what, rtol):
    _, _, z = ref.units(m)
    tb = ta = 0
    for h in hyds:
        b, a = r[h]
        tb, ta = tb + b, ta + a
        for v, e in (("beta_p", b), ("alpha_p", a), ("OD", ref.path_sum(z[None], a, sfc))):
            got = np.nan_to_num(common.sub(case, m, f"sub_col_{v}_{h}_{cloud}"))
            case.equal(mon + "-class", got, e, rtol=rtol, atol=1e-300, what=f"{what} {v} {h}")
        case.state(mon, m.rad_scheme_family, m.mcphys_scheme, h, cloud)
    for v, e in (("beta_p", tb), ("alpha_p", ta), ("OD", ref.path_sum(z[None], ta, sfc))):
        case.equal(mon + "-total", common.sub(case, m, f"sub_col_{v}_tot_{cloud}"), e, rtol=rtol, atol=1e-300,
                   what=f"{what} {v} total")


def model(case, conv):
    rng = case.rng
    fam = FAMS[case.index % len(FAMS)]
    inst = world.instrument(common.pick(rng, world.LIDARS))
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 5)), int(rng.integers(3, 12))
    N, T, H = common.stretch(case, N, T, H)
    conv = conv and fam != "P3" and bool(rng.integers(0, 2))
    m = world.make_model(rng, fam, N, T, H, process_conv=conv, re_nan=bool(rng.integers(0, 2)) and fam != "P3",
                         p_units=common.pick(rng, ["hPa", "Pa"]), t_units=common.pick(rng, ["K", "degC"]),
                         z_units=common.pick(rng, ["m", "km"]), hybrid=int(rng.integers(0, 3)))
    m = world.put_subcolumns(m, rng, N)
    hyds = [str(h) for h in rng.permutation(m.hyd_types)]
    if rng.uniform() < 0.3:
        hyds = hyds[: int(rng.integers(1, len(hyds) + 1))]
    case.info = dict(family=fam, instrument=inst.instrument_str, N=N, T=T, H=H, hyds=hyds)
    return rng, fam, inst, m, hyds


def bulk(case):
    rng, fam, inst, m, hyds = model(case, True)
    before = common.snapshot(m.ds)
    case.info["history"] = common.other_first(case, m, inst)
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        mie, sfc = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        rad = True if cloud == "strat" else bool(rng.integers(0, 2))
        m = calc_lidar_moments(inst, m, cloud == "conv", OD_from_sfc=sfc, hyd_types=hyds, mie_for_ice=mie,
                               use_rad_logic=rad, parallel=bool(rng.integers(0, 2)))
        judge(case, m, ref.bulk(m, inst, cloud, hyds, mie), cloud, hyds, sfc, "bulk",
              f"{fam} {inst.instrument_str} {cloud} mie={mie}", 1e-8)
    common.inputs_untouched(case, before, m.ds, "bulk lidar")


def micro(case):
    rng, fam, inst, N, T, H, m, hyds, arg = c07.setup(case, FAMS[case.index % len(FAMS)], lidar=True)
    mie = bool(rng.integers(0, 2))
    before = common.snapshot(m.ds)
    hist = common.other_first(case, m, inst)
    for rep in range(2 if rng.uniform() < 0.4 else 1):
        sfc = bool(rng.integers(0, 2))
        par = common.pick(rng, common.PAR)
        m = calc_lidar_moments(inst, m, False, OD_from_sfc=sfc, hyd_types=arg, mie_for_ice=mie, use_rad_logic=False,
                               **par)
        r = {h: (x["m0"], x["ext"]) for h, x in ref.micro(m, inst, hyds, mie, radar=False).items()}
        judge(case, m, r, "strat", hyds, sfc, "micro", f"{fam} {inst.instrument_str} mie={mie} run {rep} {par}", 1e-6)
    common.inputs_untouched(case, before, m.ds, "microphysics lidar", allow=("N_0", "mu", "lambda"))
    case.info = dict(family=fam, instrument=inst.instrument_str, N=N, T=T, H=H, hyds=hyds, mie=mie, par=str(par), history=hist)


def scaling(case):
    """Scaling the mixing ratio of one class scales that class only (fixed effective radius)."""
    rng, fam, inst, m, hyds = model(case, False)
    m2 = world.clone(m)
    h = common.pick(rng, hyds)
    s = float(rng.uniform(0.1, 5))
    m2.ds[f"strat_q_subcolumns_{h}"] = m2.ds[f"strat_q_subcolumns_{h}"] * s
    a, b = (calc_lidar_moments(inst, x, False, hyd_types=hyds) for x in (m, m2))
    psd_area = fam == "P3" and m.p3_kws["use_hybrid_scat"] != 1      # P3 ice area comes from number, not mass
    for g in hyds:
        k = s if (g == h and not (psd_area and g == "ci")) else 1.
        for v in ("beta_p", "alpha_p"):
            n = f"sub_col_{v}_{g}_strat"
            case.equal("scaling", common.sub(case, b, n), common.sub(case, a, n) * k, rtol=1e-10, atol=1e-300,
                       what=f"{fam} {n} after scaling q of {h} by {s:.3g}")


def reject(case):
    m = world.make_model(case.rng, "ModelE", 4, 2, 4, process_conv=True)
    case.raises("reject", KeyError, calc_lidar_moments, world.instrument("HSRL"), m, bool(case.index % 2))
    m = world.put_subcolumns(m, case.rng, 4)
    case.raises("reject", ValueError, calc_lidar_moments, world.instrument("KAZR"), m, bool(case.index % 2))


SCENARIOS = dict(bulk=bulk, micro=micro, scaling=scaling, reject=reject)
