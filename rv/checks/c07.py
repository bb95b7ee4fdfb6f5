"""C07: radar moments from single-particle tables (microphysics logic)."""
import numpy as np

from emc2.simulator.radar_moments import calc_radar_moments
from .. import world, common, ref

PROPERTY = "C07"
RULE = ("model family x radar x Mie/non-Mie ice x class subset and order x serial/parallel/chunk x repeated runs x "
        "spectral width on/off; the three moments of every class and of the total are recomputed by whole-array "
        "integration of the size distribution and compared in every subcolumn cell that holds the class")
REQUIRED = {"ze-class": 10000, "vd-class": 2000, "sigma-class": 2000, "vd-total": 1000, "sigma-total": 500,
            "hyd-transmittance": 2000, "inputs-untouched": 200}
FAMS = ["ModelE", "CESM", "DHARMA", "Multi", "WRF", "NSSL", "P3", "CESMnofl"]


def preload(tier):
    for r in world.RADARS:
        world._instrument(r)


def plan(tier):
    return [("moments", 128 if tier == "quick" else 900), ("dispersion", 8 if tier == "quick" else 60)]


def setup(case, fam=None, lidar=False):
    rng = case.rng
    fam = fam or FAMS[case.index % len(FAMS)]
    inst = world.instrument(common.pick(rng, world.LIDARS if lidar else world.RADARS))
    inst = world.coarsen(inst, int(rng.integers(5, 16)))
    N, T, H = int(rng.integers(1 if rng.uniform() < 0.1 else 2, 10)), int(rng.integers(1, 5)), int(rng.integers(3, 10))
    N, T, H = common.stretch(case, N, T, H, p=0.03, cells=800)
    m = world.make_model(rng, fam, N, T, H, process_conv=False, hybrid=int(rng.integers(0, 3)),
                         p_units=common.pick(rng, ["hPa", "Pa"]), t_units=common.pick(rng, ["K", "degC"]),
                         z_units=common.pick(rng, ["m", "km"]), lut_inst=inst.instrument_str
                         if inst.instrument_str in world.INSTRUMENTS else "KAZR", rho_ref=bool(rng.uniform() < 0.8))
    m = world.put_subcolumns(m, rng, N)
    hyds = [str(h) for h in rng.permutation(m.hyd_types)]
    if rng.uniform() < 0.35:
        hyds = hyds[: int(rng.integers(1, len(hyds) + 1))]
    arg = None if (len(hyds) == len(m.hyd_types) and rng.uniform() < 0.4) else hyds
    if arg is None:
        hyds = list(m.hyd_types)
    return rng, fam, inst, N, T, H, m, hyds, arg


def judge(case, m, inst, hyds, mie, sfc, what, calc_dispersion=None, width=True):
    r = ref.micro(m, inst, hyds, mie, True, calc_dispersion)
    f = ref.radar_factor(inst)
    num = den = ext = 0
    for h in hyds:
        x = r[h]
        p = x["present"]
        got = common.sub(case, m, f"sub_col_Ze_{h}_strat")
        case.equal("ze-class", got, ref.db(np.where(p, x["m0"] * f, 0)), rtol=1e-6, atol=1e-5, what=f"{what} Ze {h}")
        ok = p & (x["m0"] > 1e-250)
        vd = x["mv"] / np.where(ok, x["m0"], np.nan)
        case.equal("vd-class", common.sub(case, m, f"sub_col_Vd_{h}_strat"), vd, rtol=1e-5, atol=1e-9, where=ok,
                   what=f"{what} Vd {h}")
        if width:
            sg = np.sqrt(x["second"](np.where(ok, vd, 0.)) / np.where(ok, x["m0"], np.nan))
            case.equal("sigma-class", common.sub(case, m, f"sub_col_sigma_d_{h}_strat"), sg, rtol=1e-4, atol=1e-7,
                       where=ok, what=f"{what} spectral width {h}")
        num, den, ext = num + x["mv"], den + x["m0"], ext + x["ext"]
        case.state(m.model_name, m.mcphys_scheme, m.rad_scheme_family, h, inst.instrument_str, mie,
                   "corr" if h in getattr(m, "Vd_rhoa_scaling_ref", {}) else "nocorr")
    case.equal("ze-total", common.sub(case, m, "sub_col_Ze_tot_strat"), ref.db(den * f), rtol=1e-6, atol=1e-5,
               what=f"{what} Ze total")
    ok = den > 1e-250
    vt = num / np.where(ok, den, np.nan)
    case.equal("vd-total", common.sub(case, m, "sub_col_Vd_tot_strat"), vt, rtol=1e-5, atol=1e-9, where=ok,
               what=f"{what} Vd total")
    if width:
        st = np.sqrt(sum(r[h]["second"](np.where(ok, vt, 0.)) for h in hyds) / np.where(ok, den, np.nan))
        case.equal("sigma-total", common.sub(case, m, "sub_col_sigma_d_tot_strat"), st, rtol=1e-4, atol=1e-7,
                   where=ok, what=f"{what} spectral width total")
    _, _, z = ref.units(m)
    case.equal("hyd-transmittance", common.sub(case, m, "hyd_ext_strat"), np.exp(-2 * ref.path_sum(z[None], ext, sfc)),
               rtol=1e-6, atol=1e-300, what=f"{what} hydrometeor transmittance")


def moments(case):
    rng, fam, inst, N, T, H, m, hyds, arg = setup(case)
    mie = bool(rng.integers(0, 2))
    before = common.snapshot(m.ds)
    hist = common.other_first(case, m, inst)
    for rep in range(2 if rng.uniform() < 0.4 else 1):
        sfc, width = bool(rng.integers(0, 2)), bool(rng.uniform() < 0.8)
        par = common.pick(rng, common.PAR)
        m = calc_radar_moments(inst, m, False, OD_from_sfc=sfc, hyd_types=arg, mie_for_ice=mie, use_rad_logic=False,
                               calc_spectral_width=width, **par)
        judge(case, m, inst, hyds, mie, sfc, f"{fam} {inst.instrument_str} mie={mie} run {rep}", width=width)
    common.inputs_untouched(case, before, m.ds, "microphysics radar")
    case.info = dict(family=fam, instrument=inst.instrument_str, N=N, T=T, H=H, hyds=hyds, mie=mie, par=str(par), history=hist)


def dispersion(case):
    """Both settings of calc_dispersion, requested explicitly."""
    rng, fam, inst, N, T, H, m, hyds, arg = setup(case, fam=["ModelE", "CESM", "DHARMA", "WRF"][case.index % 4])
    hyds = arg = ["cl", "pl"]
    cd = bool(rng.integers(0, 2))
    m = calc_radar_moments(inst, m, False, hyd_types=arg, mie_for_ice=True, use_rad_logic=False, parallel=False,
                           calc_dispersion=cd)
    judge(case, m, inst, hyds, True, True, f"{fam} {inst.instrument_str} calc_dispersion={cd}", calc_dispersion=cd)


SCENARIOS = dict(moments=moments, dispersion=dispersion)
