"""C12: lidar path quantities."""
import numpy as np

from emc2.core.instrument import ureg
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta, calc_LDR_and_ext, accumulate_OD
from .. import world, common, ref

PROPERTY = "C12"
RULE = ("totals, optical depth, attenuated backscatter, depolarisation and extinction mask after bulk / empirical / "
        "microphysics runs (both geometries, random eta, thresholds, class subsets, caller's LDR) and from "
        "hand-installed hostile fields (missing cells, profiles crossing the threshold at every layer)")
REQUIRED = {"beta-att": 5000, "totals": 10000, "ldr": 5000, "ext-mask": 5000, "od-path": 5000, "od-shape": 3000}


def preload(tier):
    for r in world.LIDARS:
        world._instrument(r)


def plan(tier):
    n = 48 if tier == "quick" else 700
    return [("operator", n), ("installed", n), ("od", n)]


def ldr_of(case, m, rng, hyds):
    if rng.uniform() < 0.4:
        return None, {h: ref.mag(m.LDR_per_hyd[h]) for h in m.hyd_types}
    v = {h: float(rng.uniform(0.01, 0.6)) for h in m.hyd_types}
    if rng.uniform() < 0.5:
        return dict(v), v
    return {h: x / (ureg.kg / ureg.m ** 3) for h, x in v.items()}, v


def judge(case, m, inst, hyds, sfc, eta, ext_od, ldr, what, with_cloud=True):
    clouds = ["strat", "conv"] if m.process_conv else ["strat"]
    g = {(v, c): np.nan_to_num(common.sub(case, m, f"sub_col_{v}_tot_{c}"))
         for v in ("beta_p", "alpha_p", "OD") for c in clouds}
    tot = {v: sum(g[v, c] for c in clouds) for v in ("beta_p", "alpha_p", "OD")}
    for v, e in tot.items():
        case.equal("totals", common.sub(case, m, f"sub_col_{v}_tot"), e, rtol=1e-12, what=f"{what} total {v}")
    mol = ref.molecular(m, inst.wavelength, sfc)

    def att(beta, od):
        return (mol["sigma_180_vol"][None] + beta) * mol["tau"][None] * np.exp(-2 * eta * od)
    case.equal("beta-att", common.sub(case, m, "sub_col_beta_att_tot"), att(tot["beta_p"], tot["OD"]), rtol=1e-7,
               atol=1e-300, what=f"{what} attenuated backscatter")
    if with_cloud:
        for c in clouds:
            case.equal("beta-att", common.sub(case, m, f"sub_col_beta_att_tot_{c}"), att(g["beta_p", c], g["OD", c]),
                       rtol=1e-7, atol=1e-300, what=f"{what} attenuated backscatter {c}")
    nt = dt = 0
    for c in clouds:
        n = sum(np.nan_to_num(common.sub(case, m, f"sub_col_beta_p_{h}_{c}")) * ldr[h] for h in hyds)
        d = sum(np.nan_to_num(common.sub(case, m, f"sub_col_beta_p_{h}_{c}")) for h in hyds)
        nt, dt = nt + n, dt + d
        case.equal("ldr", common.sub(case, m, f"sub_col_LDR_{c}"), np.where(d > 0, n / np.where(d > 0, d, 1), np.nan),
                   rtol=1e-9, what=f"{what} LDR {c}")
    case.equal("ldr", common.sub(case, m, "sub_col_LDR_tot"), np.where(dt > 0, nt / np.where(dt > 0, dt, 1), np.nan),
               rtol=1e-9, what=f"{what} LDR total")
    od = common.sub(case, m, "sub_col_OD_tot")    # judged against the class totals above
    ext = od > ext_od
    e = np.where(ext, 2., 0.)
    nxt = np.zeros_like(ext)
    if sfc:
        nxt[..., :-1] = ext[..., 1:]
    else:
        nxt[..., 1:] = ext[..., :-1]
    e[nxt & ~ext] = 1.
    case.equal("ext-mask", common.sub(case, m, "ext_mask"), e, what=f"{what} extinction mask")
    if (od == ext_od).any():
        case.state("threshold-tie", sfc)
    for v in (0, 1, 2):
        if (e == v).any():
            case.state("mask", v, sfc, len(clouds))


def operator(case):
    rng = case.rng
    fam = ["ModelE", "CESM", "DHARMA", "WRF", "Multi", "P3"][case.index % 6]
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 5)), int(rng.integers(3, 14))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, fam, N, T, H, single=False, process_conv=fam != "P3" and bool(rng.uniform() < 0.6),
                         p_units=common.pick(rng, ["hPa", "Pa"]), t_units=common.pick(rng, ["K", "degC"]),
                         z_units=common.pick(rng, ["m", "km"]))
    m = world.put_subcolumns(m, rng, N)
    inst = world.instrument(common.pick(rng, world.LIDARS))
    mode = ["bulk", "emp", "micro"][case.index // 6 % 3]
    if mode == "emp" and fam == "P3":
        mode = "bulk"
    if mode == "micro":
        inst = world.coarsen(inst, 12)
    sfc, eta = bool(rng.integers(0, 2)), float(rng.choice([1., 0.7, rng.uniform(0.3, 1)]))
    hyds = [str(h) for h in rng.permutation(m.hyd_types)]
    if rng.uniform() < 0.4:
        hyds = hyds[: int(rng.integers(1, len(hyds) + 1))]
    before = common.snapshot(m.ds)
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        m = calc_lidar_moments(inst, m, cloud == "conv", OD_from_sfc=sfc, hyd_types=hyds, eta=eta, parallel=False,
                               use_rad_logic=mode != "micro", use_empiric_calc=mode == "emp")
    m = calc_total_alpha_beta(m, OD_from_sfc=sfc, eta=eta)
    od = common.sub(case, m, "sub_col_OD_tot")
    pos = od[od > 0]
    thr = float(np.median(pos)) * 1.01 if pos.size and rng.uniform() < 0.6 else 4.
    arg, ldr = ldr_of(case, m, rng, hyds)
    m = calc_LDR_and_ext(m, ext_OD=thr, OD_from_sfc=sfc, LDR_per_hyd=arg, hyd_types=hyds)
    what = f"{fam} {inst.instrument_str} {mode} sfc={sfc} eta={eta:.3g}"
    judge(case, m, inst, hyds, sfc, eta, thr, ldr, what)
    _, _, z = ref.units(m)
    shape(case, od, sfc, what)
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        a = np.nan_to_num(common.sub(case, m, f"sub_col_alpha_p_tot_{cloud}"))
        case.equal("od-path", common.sub(case, m, f"sub_col_OD_tot_{cloud}"), ref.path_sum(z[None], a, sfc), rtol=1e-9,
                   what=f"{what} optical depth {cloud}")
    common.inputs_untouched(case, before, m.ds, "lidar path", allow=("N_0", "mu", "lambda"))
    case.info = dict(family=fam, instrument=inst.instrument_str, mode=mode, sfc=sfc, eta=eta, hyds=hyds, ext_OD=thr)


def shape(case, od, sfc, what):
    case.see("od-shape", od.size)
    if (od[..., 0 if sfc else -1] != 0).any():
        case.fail("od-shape", f"{what}: optical depth at the instrument side is not zero")
    d = np.diff(od, axis=-1)
    if ((d if sfc else -d) < -1e-12 * np.abs(od).max()).any():
        case.fail("od-shape", f"{what}: optical depth decreases away from the instrument")


def installed(case):
    rng = case.rng
    N, T, H = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 20))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, "ModelE", N, T, H, single=False, process_conv=bool(rng.integers(0, 2)))
    inst = world.instrument(common.pick(rng, world.LIDARS))
    sfc, eta = bool(rng.integers(0, 2)), float(rng.uniform(0.2, 1))
    d3 = ("subcolumn",) + m.ds["tair"].dims
    m.ds["subcolumn"] = ("subcolumn", np.arange(N))
    from emc2.simulator.attenuation import calc_theory_beta_m
    m = calc_theory_beta_m(m, inst.wavelength, sfc)
    hyds = [str(h) for h in rng.permutation(m.hyd_types)][: int(rng.integers(1, 5))]
    for c in ("strat", "conv"):
        for v in ("beta_p", "alpha_p", "OD"):
            tot = 0
            for h in m.hyd_types:
                x = 10 ** rng.uniform(-8, -3, size=(N, T, H)) * (rng.uniform(size=(N, T, H)) < 0.6)
                if v == "OD":
                    x = np.cumsum(rng.exponential(0.6, size=x.shape) * (rng.uniform(size=x.shape) < 0.5), axis=-1)
                    x = x if sfc else x[..., ::-1]
                x = np.where(rng.uniform(size=x.shape) < 0.1, np.nan, x) if v != "OD" else x
                m.ds[f"sub_col_{v}_{h}_{c}"] = (d3, x)
                tot = tot + np.nan_to_num(x) / len(m.hyd_types)
            if v == "OD" and rng.uniform() < 0.4:          # zeros turned into missing values
                tot = np.where(tot == 0, np.nan, tot)
            if v != "OD":
                tot = np.where(rng.uniform(size=tot.shape) < 0.05, np.nan, tot)
            m.ds[f"sub_col_{v}_tot_{c}"] = (d3, tot)
    m = calc_total_alpha_beta(m, OD_from_sfc=sfc, eta=eta)
    thr = float(rng.uniform(0.3, 5))
    if rng.uniform() < 0.4:                        # a threshold that some cells reach exactly
        pos = common.sub(case, m, "sub_col_OD_tot")
        pos = pos[pos > 0]
        thr = float(common.pick(rng, pos)) if pos.size else thr
    arg, ldr = ldr_of(case, m, rng, hyds)
    m = calc_LDR_and_ext(m, ext_OD=thr, OD_from_sfc=sfc, LDR_per_hyd=arg,
                         hyd_types=hyds if len(hyds) < 4 or rng.uniform() < 0.5 else None)
    judge(case, m, inst, hyds, sfc, eta, thr, ldr, f"installed sfc={sfc} conv={m.process_conv}", with_cloud=False)


def od(case):
    rng = case.rng
    N, T, H = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 20))
    N, T, H = common.stretch(case, N, T, H, p=0.4)
    m = world.make_model(rng, "ModelE", N, T, H, single=False, process_conv=True)
    m.ds["subcolumn"] = ("subcolumn", np.arange(N))
    m = world.put_subcolumns(m, rng, N)
    conv, sfc, h = bool(rng.integers(0, 2)), bool(rng.integers(0, 2)), common.pick(rng, m.hyd_types)
    c = "conv" if conv else "strat"
    a = 10 ** rng.uniform(-8, -2, size=(N, T, H)) * (rng.uniform(size=(N, T, H)) < 0.7)
    m.ds[f"sub_col_alpha_p_{h}_{c}"] = (("subcolumn",) + m.ds["tair"].dims, a)
    _, _, z = ref.units(m)
    m = accumulate_OD(m, conv, z.copy(), h, sfc)
    got = common.sub(case, m, f"sub_col_OD_{h}_{c}")
    case.equal("od-path", got, ref.path_sum(z[None], a, sfc), rtol=1e-9, what=f"accumulate_OD sfc={sfc}")
    shape(case, got, sfc, "accumulate_OD")


SCENARIOS = dict(operator=operator, installed=installed, od=od)
