"""C16: COSP-style lidar emulation."""
import numpy as np
import xarray as xr

from emc2.simulator.classification import lidar_emulate_cosp_phase
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta
from .. import world, common

PROPERTY = "C16"
RULE = ("ATB, cross ATB, scattering ratio and phase masks recomputed per cell and per subcolumn walk (away from the "
        "instrument) from per-class backscatter, optical depth, molecular backscatter and transmission; installed "
        "fields whose scattering ratios straddle 5 and 30 in many vertical orders and whose temperatures straddle "
        "-40 C and 0 C (stored in K or degC), plus real bulk / empirical lidar runs; random eta, geometry, thresholds, "
        "polynomials, selected classes, precipitation switch; cells within 1e-9 (relative) of a threshold are not judged")
REQUIRED = {"mask": 20000, "ATB": 20000, "SR": 20000, "reject": 4, "inputs-untouched": 200}
LIQ = ("cl", "pl")


def preload(tier):
    for r in world.LIDARS:
        world._instrument(r)


def plan(tier):
    n = 60 if tier == "quick" else 900
    return [("installed", 3 * n), ("operator", n), ("reject", 6)]


def classes(m, hyd_types, precip):
    hy = list(hyd_types or m.hyd_types)
    if not precip:
        return {"liq": [h for h in hy if h == "cl"], "ice": [h for h in hy if h == "ci"]}
    return {"liq": [h for h in hy if h in LIQ], "ice": [h for h in hy if h not in LIQ]}


def parts(case, m, cloud, sel, eta, coef):
    """Per phase: backscatter, depolarised backscatter and optical depth of one cloud type."""
    mol, tau = common.fld(m, "sigma_180_vol")[None], common.fld(m, "tau")[None]
    out = []
    for ph in ("liq", "ice"):
        b = od = np.zeros((m.ds.sizes["subcolumn"],) + mol.shape[1:])
        for h in sel[ph]:
            b = b + np.nan_to_num(common.sub(case, m, f"sub_col_beta_p_{h}_{cloud}"))
            od = od + np.nan_to_num(common.sub(case, m, f"sub_col_OD_{h}_{cloud}"))
        x = 1e3 * (mol + b) * tau * np.exp(-2 * eta * od)
        c = np.zeros_like(x)
        for a in coef[ph]:
            c = c * x + a
        cross = c / 1e3 / (tau * np.exp(-2 * eta * od)) - mol * 0.0284 / 1.0284
        out.append((b, cross, od))
    return [sum(p) for p in zip(*out)]


def mask_of(SR, tot, cross, temp, curve, from_sfc, thr, und):
    y = np.zeros_like(tot)
    for a in curve:
        y = y * (tot * 1e3) + a
    y = y / 1e3
    N, T, H = SR.shape
    e = np.zeros(SR.shape)
    sure = np.ones(SR.shape, bool)
    sure &= np.abs(SR - thr) > 1e-9 * thr
    sure &= (np.abs(cross - y) > 1e-9 * np.abs(y) + 1e-18)
    for i in range(N):
        for t in range(T):
            opaque, doubt = 0, False
            for k in (range(H) if from_sfc else range(H - 1, -1, -1)):
                s = SR[i, t, k]
                doubt = doubt or abs(s - und) < 1e-9 * und
                c = 0
                if s > thr:
                    c = 2 if cross[i, t, k] > y[i, t, k] else 1
                    if temp[t, k] > 273.15:
                        c = 1
                    elif temp[t, k] < 233.15:
                        c = 2
                    if opaque:
                        c = 3
                if s > und:
                    opaque += 1
                e[i, t, k] = c
                if doubt:
                    sure[i, t, k] = False
    sure |= (e == 0) & (SR < thr * (1 - 1e-6))
    return e, sure


def judge(case, m, kw, what):
    kw = dict(kw)
    eta, sfc = kw.get("eta", 0.7), kw.get("OD_from_sfc", True)
    thr, und = kw.get("cloud_SR_thresh", 5.), kw.get("undef_SR_thresh", 30.)
    curve = kw.get("phase_disc_curve") or [9.032e3, -2.136e3, 173.394, -3.951, 0.256, -9.478e-4]
    coef = kw.get("atb_cross_coeff") or {"liq": [0.4099, 0.009, 0], "ice": [0.2904, 0]}
    sel = classes(m, kw.get("hyd_types"), kw.get("inc_precip_hyd_atb", True))
    mol, tau = common.fld(m, "sigma_180_vol")[None], common.fld(m, "tau")[None]
    temp = common.fld(m, m.T_field) + (0. if m.ds[m.T_field].attrs["units"] == "K" else 273.15)
    # exactly at an override temperature the field decides; only converted temperatures are ambiguous there
    surT = (m.ds[m.T_field].attrs["units"] == "K") | ((np.abs(temp - 273.15) > 1e-6) & (np.abs(temp - 233.15) > 1e-6))
    clouds = ["strat", "conv"] if m.process_conv else ["strat"]
    P = {c: parts(case, m, c, sel, eta, coef) for c in clouds}
    P["all_hyd"] = [sum(p) for p in zip(*P.values())]
    for c, (b, x, od) in P.items():
        two = tau * np.exp(-2 * eta * od)
        tot, cross = (b + x + mol * 1.0284) * two, (x + mol * 0.0284 / 1.0284) * two
        SR = tot / (mol * 1.0284 * tau)
        name = "COSP_phase_mask_all_hyd" if c == "all_hyd" else f"{c}_COSP_phase_mask"
        e, sure = mask_of(SR, tot, cross, temp, curve, sfc, thr, und)
        sure &= surT[None] | (e == 0)
        for v in range(4):
            if (e == v).any():
                case.state("class", v, c, "sfc" if sfc else "toa")
        a = common.sub(case, m, name)
        if kw.get("convert_zeros_to_nan"):
            e = np.where(e == 0, np.nan, e)
        case.equal("mask", a, e, where=sure if not sure.all() else None, what=f"{what} {name}")
        case.check(list(m.ds[name].attrs.get("legend", [])) == ["liquid", "ice", "undef"], "legend",
                   f"{what} {name}: legend {m.ds[name].attrs.get('legend')}")
        if kw.get("output_ATB"):
            case.equal("ATB", common.sub(case, m, f"COSP_ATBtot_{c}"), tot, rtol=1e-8, what=f"{what} total ATB {c}")
            sc = np.abs(x * two) + mol * 0.03 * two + 1e-290
            case.equal("ATB", common.sub(case, m, f"COSP_ATBcross_{c}") / sc, cross / sc, rtol=0, atol=1e-8,
                       what=f"{what} cross ATB {c}")
            case.equal("SR", common.sub(case, m, f"COSP_SR_{c}"), SR, rtol=1e-8, what=f"{what} SR {c}")
    if not m.process_conv:
        case.check("conv_COSP_phase_mask" not in m.ds, "no-conv", f"{what}: convective mask without convection")


def options(rng, m):
    kw = dict(eta=float(common.pick(rng, [0.7, 1.0, rng.uniform(0.3, 1.)])), OD_from_sfc=bool(rng.integers(0, 2)),
              convert_zeros_to_nan=bool(rng.integers(0, 2)), output_ATB=bool(rng.uniform() < 0.7),
              inc_precip_hyd_atb=bool(rng.uniform() < 0.7))
    if rng.uniform() < 0.3:
        k = int(rng.integers(1, len(m.hyd_types) + 1))
        kw["hyd_types"] = [str(h) for h in rng.choice(m.hyd_types, k, replace=False)]
    if rng.uniform() < 0.25:
        kw["cloud_SR_thresh"], kw["undef_SR_thresh"] = float(rng.uniform(2, 8)), float(rng.uniform(10, 60))
    if rng.uniform() < 0.2:
        kw["atb_cross_coeff"] = {"liq": [float(rng.uniform(0.1, 0.5)), 0.01, 0], "ice": [float(rng.uniform(0.2, 0.5)), 0]}
        kw["phase_disc_curve"] = [float(rng.uniform(0.1, 0.4)), float(rng.uniform(-1e-3, 1e-3))]
    return {k: v for k, v in kw.items() if rng.uniform() < 0.9 or k == "output_ATB"}


def installed(case):
    rng = case.rng
    fam = common.pick(rng, ["ModelE", "WRF", "Multi", "NSSL", "P3"])
    N, T, H = int(rng.integers(1, 7)), int(rng.integers(1, 4)), int(rng.integers(2, 14))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)),
                         t_units=common.pick(rng, ["K", "degC"]))
    m = world.put_subcolumns(m, rng, N)
    u = m.ds["tair"]
    off = 0. if u.attrs["units"] == "K" else 273.15
    m.ds["tair"] = xr.DataArray(rng.uniform(205, 295, size=(T, H)) - off, dims=u.dims, attrs=u.attrs)
    if rng.uniform() < 0.7:       # a single phase of the thermodynamics: only the discrimination curve decides
        m.ds["tair"][:] = rng.uniform(235, 272, size=(T, H)) - off
    edge = rng.choice([273.15, 233.15], size=(T, H)) + rng.choice([0., 1e-3, -1e-3, 0.02, -0.02], size=(T, H)) - off
    m.ds["tair"].values[:] = np.where(rng.uniform(size=(T, H)) < rng.choice([0., 0.4]), edge, m.ds["tair"].values)
    mol = 1.5e-6 * np.exp(-np.linspace(0, 2, H))[None] * rng.uniform(0.8, 1.2, size=(T, H))
    tau = np.cumprod(rng.uniform(0.93, 1., size=(T, H)), axis=1)
    m.ds["sigma_180_vol"] = xr.DataArray(mol, dims=u.dims)
    m.ds["tau"] = xr.DataArray(tau, dims=u.dims)
    dims = ("subcolumn",) + u.dims
    s = (N, T, H)
    for c in (["strat", "conv"] if m.process_conv else ["strat"]):
        for h in m.hyd_types:
            on = rng.uniform(size=s) < rng.uniform(0.1, 0.7)
            b = np.where(on, mol[None] * 10 ** rng.uniform(-1, 2.5, size=s), 0.)
            a = np.where(rng.uniform(size=s) < 0.1, np.nan, b)
            od = rng.uniform(0, 0.15, size=s).cumsum(axis=2) * rng.choice([0., 1., 3.])
            m.ds[f"sub_col_beta_p_{h}_{c}"] = xr.DataArray(a, dims=dims)
            m.ds[f"sub_col_OD_{h}_{c}"] = xr.DataArray(np.where(rng.uniform(size=s) < 0.05, np.nan, od), dims=dims)
        m.ds[f"sub_col_beta_p_tot_{c}"] = xr.DataArray(np.zeros(s), dims=dims)
    inst = world.instrument("HSRL")
    kw = options(rng, m)
    before = common.snapshot(m.ds)
    m = lidar_emulate_cosp_phase(inst, m, **kw)
    judge(case, m, kw, f"{fam} {kw}")
    common.inputs_untouched(case, before, m.ds, "COSP emulation")
    if rng.uniform() < 0.3:       # the emulator is run again with other options
        kw = options(rng, m)
        m = lidar_emulate_cosp_phase(inst, m, **kw)
        judge(case, m, kw, f"{fam} again {kw}")
    case.info = dict(family=fam, N=N, T=T, H=H, options=str(kw))


def operator(case):
    rng = case.rng
    fam = common.pick(rng, ["ModelE", "CESM", "DHARMA", "WRF", "Multi"])
    N, T, H = int(rng.integers(2, 8)), int(rng.integers(1, 4)), int(rng.integers(3, 12))
    N, T, H = common.stretch(case, N, T, H)
    m = world.put_subcolumns(world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)),
                                              re_nan=bool(rng.integers(0, 2)), q_mode="hostile"), rng, N)
    for k in list(m.ds):
        if "q_subcolumns" in k:
            m.ds[k] = m.ds[k] * rng.choice([1e-3, 1e-2, 1.])
    inst = world.instrument("HSRL")
    kw = options(rng, m)
    sfc = kw.get("OD_from_sfc", True)
    mode = ["bulk", "emp"][case.index % 2]
    for c in (["strat", "conv"] if m.process_conv else ["strat"]):
        m = calc_lidar_moments(inst, m, c == "conv", OD_from_sfc=sfc, parallel=False, use_empiric_calc=mode == "emp",
                               eta=kw.get("eta", 0.7))
    m = calc_total_alpha_beta(m, OD_from_sfc=sfc, eta=kw.get("eta", 0.7))
    m = lidar_emulate_cosp_phase(inst, m, **kw)
    judge(case, m, kw, f"{fam} {mode} {kw}")
    case.info = dict(family=fam, mode=mode, sfc=sfc)


def reject(case):
    m = world.put_subcolumns(world.make_model(case.rng, "ModelE", 4, 2, 4), case.rng, 4)
    i = common.pick(case.rng, [x for x in world.LIDARS if world._instrument(x).instrument_str != "HSRL"] + world.RADARS)
    case.raises("reject", ValueError, lidar_emulate_cosp_phase, world.instrument(i), m)


SCENARIOS = dict(installed=installed, operator=operator, reject=reject)
