"""
Reference model (the monitors' oracle).  Written from the documentation and cited formulations, in plain numpy over
whole arrays; it shares no code with EMC2 except the instruments' table contents and constants.
All arrays are (subcolumn, time, height) or (time, height).
"""
import functools

import numpy as np
from scipy.interpolate import LinearNDInterpolator, RegularGridInterpolator
from scipy.special import gamma

from . import common

R_D, GRAV = 287.058, 9.80665
LIQ = ("cl", "pl")


def mag(x):
    return float(getattr(x, "magnitude", x))


def density(m, h):
    """Particle density [kg m-3]: a constant or, for variable-density classes, a (time, height) field."""
    if isinstance(m.Rho_hyd[h], str):
        return common.fld(m, m.variable_density[h])
    return mag(m.Rho_hyd[h])


def units(m):
    """pressure [Pa], temperature [K], height [m] whatever units the model stores."""
    p, t, z = (common.fld(m, f) for f in (m.p_field, m.T_field, m.z_field))
    pu, tu, zu = (m.ds[f].attrs["units"] for f in (m.p_field, m.T_field, m.z_field))
    p = p * {"hPa": 100., "Pa": 1., "pascal": 1., "mbar": 100., "millibar": 100., "kPa": 1000.}[pu]
    t = t + {"K": 0., "kelvin": 0., "degK": 0., "degC": 273.15, "celsius": 273.15}[tu]
    z = z * {"m": 1., "meter": 1., "km": 1000.}[zu]
    return p, t, z


# ---------------------------------------------------------------- path integrals
def path_sum(z_m, ext, from_sfc):
    """Sum of ext x layer depth over the layers strictly between the instrument and each layer."""
    e = np.asarray(ext, float)
    out = np.zeros_like(e)
    H = e.shape[-1]
    if from_sfc:
        for k in range(1, H):
            out[..., k] = out[..., k - 1] + e[..., k - 1] * (z_m[..., k] - z_m[..., k - 1])
    else:
        for k in range(H - 2, -1, -1):
            out[..., k] = out[..., k + 1] + e[..., k + 1] * (z_m[..., k + 1] - z_m[..., k])
    return out


# ---------------------------------------------------------------- gaseous attenuation, sensitivity
def gas_attenuation(m, inst):
    """Ulaby et al. (1981) water-vapour and oxygen absorption [dB km-1]; frequency in GHz."""
    p, T, _ = units(m)
    ph = p / 100.
    f = inst.freq / 1e9
    th = 300. / T
    rho = common.fld(m, m.q_field) * 1e3 * p / (R_D * T)
    g1 = 2.85 * (ph / 1013.) * th ** 0.626 * (1 + 0.018 * rho * T / ph)
    wv = 2 * f ** 2 * rho * th ** 1.5 * g1 * (th * np.exp(-644. / T) / ((494.4 - f ** 2) ** 2 + 4 * f ** 2 * g1 ** 2)
                                             + 1.2e-6)
    g0 = np.where(ph >= 333, 0.59, np.where(ph < 25, 1.18, 0.59 * (1 + 3.1e-3 * (333 - ph))))
    g = g0 * (ph / 1013.) * th ** 0.85
    o2 = 1.1e-2 * f ** 2 * (ph / 1013.) * th ** 2 * g * (1 / ((f - 60.) ** 2 + g ** 2) + 1 / (f ** 2 + g ** 2))
    return wv, o2


def ze_min(m, inst, ref_rng=1000.):
    _, _, z = units(m)
    return inst.Z_min_1km + 20 * np.log10(z / ref_rng)


# ---------------------------------------------------------------- molecular scattering
def molecular(m, lam, from_sfc):
    p, T, z = units(m)
    R, Av = 8.3144598, 6.022140857e23
    P, tc = p / 100., T - 273.15
    nu2 = (1. / lam) ** 2
    n0 = 1 + (6432.8 + 2949810 / (146 - nu2) + 25540 / (41 - nu2)) * 1e-8
    n = 1 + (n0 - 1) * (1 + 15 * 0.00366) / (1 + 0.00366 * tc) * P / 1013.25
    N = p / (R * T) * Av                      # m-3
    l4 = (lam * 1e-6) ** 4                    # m4
    d = 0.035
    n2 = (n ** 2 - 1) ** 2
    sigma = 8 * np.pi ** 3 / 3 * n2 / (N ** 2 * l4) * (6 + 3 * d) / (6 - 7 * d)
    s180 = np.pi ** 2 * n2 * 2 * (2 + d) / (N ** 2 * l4 * (6 - 7 * d)) * 0.7629 * (1 + 0.932)
    beta = sigma * N
    u = np.zeros_like(beta)
    H = u.shape[1]
    lay = 0.5 * (beta[:, 1:] + beta[:, :-1]) * np.diff(z, axis=1)
    if from_sfc:
        for k in range(1, H):
            u[:, k] = u[:, k - 1] + lay[:, k - 1]
    else:
        for k in range(H - 2, -1, -1):
            u[:, k] = u[:, k + 1] + lay[:, k]
    return dict(n_s=n, N_s=N, sigma=sigma, beta=beta, sigma_180=s180, sigma_180_vol=s180 * N, u_atm=u,
                tau=np.exp(-2 * u), kappa=beta / (p / (R_D * T)))


# ---------------------------------------------------------------- bulk (radiation logic)
BULK = {"ModelE": ("E3_liq", "E3_ice", "mie_ice_E3_PSD"), "CESM": ("CESM_liq", "CESM_ice", "mie_ice_CESM_PSD"),
        "P3": ("CESM_liq", None, None)}
_mulam_cache = {}


def mu_lambda_table(inst, var, mu, lam):
    key = (inst.instrument_str, getattr(inst, "wavelength", 0), var)
    if key not in _mulam_cache:
        t = inst.bulk_table["CESM_liq"]
        mus, lams, v = t["mu"].values, t["lambda"].values, t[var].values
        pts = np.stack((np.tile(mus, t["lambdas"].size).ravel(), lams.ravel()), axis=1)
        _mulam_cache[key] = LinearNDInterpolator(pts, v.ravel())
    return _mulam_cache[key](mu, lam)


def p3_grid(src, var, first, second, third, axes=("Fr", "rho_r", "q_norm")):
    """src: an instrument (its own scattering table) or a P3 model (the table its particle properties come from)."""
    t = src.p3_lut if hasattr(src, "p3_lut") else src.scat_table["p3_ice"]
    return RegularGridInterpolator(tuple(t[a].values for a in axes), t[var].values, bounds_error=False)(
        (first, second, third))


def layer_geometry(m):
    """dp/g and depth of each layer (the layer starting at its level); the top level repeats the layer below."""
    p, _, z = units(m)
    dp = np.abs(np.diff(p, axis=1))
    dz = np.diff(z, axis=1)
    return (np.concatenate([dp, dp[:, -1:]], axis=1) / GRAV, np.concatenate([dz, dz[:, -1:]], axis=1))


def bulk(m, inst, cloud, hyds, mie=False):
    """{hyd: (beta, alpha)} with beta = A Qback, alpha = A Qext [m-1]; zero where the class is absent."""
    fam = m.rad_scheme_family
    liq, ice, mie_ice = BULK[fam]
    rdz, dz = layer_geometry(m)
    re_names = m.conv_re_fields if cloud == "conv" else m.strat_re_fields
    out = {}
    for h in hyds:
        occ = m.ds[f"{cloud}_frac_subcolumns_{h}"].values == 1
        q = m.ds[f"{cloud}_q_subcolumns_{h}"].values
        if h in LIQ:
            rho_b, re = mag(m.Rho_hyd[h]), common.fld(m, re_names[h])
        elif not (fam == "P3" and h == "ci"):
            rho_b = mag(inst.rho_i)
            re = common.fld(m, re_names[h])
            if m.fluffy is not None:
                fl, r = mag(m.fluffy[h]), density(m, h) / rho_b
                re = re * (fl * r + (1 - fl) * r ** (1. / 3))
        if fam == "P3" and h == "ci":
            c = [common.fld(m, v) for v in ("Fr", "rho_r", "qi_norm")]
            hyb = m.p3_kws["use_hybrid_scat"]
            mv = "_Mie_bulk" if mie else "_bulk"
            qb, qe = p3_grid(inst, "Q_back" + mv, *c), p3_grid(inst, "Q_ext" + mv, *c)
            if hyb == 1:
                re = p3_grid(m, "ri_eff", *c)
                if m.fluffy is not None:
                    re = re * p3_grid(m, "rho_m_weight", *c) / mag(inst.rho_i)
                tau = 3 * q * rdz / (2 * mag(inst.rho_i) * re)
                A = tau / (2 * dz)
            else:
                av = "A_tot_norm" if hyb == 0 else ("A_tot_Mie_norm" if mie else "A_tot_eq_V_norm")
                A = (p3_grid(m, av, *c) * common.fld(m, m.p3_kws["in_cld_Ni_name"]))[None]
        else:
            A = 3 * q * rdz / (2 * rho_b * re * 1e-6) / (2 * dz)
            if h in LIQ and fam in ("CESM", "P3"):
                mu, la = common.fld(m, m.mu_field[h]), common.fld(m, m.lambda_field[h])
                qb, qe = mu_lambda_table(inst, "Q_back", mu, la), mu_lambda_table(inst, "Q_ext", mu, la)
            else:
                t = inst.bulk_table[liq if h in LIQ else (mie_ice if mie else ice)]
                qb, qe = (np.interp(re, t["r_e"].values, t[v].values) for v in ("Q_back", "Q_ext"))
        beta = np.where(occ, qb[None] * A, 0.)
        alpha = np.where(occ, qe[None] * A, 0.)
        out[h] = (np.nan_to_num(beta), np.nan_to_num(alpha))
    return out


# ---------------------------------------------------------------- particle size distributions
def psd(m, h, calc_dispersion=None, bounds=(2, 15), cloud="strat", n_scale=1.):
    """N0, lambda, mu (subcolumn, time, height); NaN where there is no mass."""
    if m.mcphys_scheme == "P3" and h == "ci":
        N0 = common.fld(m, m.p3_kws["in_cld_Ni_name"]) * common.fld(m, m.p3_kws["N0_ice_name"])
        lam, mu = common.fld(m, m.lambda_field["ci"]), common.fld(m, m.mu_field["ci"])
        N = m.ds["subcolumn"].size
        return tuple(np.broadcast_to(x, (N,) + x.shape) for x in (N0, lam, mu))
    q = m.ds[f"{cloud}_q_subcolumns_{h}"].values
    n = m.ds[f"{cloud}_n_subcolumns_{h}"].values          # cm-3
    if calc_dispersion is None:
        calc_dispersion = m.model_name not in ("ModelE", "DHARMA")
    if h == "cl" and cloud == "strat":
        if calc_dispersion:
            eta = 0.0005714 * n * n_scale + 0.2714
            mu = np.clip(1 / eta ** 2 - 1, *bounds)
        else:
            mu = np.full(n.shape, 1 / 0.09)
    else:
        mu = np.zeros(n.shape)
    ok = q > 0
    qq = np.where(ok, q, 1.)
    lam = (np.pi / 6 * density(m, h) * n * 1e6 * gamma(mu + 4) / (qq * gamma(mu + 1))) ** (1 / 3.)
    lam = np.where(ok, lam, np.nan)
    return n * 1e6 * lam ** (mu + 1) / gamma(mu + 1), lam, mu


def single_table(m, inst, h, mie):
    """diameters [m], backscatter and extinction cross sections, in tables chosen by class and family."""
    if h in LIQ:
        t = inst.mie_table[h]
        return t["p_diam"].values, t["beta_p"].values, t["alpha_p"].values
    if mie:
        t = inst.mie_table["ci" if h == "ci" else "pi"]
        return t["p_diam"].values, t["beta_p"].values, t["alpha_p"].values
    fam = m.rad_scheme_family
    if fam == "P3":
        t = inst.scat_table["p3_ice"]
        return t["p_diam"].values, None, None
    t = inst.scat_table["E3_ice" if fam == "ModelE" else "CESM_ice"]
    d = t["p_diam_eq_V" if fam == "ModelE" else "p_diam"].values
    return d, t["beta_p"].values, t["alpha_p"].values


def p3_single(m, inst, D, mie, want_vt):
    """beta, alpha, vt per (time, height, size)"""
    Fr, rr = common.fld(m, "Fr"), common.fld(m, "rho_r")
    F = np.broadcast_to(Fr[..., None], Fr.shape + D.shape)
    R = np.broadcast_to(rr[..., None], rr.shape + D.shape)
    DD = np.broadcast_to(D, F.shape)
    ax = ("Fr", "rho_r", "p_diam")
    sfx = "_eq_V" if m.p3_kws["use_hybrid_scat"] > 0 else ""
    b = a = None
    if not mie:
        b, a = p3_grid(inst, "beta_p" + sfx, F, R, DD, ax), p3_grid(inst, "alpha_p" + sfx, F, R, DD, ax)
    vt = p3_grid(m, "vt", F, R, DD, ax) if want_vt else None
    return b, a, vt


def fall_speed(m, h, D):
    """Terminal velocity [m s-1], downward negative; (size,) or (time, height, size)."""
    if m.mcphys_scheme.lower() == "nssl":
        return -nssl_speed(D, density(m, h), h)
    return -mag(m.vel_param_a[h]) * D ** mag(m.vel_param_b[h])


def nssl_speed(D, rho, h):
    if h == "pl":
        return 10 * (1 - np.exp(-516.575 * D))
    if h == "sn":
        return 21.52823061429272 * D ** 0.42
    if h == "cl":
        return 131.6 * D ** 0.824
    if h not in ("gr", "ha"):
        return np.zeros_like(D)
    rho = np.asarray(rho, float)[..., None] if np.ndim(rho) else float(rho)
    cd = np.clip(0.45 + 0.55 * (800 - np.clip(rho, 170. if h == "gr" else 500., 800.)), 0.45, 1.2)
    return np.sqrt(4 * rho * 9.81 / (3 * cd * 1.007)) * np.sqrt(D)


def density_factor(m, h):
    ref = (m.Vd_rhoa_scaling_ref or {}).get(h) if hasattr(m, "Vd_rhoa_scaling_ref") else None
    rho = m.ds["rho_a"].transpose(m.time_dim, m.height_dim).values
    return np.ones(rho.shape) if ref is None else (ref / rho) ** 0.54


# EMC2 scales the droplet number by 1e-6 before the Martin et al. (1994) dispersion although it is in cm-3 already:
# known finding of C13.  The forward-operator monitors take the size distribution as EMC2 defines it.
FORWARD_N_SCALE = 1e-6


def micro(m, inst, hyds, mie, radar=True, calc_dispersion=None):
    """Per class: occupied, integral moments m0 (backscatter), mv (velocity), function for the second moment, ext."""
    out = {}
    for h in hyds:
        occ = m.ds[f"strat_frac_subcolumns_{h}"].values.astype(bool)
        n = m.ds[f"strat_n_subcolumns_{h}"].values
        N0, lam, mu = psd(m, h, calc_dispersion, n_scale=FORWARD_N_SCALE)
        D, b, a = single_table(m, inst, h, mie)
        p3 = m.mcphys_scheme == "P3" and h == "ci"
        if p3:
            pb, pa, vt = p3_single(m, inst, D, mie, radar)
            if not mie:
                b, a = pb[None], pa[None]
            v = None if vt is None else -vt[None]
        else:
            v = fall_speed(m, h, D) if radar else None
            if v is not None and v.ndim == 3:
                v = v[None]
        with np.errstate(all="ignore"):
            nd = N0[..., None] * D ** mu[..., None] * np.exp(-lam[..., None] * D)
        if radar:
            v = v * density_factor(m, h)[None, ..., None]
        present = occ & np.isfinite(N0) & (N0 > 0)
        # a class with no number at a level anywhere carries no signal there
        lev = (occ * n != 0).any(axis=0)
        present &= lev[None]
        z = lambda x, present=present: np.where(present, np.nan_to_num(x), 0.)
        w = b * nd
        r = dict(present=present, m0=z(np.trapz(w, x=D, axis=-1)), ext=z(np.trapz(a * nd, x=D, axis=-1)))
        if radar:
            r["mv"] = z(np.trapz(w * v, x=D, axis=-1))
            r["second"] = (lambda vm, w=w, v=v, D=D, z=z: z(np.trapz(w * (v - vm[..., None]) ** 2, x=D, axis=-1)))
        out[h] = r
    return out


def radar_factor(inst):
    return inst.wavelength ** 4 / (inst.K_w * np.pi ** 5) * 1e-6


def db(x):
    with np.errstate(all="ignore"):
        r = 10 * np.log10(x)
    return np.where(np.isfinite(r), r, np.nan)


# ---------------------------------------------------------------- empirical
def water_content(m, cloud, h):
    p, T, _ = units(m)
    return m.ds[f"{cloud}_q_subcolumns_{h}"].values * (p / (R_D * T))[None]       # kg m-3


def empirical_ze(m, inst, cloud, h):
    _, T, _ = units(m)
    tc = (T - 273.15)[None]
    wc = water_content(m, cloud, h) * 1e3
    f = inst.freq / 1e9
    with np.errstate(all="ignore"):
        if h == "cl":
            return 0.031 * wc ** 1.56
        if h == "pl":
            return (wc * 1e3 / 3.4) ** 1.75
        lw = np.log10(wc)
        if 2 <= f < 4:
            d = (lw + 0.0197 * tc + 1.7) / 0.060
        elif 75 <= f < 110:
            d = (lw + 0.00706 * tc + 0.992) / (0.000580 * tc + 0.0923)
        else:
            d = (lw + 0.0186 * tc + 1.63) / (0.000242 * tc + 0.0699)
        return np.where(wc > 0, 10 ** (d / 10.), 0.)


def liquid_absorption(m, inst):
    """dB km-1 per g m-3"""
    k = (inst.eps_liq - 1) / (inst.eps_liq + 2)
    return 6 * np.pi / (inst.wavelength * mag(m.Rho_hyd["cl"])) * k.imag * 4.34e6


def empirical_lidar(m, cloud, h):
    _, T, _ = units(m)
    tc = T - 273.15
    wc = water_content(m, cloud, h)
    if h in LIQ:
        re = common.fld(m, (m.conv_re_fields if cloud == "conv" else m.strat_re_fields)[h]) * 1e-6
        al = 3 * wc / (2 * mag(m.Rho_hyd[h]) * re[None])
    else:
        a, b = 0.00532 * (tc + 90) ** 2.55, 1.31 * np.exp(0.0047 * tc)
        al = (wc / a[None]) ** (1 / b[None])
    al = np.nan_to_num(al)
    return al / mag(m.lidar_ratio[h]), al
