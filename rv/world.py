"""
Workload generator: synthetic models (every model family EMC2 supports) and real instruments.

The models use distinct field names for stratiform / convective and radiation / microphysics variants of every
quantity, so that reading the wrong field always changes the result.
"""
import functools
import copy
import os

import numpy as np
import xarray as xr

import emc2
from emc2.core import Model
from emc2.core.instrument import ureg
from . import core

SINGLE_SHARE = float(os.environ.get('RV_SINGLE', '0.1'))
R_D = 287.058
GRAV = 9.80665

FAMILIES = {
    "ModelE": dict(rad="ModelE", mc="MG2", hyds=["cl", "ci", "pl", "pi"], name="ModelE",
                   rho=dict(cl=1000., ci=500., pl=1000., pi=250.), fluffy=dict(ci=0.5, pi=0.3)),
    "CESM": dict(rad="CESM", mc="MG2", hyds=["cl", "ci", "pl", "pi"], name="CESM2",
                 rho=dict(cl=1000., ci=500., pl=1000., pi=250.), fluffy=dict(ci=1.0, pi=0.7)),
    "CESMnofl": dict(rad="CESM", mc="MG2", hyds=["cl", "ci", "pl", "pi"], name="E3SMv1",
                     rho=dict(cl=1000., ci=500., pl=1000., pi=250.), fluffy=None),
    "DHARMA": dict(rad="ModelE", mc="Morrison", hyds=["cl", "ci", "pl", "pi"], name="DHARMA",
                   rho=dict(cl=1000., ci=500., pl=1000., pi=100.), fluffy=dict(ci=0.2, pi=0.9)),
    "Multi": dict(rad="ModelE", mc="Morrison", hyds=["cl", "ci", "pl", "pir", "pid", "pif"], name="DHARMA",
                  rho=dict(cl=1000., ci=500., pl=1000., pir=600., pid=100., pif=50.),
                  fluffy=dict(ci=0.5, pir=0.5, pid=0.1, pif=0.0)),
    "WRF": dict(rad="ModelE", mc="Morrison", hyds=["cl", "ci", "pl", "sn", "gr"], name="WRF",
                rho=dict(cl=1000., ci=500., pl=1000., sn=100., gr=400.),
                fluffy=dict(ci=0.5, sn=0.5, gr=0.5)),
    "NSSL": dict(rad="ModelE", mc="NSSL", hyds=["cl", "ci", "pl", "sn", "gr", "ha"], name="WRF",
                 rho=dict(cl=1000., ci=459., pl=1000., sn=100., gr=None, ha=None),
                 fluffy=dict(ci=0.5, sn=0.5, gr=0.5, ha=0.5)),
    "P3": dict(rad="P3", mc="P3", hyds=["cl", "ci", "pl"], name="E3SMv3",
               rho=dict(cl=1000., ci=500., pl=1000.), fluffy=dict(ci=0.5)),
}
# as many classes as a scheme may carry: every name the simulator knows
MANY = dict(rad="ModelE", mc="Morrison", hyds=["cl", "ci", "pl", "pi", "sn", "gr", "ha", "pir", "pid", "pif"], name="UM",
            rho=dict(cl=1000., ci=500., pl=1000., pi=250., sn=100., gr=400., ha=900., pir=600., pid=120., pif=50.),
            fluffy=dict(ci=0.5, pi=0.4, sn=0.6, gr=0.3, ha=0.0, pir=0.5, pid=0.1, pif=1.0))
VEL_A = dict(cl=3e7, ci=700., pl=841.997, pi=11.72, pir=700., pid=11.72, pif=5.0, sn=11.72, gr=19.3, ha=206.9)
VEL_B = dict(cl=2., ci=1., pl=0.8, pi=0.41, pir=1., pid=0.41, pif=0.3, sn=0.41, gr=0.37, ha=0.64)
LR = dict(cl=18., ci=24., pl=5.5, pi=24.5, pir=23., pid=22., pif=21., sn=20., gr=19., ha=17.)
LDR = dict(cl=0.03, ci=0.35, pl=0.1, pi=0.40, pir=0.3, pid=0.32, pif=0.38, sn=0.37, gr=0.28, ha=0.2)
RHO_REF = dict(ci=0.84, pi=0.86, pl=1.1, sn=0.9, gr=0.95, ha=1.23, cl=None)


DIMS = [("time", "height"), ("time", "lev"), ("Time", "bottom_top"), ("ncol", "z"), ("t", "model_level")]


class SynthModel(Model):
    def __init__(self):
        super().__init__()


INSTRUMENTS = {
    "KAZR": lambda: emc2.core.instruments.KAZR("nsa"), "WACR": lambda: emc2.core.instruments.WACR("sgp"),
    "CSAPR": lambda: emc2.core.instruments.CSAPR(), "XSACR": lambda: emc2.core.instruments.XSACR(),
    "NEXRAD": lambda: emc2.core.instruments.NEXRAD(),
    "HSRL": lambda: emc2.core.instruments.HSRL(), "CEIL": lambda: emc2.core.instruments.CEIL(),
    "RL": lambda: emc2.core.instruments.RL(), "CALIOP": lambda: emc2.core.instruments.CALIOP(),
    "Ten64nm": lambda: emc2.core.instruments.Ten64nm(),
}
RADARS = ["KAZR", "WACR", "CSAPR", "XSACR", "NEXRAD"]
LIDARS = ["HSRL", "CEIL", "RL", "CALIOP", "Ten64nm"]


@functools.lru_cache(maxsize=None)
def _instrument(name):
    return INSTRUMENTS[name]()


def instrument(name):
    """A fresh shallow copy (tables shared, so that loading cost is paid once per process)."""
    return copy.copy(_instrument(name))


def coarsen(inst, step):
    """Thin the single-particle tables so that microphysics integrals are cheap (same code path, fewer sizes)."""
    inst = copy.copy(inst)
    mt = {}
    for k, v in inst.mie_table.items():
        dim = list(v.sizes)[0]
        mt[k] = v.isel({dim: slice(0, None, step)})
    st = dict(inst.scat_table)
    for k in ("E3_ice", "CESM_ice"):
        v = st[k]
        dim = v["p_diam"].dims[0]
        st[k] = v.isel({dim: slice(0, None, max(1, v.sizes[dim] // 60))})
    inst.mie_table, inst.scat_table = mt, st
    return inst


def atmosphere(rng, T, H):
    z0 = rng.uniform(5, 200, size=(T, 1))
    dz = rng.uniform(60, 900, size=(T, H - 1))
    z = np.concatenate([z0, z0 + np.cumsum(dz, axis=1)], axis=1)
    tsfc = rng.uniform(250, 312, size=(T, 1))
    t = np.maximum(tsfc - rng.uniform(0.004, 0.009, size=(T, 1)) * z + rng.normal(0, 1.0, size=(T, H)), 190.)
    p = rng.uniform(920, 1030, size=(T, 1)) * np.exp(-z / rng.uniform(7200, 8600, size=(T, 1)))
    qv = rng.uniform(0.05, 0.9, size=(T, H)) * rng.choice([0.001, 0.01, 0.01, 0.03], size=(T, 1)) * np.exp(-z / 2500.)
    return z, t, p, qv


def frac_field(rng, T, H, N, mode):
    f = np.zeros((T, H))
    pick = rng.integers(0, 8, size=(T, H))
    f = np.select([pick == 0, pick == 1, pick == 2, pick == 3, pick >= 4],
                  [0.0, 1.0, rng.integers(0, N + 1, size=(T, H)) / N,
                   (rng.integers(0, N, size=(T, H)) + 0.5) / N, rng.uniform(0, 1, size=(T, H))])
    if mode == "full":
        f[:] = 1.0
    elif mode == "deep":   # vertically coherent, so that overlap decisions are exercised
        base = rng.uniform(0, 1, size=(T, 1))
        f = np.clip(base + rng.normal(0, 0.25, size=(T, H)), 0, 1)
    elif mode == "sparse":
        f = np.where(rng.uniform(size=(T, H)) < 0.5, 0, f)
    elif mode == "tiny":
        f = np.where(rng.uniform(size=(T, H)) < 0.5, 10 ** rng.uniform(-6, 0, size=(T, H)), f)
    elif mode == "few":
        f = np.where(rng.uniform(size=(T, H)) < 0.6, rng.uniform(0.3, 5, size=(T, H)) / N, f)
        f = np.minimum(f, 1.)
    elif mode == "pos":
        f = np.clip(f, 1.0 / N, 1.0)
    return f


def q_field(rng, T, H, mode="hostile", scale=1e-4):
    q = scale * 10 ** rng.uniform(-3, 0.7, size=(T, H))
    if mode == "hostile":
        u = rng.uniform(size=(T, H))
        q = np.where(u < 0.08, 0.0, q)
        q = np.where((u >= 0.08) & (u < 0.12), 1e-18, q)      # exactly the truncation threshold
        q = np.where((u >= 0.12) & (u < 0.16), 5e-19, q)
        q = np.where((u >= 0.16) & (u < 0.19), 1.5e-18, q)
    return q


def make_model(rng, family="ModelE", N=8, T=3, H=12, process_conv=True, q_mode="hostile", frac_mode=None,
               hyds=None, re_nan=False, p_units="hPa", t_units="K", z_units="m", relvar=False, lut_inst="KAZR",
               hybrid=0, rho_ref=True, dims=None, single=None):
    fam = FAMILIES[family]
    if family == "Multi" and rng.uniform() < 0.25:
        k = int(rng.integers(4, 9))         # which and how many precipitation classes, in any order
        fam = dict(MANY, hyds=["cl", "ci"] + [MANY["hyds"][2 + i] for i in rng.permutation(8)[:k]])
        if "pl" not in fam["hyds"]:
            fam["hyds"][2] = "pl"
        fam["rho"] = {h: MANY["rho"][h] for h in fam["hyds"]}
    if family == "NSSL" and rng.uniform() < 0.3:     # the scheme may also run with a fixed density
        fixed = dict(gr=float(rng.uniform(200, 800)), ha=float(rng.uniform(600, 917)))
        fam = dict(fam, rho=dict(fam["rho"], **{h: v for h, v in fixed.items() if rng.uniform() < 0.6}))
    if dims is None:        # dimension names are the model's own business
        dims = DIMS[int(rng.integers(0, len(DIMS)))] if rng.uniform() < 0.35 else DIMS[0]
    m = SynthModel()
    hy = list(hyds or fam["hyds"])
    m.Rho_hyd = {h: 'variable' if fam["rho"][h] is None else fam["rho"][h] * ureg.kg / ureg.m ** 3
                 for h in fam["rho"]}
    m.fluffy = None if fam["fluffy"] is None else {h: v * ureg.dimensionless for h, v in fam["fluffy"].items()}
    if rng.uniform() < (0.25 if family == "P3" else 0.06):     # no fluffiness correction asked for
        m.fluffy = None
    m.lidar_ratio = {h: LR[h] * ureg.dimensionless for h in fam["rho"]}
    m.LDR_per_hyd = {h: LDR[h] / (ureg.kg / ureg.m ** 3) for h in fam["rho"]}
    m.vel_param_a = {h: VEL_A[h] for h in fam["rho"]}
    m.vel_param_b = {h: VEL_B[h] * ureg.dimensionless for h in fam["rho"]}
    if rng.uniform() < 0.35:
        _other_constants(m, rng)
    m._add_vel_units()
    m.hyd_types = hy
    m.q_names_stratiform = {h: f"qs_{h}" for h in fam["rho"]}
    m.q_names_convective = {h: f"qc_{h}" for h in fam["rho"]}
    m.N_field = {h: f"n_{h}" for h in fam["rho"]}
    m.strat_frac_names = {h: f"fs_{h}" for h in fam["rho"]}
    m.strat_frac_names_for_rad = {h: f"fsr_{h}" for h in fam["rho"]}
    m.conv_frac_names = {h: f"fc_{h}" for h in fam["rho"]}
    m.conv_frac_names_for_rad = {h: f"fcr_{h}" for h in fam["rho"]}
    m.strat_re_fields = {h: f"res_{h}" for h in fam["rho"]}
    m.conv_re_fields = {h: f"rec_{h}" for h in fam["rho"]}
    m.T_field, m.q_field, m.p_field, m.z_field = "tair", "qvap", "pres", "zhgt"
    m.time_dim, m.height_dim = dims
    m.process_conv = process_conv
    m.mcphys_scheme, m.rad_scheme_family, m.model_name = fam["mc"], fam["rad"], fam["name"]
    if fam["mc"] != "P3" and rng.uniform() < 0.4:      # any of the equivalent spellings of the scheme
        m.mcphys_scheme = str(rng.choice(["NSSL", "nssl"] if fam["mc"] == "NSSL" else
                                         ["MG2", "MG", "Morrison", "mg2", "mg", "morrison"]))
    if fam["name"] not in ("ModelE", "DHARMA") and rng.uniform() < 0.5:    # a name alone decides nothing else
        m.model_name = str(rng.choice(["CESM2", "E3SMv1", "E3SMv3", "WRF", "SCREAM", "UM"]))
    if rho_ref:
        m.Vd_rhoa_scaling_ref = {h: RHO_REF.get(h) for h in hy if h in RHO_REF}
        if rng.uniform() < 0.5:
            m.Vd_rhoa_scaling_ref["cl"] = 1.0
    z, t, p, qv = atmosphere(rng, T, H)
    ds = xr.Dataset(coords={dims[0]: np.datetime64("2020-01-01") + np.arange(T) * np.timedelta64(600, "s")})

    def put(name, v, units=""):
        ds[name] = xr.DataArray(np.array(v, dtype="float64"), dims=dims, attrs={"units": units})

    put("pres", p if p_units == "hPa" else p * 100., p_units)
    put("tair", t if t_units == "K" else t - 273.15, t_units)
    put("zhgt", z if z_units == "m" else z / 1e3, z_units)
    put("qvap", qv, "kg/kg")
    modes = ["mixed", "deep", "sparse", "full"]
    probs = [0.4, 0.4, 0.1, 0.1]
    for h in fam["rho"]:
        for kind in ("s", "c"):
            if kind == "c" and not process_conv:
                continue
            put(f"q{kind}_{h}", q_field(rng, T, H, q_mode), "kg/kg")
            for r in ("", "r"):
                fm = frac_mode or rng.choice(modes, p=probs)
                put(f"f{kind}{r}_{h}", frac_field(rng, T, H, N, fm), "1")
            if h[-1] == "l":
                re = np.exp(rng.uniform(np.log(3.), np.log(400. if h == "pl" else 40.), size=(T, H)))
            else:
                re = np.exp(rng.uniform(np.log(4.), np.log(900.), size=(T, H)))
            if re_nan:
                re = np.where(ds[f"q{kind}_{h}"].values > 1e-18, re, np.nan)
            put(f"re{kind}_{h}", re, "um")
        nmag = {"cl": (10, 500), "pl": (1e-4, 1e-1), "ci": (1e-3, 1.0)}.get(h, (1e-4, 1e-1))
        put(f"n_{h}", np.exp(rng.uniform(np.log(nmag[0]), np.log(nmag[1]), size=(T, H))), "cm-3")
    m.variable_density = {h: f"rho_{h}" for h in fam["rho"] if fam["rho"][h] is None}
    for h in m.variable_density:
        put(f"rho_{h}", rng.uniform(120, 950, size=(T, H)), "kg / m ** 3")
    if relvar:
        m.strat_relvar_name = "relvar"
        put("relvar", rng.uniform(0.2, 3.0, size=(T, H)), "1")
    if fam["rad"] in ("CESM", "P3"):
        m.lambda_field = {h: None for h in fam["rho"]}
        m.mu_field = {h: None for h in fam["rho"]}
        lut = _instrument(lut_inst).bulk_table["CESM_liq"]
        lam, mu = lut["lambda"].values, lut["mu"].values
        for h in ("cl", "pl"):
            m.lambda_field[h], m.mu_field[h] = f"lam_{h}", f"mu_{h}"
            mui = rng.uniform(np.min(mu), np.max(mu), size=(T, H))
            # inside the common range of lambda for these mu
            lo, hi = np.log(np.max(np.min(lam, axis=_lam_axis(lut)))), np.log(np.min(np.max(lam, axis=_lam_axis(lut))))
            put(f"lam_{h}", np.exp(rng.uniform(lo, hi, size=(T, H))), "m-1")
            put(f"mu_{h}", mui, "1")
    m.ds = ds
    m.ds["rho_a"] = xr.DataArray(p * 100. / (R_D * t), dims=dims, attrs={"units": "kg / m ** 3"})
    if family == "P3":
        _add_p3(m, rng, T, H, lut_inst, hybrid, put)
    if single if single is not None else rng.uniform() < SINGLE_SHARE:
        _single_precision(m, N)
    return m


def _other_constants(m, rng):
    """The constants of a class belong to the model: any physical value may come."""
    for h, v in m.Rho_hyd.items():
        if not isinstance(v, str) and h[-1] != "l":
            m.Rho_hyd[h] = v * float(rng.uniform(0.6, 1.2))
    for h in (m.fluffy or {}):
        m.fluffy[h] = float(rng.uniform(0, 1)) * ureg.dimensionless
    for d, lo, hi in ((m.lidar_ratio, 0.5, 2.), (m.LDR_per_hyd, 0.3, 1.5), (m.vel_param_a, 0.3, 2.5),
                      (m.vel_param_b, 0.8, 1.2)):
        for h in d:
            d[h] = d[h] * float(rng.uniform(lo, hi))


def _single_precision(m, N):
    """Model output is usually stored in single precision.  Values on a knife's edge are moved off it first."""
    core.rtol_floor = 2e-3
    for v in m.ds.data_vars:
        if v.endswith("_ice"):
            continue                # P3 lookups come out in double precision
        a, x = dict(m.ds[v].attrs), m.ds[v].values
        if v[:2] in ("qs", "qc"):
            x = np.where((x > 0.9e-18) & (x < 1.1e-18), 0.9e-18, x)
        elif v[:2] in ("fs", "fc"):
            k = np.floor(x * N)
            x = np.where(np.abs(x * N - k - 0.5) < 1e-3, k / N, x)
        m.ds[v] = xr.DataArray(np.asarray(x, dtype="float32"), dims=m.ds[v].dims, attrs=a)


def _lam_axis(lut):
    d = lut["lambda"].dims
    return [i for i, x in enumerate(d) if x != "mu"][0] if "mu" in d else 0


def _add_p3(m, rng, T, H, lut_inst, hybrid, put):
    from scipy.interpolate import RegularGridInterpolator
    from scipy.special import gamma
    lut = m.p3_lut = _instrument(lut_inst).scat_table["p3_ice"]
    x, y, zq = (lut[k].values for k in ("Fr", "rho_r", "q_norm"))
    put("Fr", rng.uniform(x.min(), x.max(), size=(T, H)))
    put("rho_r", rng.uniform(y.min(), y.max(), size=(T, H)))
    put("qi_norm", np.exp(rng.uniform(np.log(zq.min() * 1.01), np.log(zq.max() * 0.99), size=(T, H))))
    put("in_cld_Ni", 10 ** rng.uniform(1, 5, size=(T, H)), "m-3")
    pts = (m.ds["Fr"].values, m.ds["rho_r"].values, m.ds["qi_norm"].values)
    lam = RegularGridInterpolator((x, y, zq), lut["lambda"].values, bounds_error=False)(pts)
    put("lambda_ice", lam)
    mu = np.clip(0.076 * (lam / 100.) ** 0.8 - 2, 0, 6)
    put("mu_ice", mu)
    put("N0_norm_ice", lam ** (mu + 1) / gamma(mu + 1))
    m.lambda_field["ci"], m.mu_field["ci"] = "lambda_ice", "mu_ice"
    m.p3_kws = {"in_cld_Ni_name": "in_cld_Ni", "N0_ice_name": "N0_norm_ice", "use_hybrid_scat": hybrid}
    m.interpobj = {"single": {}, "bulk": {}}
    for key in ["A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "vt_m_weight", "Z", "ri_eff", "Dm_m_weight",
                "rho_m_weight"]:
        m.interpobj["bulk"][key] = RegularGridInterpolator((x, y, zq), lut[key].values, bounds_error=False)
    for key in ["vt", "A", "V"] + (["D_eq_vol_sphere"] if hybrid else []):
        m.interpobj["single"][key] = RegularGridInterpolator((x, y, lut["p_diam"].values), lut[key].values,
                                                             bounds_error=False)


def clone(m):
    """Independent copy of a model (data deep-copied, configuration shared by value)."""
    c = copy.copy(m)
    c.ds = m.ds.copy(deep=True)
    if hasattr(m, "interpobj"):
        c.interpobj = {k: dict(v) for k, v in m.interpobj.items()}
    return c


def put_subcolumns(m, rng, N, conv=None, cover=0.6, n_zero=0.0, top=True):
    """Directly install subcolumn presence, mixing ratio and number (as the generator would), for forward tests."""
    T, H = m.ds["tair"].shape
    dims = ("subcolumn",) + m.ds["tair"].dims
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
        for h in m.hyd_types:
            f = rng.uniform(size=(N, T, H)) < cover
            if rng.uniform() < 0.3:
                f[:, rng.integers(0, T)] = False
            f &= (rng.uniform(size=(1, T, H)) < 0.85)
            if not top:
                f[:, :, -1] = False
            q = np.where(f, 1e-4 * 10 ** rng.uniform(-3, 1, size=(N, T, H)), 0.)
            m.ds[f"{cloud}_frac_subcolumns_{h}"] = xr.DataArray(f, dims=dims)
            m.ds[f"{cloud}_q_subcolumns_{h}"] = xr.DataArray(q, dims=dims)
            if cloud == "strat":
                nn = m.ds[m.N_field[h]].values[None] * rng.uniform(0.5, 2, size=(N, T, H))
                m.ds[f"strat_n_subcolumns_{h}"] = xr.DataArray(np.where(f, nn, 0.), dims=dims)
    return m


def regional(m, rng, nlat, nlon, nt, use_lon=True, stack=True):
    """Turn a (time x height) model of nlat*nlon*nt columns into a regional one (time, lat[, lon], height in any order),
    then optionally stack it for processing.  Returns the regional dataset (before stacking)."""
    t, h = m.time_dim, m.height_dim
    n = nlat * (nlon if use_lon else 1) * nt
    assert m.ds.sizes[t] == n
    shape, dims = ((nt, nlat, nlon), (t, "lat", "lon")) if use_lon else ((nt, nlat), (t, "lat"))
    ds = xr.Dataset(coords={t: np.datetime64("2020-01-01") + np.arange(nt) * np.timedelta64(600, "s"),
                            "lat": np.sort(rng.uniform(-80, 80, nlat)),
                            h: np.arange(m.ds.sizes[h]) * 1.0})
    if use_lon:
        ds = ds.assign_coords(lon=np.sort(rng.uniform(0, 360, nlon)))
    order = list(dims) + [h]
    for k in m.ds.data_vars:
        v = m.ds[k].transpose(t, h).values.reshape(shape + (m.ds.sizes[h],))
        da = xr.DataArray(v, dims=order, attrs=m.ds[k].attrs)
        if rng.uniform() < 0.5:
            da = da.transpose(*[order[i] for i in rng.permutation(len(order))])
        ds[k] = da
    m.ds = ds
    m.lat_dim, m.lon_dim = "lat", "lon"
    m.stacked_time_dim = None
    region = ds.copy(deep=True)
    if stack:
        m.check_and_stack_time_lat_lon()
    return region
