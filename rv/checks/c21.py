"""C21: instruments: constants, frequency/wavelength, scattering tables as stored, loaders, independence."""
import os
import shutil
import tempfile

import netCDF4
import numpy as np
import xarray as xr

import emc2
from emc2.core.instrument import Instrument, ureg
from emc2.io import load_mie_file, load_scat_file, load_bulk_scat_file
from .. import core, common

PROPERTY = "C21"
RULE = ("every instrument class with every site, temperature and table option is constructed by the real code; constants "
        "are compared with the documented table, every value of every loaded table with an independent parse of the "
        "file it must come from (unit conversions applied by the oracle), physical constraints (monotonic sizes, "
        "non-negative cross sections, scattering <= extinction, size parameter, wavelength and refractive index of the "
        "instrument itself) are monitored on every entry; generated files of random length and format go through the "
        "loaders; instruments are loaded repeatedly, mutated and reloaded; distinct states are instrument/option pairs")
REQUIRED = {"tables": 500000, "physics": 100000, "constants": 500, "frequency": 200, "reject": 8, "loader": 20000,
            "independence": 100000, "units": 500, "observations": 1000}
C = 299792458.0
TABLES = os.path.join(core.REPO, "emc2", "core")
PHASE = [{'class': 'ice', 'class_ind': 2, 'LDR': [0., 0.1, 0.100001, 0.2, 1.], 'beta_p': [2e-5, 2e-5, 2e-6, 5e-7, 5e-7]},
         {'class': 'undef2', 'class_ind': 4, 'LDR': [0., 0.1, 0.100001, 0.2, 0.200001, 1.],
          'beta_p': [2e-5, 2e-5, 2e-6, 9e-6, 1., 1.]},
         {'class': 'undef1', 'class_ind': 3, 'LDR': [0., 0.1, 0.100001, 0.2, 0.200001, 1.],
          'beta_p': [2e-5, 2e-5, 1.41421e-4, 1e-3, 1., 1.]},
         {'class': 'liquid', 'class_ind': 1, 'LDR': [0., 0.2, 0.200001, 1.], 'beta_p': [2e-5, 1e-3, 1., 1.]}]
nan = np.nan
# name: instrument_str, class, GHz or micrometres, |K_w|^2, refractive index (supercooled, warm), extra constants
SPEC = {
    "CSAPR": ("CSAPR", "radar", 6.25, .93, 7.434422 + 2.854179j, 8.474673 + 1.2560015j,
              dict(Z_min_1km=-35., theta=.9, pt=125000., gain=10 ** 4.51, OD_from_sfc=True)),
    "XSACR": ("XSACR", "radar", 9.71, .93, 6.257395 + 3.018481j, 8.112180 + 1.7811075j,
              dict(Z_min_1km=-30., theta=1.4, pt=20000., gain=10 ** 4.2, OD_from_sfc=True)),
    "KAZR": ("KAZR", "radar", 34.86, .88, 3.658396 + 1.987225j, 5.489262 + 2.8267679j, dict(OD_from_sfc=True)),
    "WACR": ("WACR", "radar", 95.04, .84, 2.820550 + 1.123154j, 3.468221 + 2.1423486j, dict(OD_from_sfc=True)),
    "NEXRAD": ("NEXRAD", "radar", 3.0, .92, 8.851160 + 1.940795j, 8.743107 + 0.64089981j,
               dict(Z_min_1km=-50.96, Z_min_1km_short=-41.48, theta=.925, pt=700000., gain=10 ** 4.58, OD_from_sfc=True,
                    lr=nan, pr_noise_ge=0., tau_ge=1.57, tau_md=4.71)),
    "RL": ("RL", "lidar", .355, nan, 1.357247 + 2.4198595e-9j, None, dict(ext_OD=4, OD_from_sfc=True, eta=1)),
    "HSRL": ("HSRL", "lidar", .532, nan, 1.337273 + 1.7570744e-9j, None, dict(ext_OD=4, OD_from_sfc=True, eta=1)),
    "CALIOP": ("HSRL", "lidar", .532, nan, 1.337273 + 1.7570744e-9j, None, dict(ext_OD=4, OD_from_sfc=False, eta=.7)),
    "CEIL": ("CEIL", "lidar", .910, nan, 1.3251203 + 5.1409006e-7j, 1.323434 + 5.6988883e-7j,
             dict(ext_OD=4, OD_from_sfc=True, eta=1)),
    "Ten64nm": ("1064nm", "lidar", 1.064, nan, 1.3235222 + 1.2181699e-6j, 1.320416 + 1.2588968e-6j,
                dict(ext_OD=4, OD_from_sfc=True, eta=1)),
}
ALIAS = {"MPL": "HSRL", "HSRL1064": "Ten64nm", "MWACR": "WACR", "BASTA": "WACR"}
NOISE = dict(lr=nan, pr_noise_ge=nan, pr_noise_md=nan, tau_ge=nan, tau_md=nan)
SITES = {"KAZR": dict(sgp=dict(NOISE, Z_min_1km=-51.5, theta=.2, pt=2000., gain=10 ** 5.748),
                      ena=dict(NOISE, Z_min_1km=-56.5, theta=.31, pt=2200., tau_ge=.2, tau_md=4.),
                      nsa=dict(Z_min_1km=-48.5, theta=.31, pt=2000., gain=10 ** 5.337, lr=10 ** .4,
                               pr_noise_ge=10 ** -6.85, pr_noise_md=10 ** -7.23, tau_ge=.3, tau_md=4.),
                      awr=dict(NOISE, Z_min_1km=-45.5, theta=.31, pt=2000., gain=10 ** 5.273),
                      mos=dict(NOISE, Z_min_1km=-41.6, theta=.31, pt=2000., gain=10 ** 5.273)),
         "WACR": dict(sgp=dict(NOISE, Z_min_1km=-46., theta=.19, pt=1513., gain=10 ** 3.94, tau_ge=.3),
                      awr=dict(NOISE, Z_min_1km=-40., theta=.38, pt=1500., gain=10 ** 3.78, tau_ge=.3),
                      mos=dict(NOISE, Z_min_1km=-40., theta=.38, pt=1500., gain=10 ** 3.78, tau_ge=.3),
                      micre=dict(NOISE, Z_min_1km=-36., theta=.38, pt=1500., tau_ge=.3))}


def variants():
    out = []
    for name in list(SPEC) + list(ALIAS):
        base = ALIAS.get(name, name)
        sites = list(SITES.get(base, {None: 0}))
        temps = [True, False] if SPEC[base][5] is not None else [None]
        for k, s in enumerate(sites):
            for t in (temps if name in SPEC else temps[:1]):
                for dh in ((False, True) if k == 0 and name in SPEC else (False,)):
                    out.append((name, s, t, dh))
    return out


VARIANTS = variants()


def plan(tier):
    n = 3 if tier == "quick" else 12
    return [("tables", len(VARIANTS)), ("physics", 18), ("constants", len(VARIANTS) * (1 if tier == "quick" else 3)),
            ("generic", 60 * n), ("loaders", 120 * n), ("independence", 20 * n), ("reject", 8), ("observations", 24 * n)]


def build(name, site, warmcold, dharma, rng=None):
    cls = getattr(emc2.core.instruments, name)
    args = []
    if site is not None:
        args.append(site if rng is None or rng.integers(0, 2) else site.upper())
    extra = ("DHARMA",) if dharma else ()
    base = ALIAS.get(name, name)
    if warmcold is not None:
        if dharma:
            args.append(warmcold)
            if base == "CSAPR":
                args.append(90.)
        elif warmcold is False:
            args.append(False)
        elif rng is not None and rng.integers(0, 2):
            args.append(True)
    return cls(*args, *extra)


# -- independent parsers ------------------------------------------------------
def parse(path, comma):
    rows = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            parts = [x.strip() for x in line.split(",")] if comma else line.split()
            row = []
            for x in parts:
                try:
                    row.append(float(x))
                except ValueError:
                    row.append(np.nan)
            rows.append(row)
    w = max(map(len, rows))
    return np.array([r + [np.nan] * (w - len(r)) for r in rows])


def mie_expected(path):
    a = parse(path, False)
    n = ["wavelength", "p_diam", "size_parameter", "compre_real", "compre_im", "scat_p", "alpha_p", "beta_p", "scat_eff",
         "ext_eff", "backscat_eff"]
    d = {k: a[:, i] for i, k in enumerate(n)}
    d["p_diam"] = d["p_diam"] * 2e-6                       # stored as radii in microns
    for k in ("scat_p", "alpha_p"):
        d[k] = d[k] * 1e-12
    d["beta_p"] = d["beta_p"] * 1e-12 / (4 * np.pi)
    d["backscat_eff"] = d["backscat_eff"] / (4 * np.pi)
    return d


def scat_expected(path, radar, kind):
    a = parse(path, True)
    n = ["frequency" if radar else "wavelength", "p_diam", "p_diam_eq_A", "p_diam_eq_V"]
    n += ["V", "A", "beta_p", "scat_p", "alpha_p", "beta_p_cross"] if kind == "C6" else \
        ["p_diam_eq_VdivA", "V", "A", "beta_p", "scat_p", "alpha_p"]
    scale = {"V": 1e-18, "A": 1e-12, "beta_p": 1e-12, "scat_p": 1e-12, "alpha_p": 1e-12, "beta_p_cross": 1e-12,
             "frequency": 1., "wavelength": 1.}
    return {k: a[:, i] * scale.get(k, 1e-6) for i, k in enumerate(n)}


def bulk_expected(path, kind):
    a = parse(path, True)
    n = ["r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio"] if kind == "C6" else \
        ["D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"]
    d = {k: a[:, i] for i, k in enumerate(n)}
    if kind != "C6":
        d["r_e"] = d["D_e"] / 2.
    return d


def numbers(v):
    out = np.empty(v.shape)
    for i, x in np.ndenumerate(v):
        try:
            out[i] = float(x)
        except (TypeError, ValueError):
            out[i] = np.nan
    return out


def same_table(case, mon, table, exp, what):
    for k, e in exp.items():
        if k not in table.variables:
            case.see(mon)
            case.fail(mon, f"{what}: variable {k} is missing")
            continue
        v = table[k].values
        case.equal(mon, v if v.dtype.kind == "f" else numbers(v), e, rtol=1e-9, what=f"{what}: {k}")


UNITS = {"meters": "m", "m": "m", "meter": "m", "microns": "um", "um": "um", "micrometers": "um", "meters^2": "m2", "m^2": "m2",
         "microns^2": "um2", "um^2": "um2", "meters^3": "m3", "m^3": "m3", "microns^3": "um3", "um^3": "um3"}


def check_units(case, table, want, what):
    for k, u in want.items():
        if k in table.variables:
            got = table[k].attrs.get("units")
            case.check(got is None or UNITS.get(got, got) == u, "units", f"{what}: {k} is in {u} but labelled {got!r}")


SIZE_UNITS = {"p_diam": "m", "p_diam_eq_A": "m", "p_diam_eq_V": "m", "p_diam_eq_VdivA": "m", "A": "m2", "V": "m3",
              "beta_p": "m2", "alpha_p": "m2", "scat_p": "m2", "beta_p_cross": "m2"}


def tables(case):
    name, site, t, dh = VARIANTS[case.index]
    inst = build(name, site, t, dh)
    check_tables(case, inst, name, t, dh, "tables")
    case.state(name, site, t, dh)


def check_tables(case, inst, name, t, dh, mon):
    base = ALIAS.get(name, name)
    s, radar = SPEC[base][0], SPEC[base][1] == "radar"
    liq = "liq_c" if (t is None or t) and base not in ("RL", "HSRL", "CALIOP") else "liq"
    f = lambda *p: os.path.join(TABLES, *p)
    for h, suf in (("cl", liq), ("pl", liq), ("ci", "ci"), ("pi", "pi1" if dh else "pi")):
        same_table(case, mon, inst.mie_table[h], mie_expected(f("mie_tables", f"Mie{s}_{suf}.dat")),
                   f"{name} Mie table of {h}")
        check_units(case, inst.mie_table[h], SIZE_UNITS, f"{name} Mie table of {h}")
    same_table(case, mon, inst.scat_table["E3_ice"],
               scat_expected(f("c6_tables", f"C6_{s}_8col_agg_rough_270K.dat"), radar, "C6"), f"{name} C6 ice table")
    same_table(case, mon, inst.scat_table["CESM_ice"],
               scat_expected(f("mDAD_tables", f"mDAD_{s}_ice.dat"), radar, "mDAD"), f"{name} mDAD ice table")
    for k in ("E3_ice", "CESM_ice"):
        check_units(case, inst.scat_table[k], SIZE_UNITS, f"{name} {k} scattering table")
    for k, d, fn, kind in (("E3_ice", "bulk_c6_tables", f"bulk_{s}_C6PSD_c6_8col_ice_agg_rough_270K.dat", "C6"),
                           ("E3_liq", "bulk_c6_tables", f"bulk_{s}_C6PSD_mie_{liq}.dat", "C6"),
                           ("mie_ice_E3_PSD", "bulk_c6_tables", f"bulk_{s}_C6PSD_mie_ice.dat", "C6"),
                           ("CESM_ice", "bulk_mDAD_tables", f"bulk_{s}_mDAD_mDAD_ice_263K.dat", "mDAD"),
                           ("mie_ice_CESM_PSD", "bulk_mDAD_tables", f"bulk_{s}_mDAD_mie_ice.dat", "mDAD")):
        same_table(case, mon, inst.bulk_table[k], bulk_expected(f(d, fn), kind), f"{name} bulk table {k}")
        check_units(case, inst.bulk_table[k], {"r_e": "um", "D_e": "um"}, f"{name} bulk table {k}")
    with netCDF4.Dataset(f("bulk_mDAD_tables", f"bulk_{s}_mDAD_mie_{liq}.nc")) as nc:
        for k in ("CESM_liq", "p3_liq"):
            for v in nc.variables:
                case.equal(mon, inst.bulk_table[k][v].values, np.ma.filled(nc[v][:].astype(float), np.nan), rtol=1e-9,
                           what=f"{name} bulk table {k}: {v}")
    with netCDF4.Dataset(f("p3_tables", f"emc2_p3_ice_lut_abrv_full_{s}.nc")) as nc:
        m2 = ["beta_p", "alpha_p", "A", "A_tot_norm", "A_tot_Mie_norm", "beta_p_eq_VdivA", "alpha_p_eq_VdivA",
              "A_tot_eq_VdivA_norm", "beta_p_eq_V", "alpha_p_eq_V", "A_tot_eq_V_norm"]
        scale = {**{k: 1e-12 for k in m2}, "V": 1e-18, "D_eq_VdivA_sphere": 1e-6, "D_eq_vol_sphere": 1e-6}
        for k, tab in (("scat", inst.scat_table["p3_ice"]), ("bulk", inst.bulk_table["p3_ice"]),
                       ("mie bulk", inst.bulk_table["mie_ice_P3_PSD"])):
            for v in nc.variables:
                if nc[v].dtype.kind != "f" and v not in ("d",):
                    continue
                e = np.ma.filled(nc[v][:].astype(float), np.nan) * scale.get(v, 1.)
                if v == "vt":
                    e = np.where(np.isfinite(e), e, np.nanmin(e))
                if v not in tab.variables:
                    case.fail(mon, f"{name} P3 {k} table: {v} is missing")
                    continue
                case.equal(mon, tab[v].values, e, rtol=2e-6 if nc[v].dtype == "f4" else 1e-9, what=f"{name} P3 {k} table: {v}")
            case.equal(mon, tab["p_diam"].values, np.asarray(nc["d"][:], float) * 1e-6, rtol=1e-6,
                       what=f"{name} P3 {k} table: p_diam")
            check_units(case, tab, {"A": "m2", "V": "m3", "A_tot_norm": "m2", "D_eq_vol_sphere": "m",
                                    "D_eq_VdivA_sphere": "m", "A_tot_Mie_norm": "m2"}, f"{name} P3 table")


def physics(case):
    """What every table must satisfy whatever its file says."""
    names = list(SPEC)
    names.remove("CALIOP")
    name = names[case.index // 2]
    t = case.index % 2 == 0
    if SPEC[name][5] is None:
        t = None
    inst = build(name, "sgp" if name in SITES else None, t, False)
    lam = inst.wavelength

    def demand(ok, key, msg):
        ok = np.asarray(ok)
        case.see("physics", ok.size)
        if not ok.all():
            case.fail("physics", f"{name} (supercooled={t}): {msg} ({int((~ok).sum())} of {ok.size} entries)",
                      key=f"physics:{name}:{'cold' if t else 'warm'}:{key}:{msg.split('(')[0].strip()}:{int((~ok).sum())}")

    for h, tb in inst.mie_table.items():
        g = {k: np.asarray(tb[k].values, float) for k in tb.data_vars}
        D = g["p_diam"]
        liq = h[-1] == "l"
        key = "liq" if liq else h
        demand(np.diff(D) > 0, key, f"Mie table of {h}: sizes do not increase")
        demand((D > 1e-8) & (D < 0.1), key, f"Mie table of {h}: sizes are not in metres")
        demand((g["alpha_p"] >= 0) & (g["beta_p"] >= 0) & (g["scat_p"] >= 0), key, f"Mie table of {h}: negative cross section")
        demand(g["scat_p"] <= g["alpha_p"] * 1.001 + 1e-30, key, f"Mie table of {h}: scattering exceeds extinction")
        demand(np.abs(np.pi * D * 1e6 / g["wavelength"] / g["size_parameter"] - 1) < 1e-3, key,
               f"Mie table of {h}: size parameter is not pi D / wavelength")
        demand(np.abs(g["wavelength"] / lam - 1) < (0.08 if name == "NEXRAD" else 0.005), key,
               f"Mie table of {h} was made for another wavelength ({g['wavelength'][0]} um, instrument {lam} um)")
        area = np.pi / 4 * D ** 2
        big = g["alpha_p"] > 1e-20
        demand(np.abs(g["ext_eff"] * area / np.where(big, g["alpha_p"], 1) - 1)[big] < 0.3, key,
               f"Mie table of {h}: extinction cross section is not efficiency times area")
        big = g["beta_p"] > 1e-18
        demand(np.abs(g["backscat_eff"] * area / np.where(big, g["beta_p"], 1) - 1)[big] < 0.35, key,
               f"Mie table of {h}: backscatter cross section is not efficiency times area")
        if liq:
            m = np.sqrt(inst.eps_liq)
            demand(abs(g["compre_real"] + 1j * g["compre_im"] - m) < 2e-3 * abs(m), key,
                   f"Mie table of {h} was made for another refractive index ({g['compre_real'][0]}+{g['compre_im'][0]}j, "
                   f"instrument {m})")
    for k in ("E3_ice", "CESM_ice"):
        tb = inst.scat_table[k]
        g = {v: np.asarray(tb[v].values, float) for v in tb.data_vars}
        demand(np.diff(g["p_diam"]) > 0, k, f"{k} table: sizes do not increase")
        demand((g["p_diam"] > 1e-8) & (g["p_diam"] < 0.1), k, f"{k} table: sizes are not in metres")
        for v, x in g.items():
            demand(x >= 0, k, f"{k} table: {v} is negative")
        demand(g["scat_p"] <= g["alpha_p"] * 1.0001, k, f"{k} table: scattering exceeds extinction")
        fine = g["p_diam"] > 3e-6                                  # the smallest sizes are stored with few digits
        demand((np.abs(g["V"] / (np.pi / 6 * g["p_diam_eq_V"] ** 3) - 1) < 0.02)[fine], k,
               f"{k} table: volume is not that of its equal-volume sphere")
        demand((np.abs(g["A"] / (np.pi / 4 * g["p_diam_eq_A"] ** 2) - 1) < 0.02)[fine], k,
               f"{k} table: area is not that of its equal-area sphere")
        if SPEC[name][1] == "radar":
            demand(np.abs(g["frequency"] / (inst.freq / 1e9) - 1) < 0.25, k, f"{k} table was made for another frequency")
        else:
            demand(np.abs(g["wavelength"] / lam - 1) < 0.02, k, f"{k} table was made for another wavelength")
    for k in ("E3_ice", "E3_liq", "mie_ice_E3_PSD", "CESM_ice", "mie_ice_CESM_PSD"):
        tb = inst.bulk_table[k]
        g = {v: numbers(tb[v].values) for v in tb.data_vars}
        kk = "liq" if "liq" in k else k
        demand(np.diff(g["r_e"]) > 0, kk, f"bulk table {k}: effective radii do not increase")
        demand((g["Q_scat"] >= 0) & (g["Q_ext"] > 0) & (g["Q_back"] >= 0), kk, f"bulk table {k}: negative efficiency")
        demand(g["Q_scat"] <= g["Q_ext"] * 1.01, kk, f"bulk table {k}: scattering exceeds extinction")
        if SPEC[name][1] == "lidar":
            demand(np.abs(g["Q_ext"] / g["Q_back"] / g["lidar_ratio"] - 1) < 0.01, kk,
                   f"bulk table {k}: lidar ratio is not extinction over backscatter")
    lq = inst.bulk_table["CESM_liq"]
    demand(lq["Q_scat"].values <= lq["Q_ext"].values * 1.01, "liq", "bulk table CESM_liq: scattering exceeds extinction")
    demand((lq["Q_ext"].values > 0) & (lq["Q_back"].values >= 0), "liq", "bulk table CESM_liq: negative efficiency")
    demand(np.isfinite(inst.scat_table["p3_ice"]["vt"].values), "p3", "P3 table: fall speeds with gaps")
    case.state("physics", name, t)


def constants(case):
    name, site, t, dh = VARIANTS[case.index % len(VARIANTS)]
    inst = build(name, site, t, dh, case.rng)
    base = ALIAS.get(name, name)
    s, cls, fl, kw, cold, warm, extra = SPEC[base]
    want = dict(extra, K_w=kw, instrument_str=s)
    if site:
        want.update(SITES[base][site])
    if cls == "radar":
        want.update(freq=fl * 1e9, wavelength=C / (fl * 1e9) * 1e6, ext_OD=nan)
    else:
        want.update(freq=C / (fl * 1e-6), wavelength=fl)
    if base in ("KAZR", "WACR") and "gain" not in want:
        want["gain"] = nan
    for k, v in want.items():
        g = getattr(inst, k)
        case.see("constants")
        ok = g == v if isinstance(v, (str, bool)) else (abs(g - v) <= 1e-9 * abs(v) or (g != g and v != v))
        if not ok:
            case.fail("constants", f"{name}({site}): {k} is {g!r}, documented {v!r}")
    if base == "CSAPR":
        case.check(inst.elevation_angle == 90., "constants", f"CSAPR elevation {inst.elevation_angle}")
        low = emc2.core.instruments.CSAPR(elevation_angle=30.) if case.index % 4 == 0 else None
        case.check(low is None or low.elevation_angle == 30., "constants", "CSAPR ignores the elevation angle")
    case.check(inst.instrument_class.lower() == cls, "constants", f"{name} is a {inst.instrument_class}")
    m = warm if t is False else cold
    case.check(abs(inst.eps_liq - m ** 2) < 1e-9 * abs(m ** 2), "constants",
               f"{name}: permittivity of water {inst.eps_liq}, documented {m ** 2}")
    if base in ("HSRL", "RL", "CALIOP"):
        case.check(inst.beta_p_phase_thresh == PHASE, "constants", f"{name}: phase thresholds {inst.beta_p_phase_thresh}")
    case.check(abs(inst.freq * inst.wavelength * 1e-6 / C - 1) < 1e-9, "frequency",
               f"{name}: frequency {inst.freq} Hz and wavelength {inst.wavelength} um disagree")
    case.nontrivial = True
    case.state(name, site, t)


def generic(case):
    rng = case.rng
    v = 10 ** rng.uniform(-1, 5)
    kind = case.index % 3
    if kind == 0:
        u = common.pick(rng, ["Hz", "MHz", "GHz", "THz"])
        inst = Instrument(frequency=v * ureg(u))
        f = v * dict(Hz=1., MHz=1e6, GHz=1e9, THz=1e12)[u]
        lam = C / f * 1e6
    elif kind == 1:
        u = common.pick(rng, ["nanometer", "micrometer", "millimeter", "meter"])
        inst = Instrument(wavelength=v * ureg(u))
        lam = v * dict(nanometer=1e-3, micrometer=1., millimeter=1e3, meter=1e6)[u]
        f = C / (lam * 1e-6)
    else:
        f = v * 1e9
        lam = C / f * 1e6
        inst = Instrument(frequency=v * ureg.GHz, wavelength=lam * 1e-3 * ureg.millimeter)
    case.equal("frequency", [inst.freq, inst.wavelength], [f, lam], rtol=1e-10, what="frequency and wavelength")
    case.check(abs(inst.freq * inst.wavelength * 1e-6 / C - 1) < 1e-9, "frequency", "frequency x wavelength is not c")
    other = Instrument(frequency=1. * ureg.GHz)
    inst.mie_table["cl"] = inst.scat_table["x"] = inst.bulk_table["y"] = 1
    inst.beta_p_phase_thresh.append(1)
    case.check(not other.mie_table and not other.scat_table and not other.bulk_table and not other.beta_p_phase_thresh,
               "independence", "instruments share tables")
    case.state("generic", kind)


def reject(case):
    I = emc2.core.instruments
    bad = [lambda: I.KAZR("xyz"), lambda: I.WACR("nsa"), lambda: I.KAZR("micre"), lambda: I.WACR("ena"),
           lambda: I.KAZR(""), lambda: I.MWACR("foo"), lambda: Instrument(), lambda: I.BASTA("sg")]
    case.raises("reject", ValueError, bad[case.index])
    case.state("reject", case.index)


def loaders(case):
    """Any file in the documented layout is read back exactly."""
    rng = case.rng
    n = int(rng.integers(1, 60))
    d = tempfile.mkdtemp(prefix="rv_c21_")
    path = os.path.join(d, "t.dat")

    def num(x):
        return common.pick(rng, ["%.12e", "%.10E", "%.15g", "%+.11e"]) % x

    def write(a, sep):
        with open(path, "w") as f:
            for r in a:
                if sep == ",":
                    f.write((common.pick(rng, [",", ", ", ",   "])).join(num(x) for x in r))
                    f.write("," if False else "")
                else:
                    f.write(" " * int(rng.integers(1, 5)) + common.pick(rng, [" ", "    ", "\t"]).join(num(x) for x in r))
                f.write("\n")

    kind = case.index % 5
    try:
        if kind == 0:
            write(10 ** rng.uniform(-12, 5, size=(n, 11)), " ")
            same_table(case, "loader", load_mie_file(path), mie_expected(path), "generated Mie file")
        elif kind in (1, 2):
            ty = "C6" if kind == 1 else "mDAD"
            radar = bool(rng.integers(0, 2))
            write(10 ** rng.uniform(-12, 5, size=(n, 10)), ",")
            got = load_scat_file(path, radar, param_type=ty) if ty != "C6" or rng.integers(0, 2) else \
                load_scat_file(path, radar)
            same_table(case, "loader", got, scat_expected(path, radar, ty), f"generated {ty} file (radar={radar})")
            check_units(case, got, SIZE_UNITS, f"generated {ty} file")
            case.check(("frequency" in got) == radar and ("wavelength" in got) != radar, "loader",
                       "first column has the wrong name")
        else:
            ty = "C6" if kind == 3 else "mDAD"
            write(10 ** rng.uniform(-6, 3, size=(n, 7 if ty == "C6" else 5)), ",")
            got = load_bulk_scat_file(path) if ty == "C6" else load_bulk_scat_file(path, param_type="mDAD")
            same_table(case, "loader", got, bulk_expected(path, ty), f"generated bulk {ty} file")
        case.state("loader", kind)
    finally:
        shutil.rmtree(d)


def independence(case):
    rng = case.rng
    name, site, t, dh = VARIANTS[int(rng.integers(0, len(VARIANTS)))]
    a = build(name, site, t, dh)
    for tabs in (a.mie_table, a.scat_table, a.bulk_table):         # vandalise the first instance
        for k in list(tabs):
            for v in list(tabs[k].variables):
                if tabs[k][v].dtype.kind == "f":
                    tabs[k][v] = tabs[k][v] * 3.
            for v in list(tabs[k].data_vars):
                if tabs[k][v].dtype.kind == "f" and tabs[k][v].values.flags.writeable:
                    tabs[k][v].values[...] = -1.
    a.beta_p_phase_thresh = []
    if rng.integers(0, 2):
        b = build(name, site, t, dh)
    else:                                                          # reload the same instrument
        b = a
        kw = [] if t is None else [t]
        b.load_instrument_scat_files(*([t if t is not None else True] + (["DHARMA"] if dh else [])))
    check_tables(case, b, name, t, dh, "independence")
    if b is not a:
        case.check(b.mie_table is not a.mie_table and b.scat_table is not a.scat_table, "independence", "shared tables")
    case.state("independence", name, b is a)


def observations(case):
    rng = case.rng
    d = tempfile.mkdtemp(prefix="rv_c21_")
    try:
        n, h = int(rng.integers(1, 20)), int(rng.integers(1, 30))
        ds = xr.Dataset({"beta": (("time", "altitude"), rng.normal(size=(n, h))), "ldr": (("time",), rng.normal(size=n))},
                        coords=dict(time=np.datetime64("2020-01-01", "ns") + np.arange(n) * np.timedelta64(30, "s"),
                                    altitude=np.arange(h) * 30.))
        ds["beta"].attrs["units"] = "1/m"
        path = os.path.join(d, "sgphsrl.b1.20200101.000000.nc")
        ds.to_netcdf(path)
        inst = Instrument(wavelength=0.532 * ureg.micrometer)
        inst.read_arm_netcdf_file(path)
        for v in ("beta", "ldr", "altitude"):
            case.equal("observations", inst.ds[v].values, ds[v].values, rtol=0, what=f"observed {v}")
        case.check(np.array_equal(inst.ds["time"].values.astype("M8[s]"), ds["time"].values.astype("M8[s]")), "observations",
                   "observation times differ")
        inst.ds.close()
        case.state("obs")
    finally:
        shutil.rmtree(d)


SCENARIOS = dict(tables=tables, physics=physics, constants=constants, generic=generic, loaders=loaders,
                 independence=independence, reject=reject, observations=observations)
