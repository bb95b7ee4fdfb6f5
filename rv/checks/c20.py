"""C20: model readers: every derived field against the contents of the generated file."""
import json
import os
import shutil
import tempfile

import numpy as np
import xarray as xr
from scipy.special import gamma

import emc2
import emc2.core.model as core_model
from .. import common

PROPERTY = "C20"
RULE = ("E3SM-, CESM-, ModelE-, DHARMA- and WRF-like files with random contents, sizes, single and multiple columns, "
        "coordinate orders and time stamps are written and read by the real reader classes with every option; each value "
        "of each field is looked up in the file through its own time, latitude and longitude stamps and compared with an "
        "independent derivation (hybrid pressure, density, number, radius, P3 fields, table-limited fields and trilinear "
        "interpolation); distinct states are reader/option/layout combinations")
REQUIRED = {"file-field": 50000, "pressure": 5000, "density": 5000, "number": 10000, "radius": 10000, "p3": 5000,
            "lut-range": 1000, "orientation": 100, "crop": 100, "reject": 4, "setup": 500, "settings": 5000}
RD = 287.058
PRE = {"cl": ("NUMLIQ", "FREQL", "AREL", "CLDLIQ"), "ci": ("NUMICE", "FREQI", "AREI", "CLDICE"),
       "pl": ("NUMRAI", "FREQR", "ADRAIN", "RAINQM"), "pi": ("NUMSNO", "FREQS", "ADSNOW", "SNOWQM")}


SETTINGS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "reader_settings.json")
_settings = {}


def plain(x):
    """A setting as plain numbers (SI) and text."""
    if hasattr(x, "magnitude"):
        b = x.to_base_units()
        return [float(b.magnitude), str(b.dimensionality)]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (np.integer, np.floating)):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def agree(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and all(k in a and agree(a[k], v) for k, v in b.items())
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(map(agree, a, b))
    if isinstance(b, float) and not isinstance(a, (str, bool)) and a is not None:
        return abs(a - b) <= 1e-9 * abs(b)
    return a == b


def settings(case, m, label):
    """Constants and field names of every class as documented for the reader (rv/reader_settings.json)."""
    if not _settings:
        with open(SETTINGS) as f:
            _settings.update(json.load(f))
    for k, v in _settings[label].items():
        got = plain(getattr(m, k, None))
        case.check(agree(got, v), "settings", f"{label}: {k} is {got}, documented {v}")


def plan(tier):
    n = 1 if tier == "quick" else 25
    return [("e3sm", 500 * n), ("p3", 250 * n), ("modele", 150 * n), ("dharma", 150 * n), ("wrf", 150 * n), ("reject", 6 * n)]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="rv_c20_", dir="/tmp")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def layout(rng, kinds=("plain", "one", "region", "lines", "col")):
    kind = common.pick(rng, list(kinds))
    n = lambda a, b: int(rng.integers(a, b))
    s = dict(time=n(1, 6), lev=n(2, 8))
    if kind == "one":
        s.update(lat=1, lon=1)
    elif kind == "region":
        s.update(lat=n(1, 4), lon=n(2, 4))
        if rng.uniform() < .3:
            s["lat"], s["lon"] = s["lon"], 1
    elif kind == "lines":
        s.update(lat=n(2, 5))
    return kind, s


def axes(rng, s, coords, names):
    """Coordinates with distinct unordered-looking values, in one of the usual orders."""
    for d in ("lat", "lon"):
        if d in s:
            v = np.sort(rng.choice(np.arange(-80, 80, 3), s[d], replace=False)).astype(float)
            coords[names[d]] = v[::-1].copy() if rng.uniform() < .3 else v


def sparse(rng, shape, scale, p=.3):
    return np.where(rng.uniform(size=shape) < p, 0., 10 ** rng.uniform(-3, 0, size=shape) * scale)


def take(case, mon, m, name, want, what, rtol=1e-6):
    """Compare a (time-like, height) field of the model with the oracle."""
    if name not in m.ds.variables:
        case.see(mon)
        case.fail(mon, f"{what}: {name} is missing")
        return
    v = m.ds[name]
    if set(v.dims) != {m.time_dim, m.height_dim}:
        case.see(mon)
        case.fail(mon, f"{what}: {name} has dimensions {v.dims}")
        return
    case.equal(mon, v.transpose(m.time_dim, m.height_dim).values, want, rtol=rtol, what=f"{what}: {name}")


def positions(case, m, raw, names, tsel, what):
    """Index of every entry of the model's time dimension in the file: (time, lat, lon) positions."""
    td, ds = m.time_dim, m.ds
    la, lo = names.get("lat"), names.get("lon")
    if m.stacked_time_dim is None:
        k = len(tsel)
        case.check(ds.sizes.get(td) == k, "orientation", f"{what}: {ds.sizes.get(td)} times for {k} in the file")
        return np.asarray(tsel), np.zeros(k, int), np.zeros(k, int)
    t = ds[m.stacked_time_dim].values if m.stacked_time_dim in ds.coords else None
    if names["time"] in raw.coords:
        tv = raw[names["time"]].values
        ti = np.array([int(np.flatnonzero(tv == x)[0]) for x in t])
    else:
        ti = np.asarray(t, int)
    idx = []
    for d in (la, lo):
        if d in raw.dims and d in ds.coords and ds[d].dims == (td,):
            src = raw[d].values
            idx.append(np.array([int(np.flatnonzero(src == x)[0]) for x in ds[d].values]))
        else:
            idx.append(np.zeros(len(ti), int))
    n = len(tsel) * int(np.prod([raw.sizes[d] for d in (la, lo) if d in raw.dims]))
    case.check(len(ti) == n and len(set(zip(ti, *idx))) == n and set(ti) == set(tsel), "orientation",
               f"{what}: stacked positions do not cover the file's columns once each")
    return (ti, *idx)


def column(raw, name, pos, names, flip):
    """The file's field at the given positions, (position, height)."""
    v = raw[name]
    for d in (names.get("lat"), names.get("lon")):
        if d not in v.dims:
            v = v.expand_dims("no_" + str(d))
    order = [names["time"]] + [d if d in raw[name].dims else "no_" + str(d) for d in (names.get("lat"), names.get("lon"))]
    if names["lev"] in v.dims:
        a = v.transpose(*order, names["lev"]).values.astype(float)[pos]
        return a[:, ::-1] if flip else a
    return v.transpose(*order).values.astype(float)[pos]


# -- E3SM family --------------------------------------------------------------
def e3sm_raw(rng, s, kind, p3, dtype):
    names = dict(time="time", lat="lat", lon="lon", lev="lev")
    nt = s["time"]
    coords = dict(lev=np.sort(rng.uniform(1, 1000, s["lev"])))
    if kind == "col":                      # every column has its own time stamp
        names["time"] = "ncol"
    elif kind == "cube":
        names["lat"] = "ncol"
    else:
        axes(rng, s, coords, names)
    tn = names["time"]
    sizes = {tn: nt, "lev": s["lev"], **{names[d]: s[d] for d in ("lat", "lon") if d in s}}
    dims = [tn, "lev"] + [names[d] for d in ("lat", "lon") if d in s]
    shape = [sizes[d] for d in dims]
    d2 = [d for d in dims if d != "lev"]
    f = lambda a: (dims, np.asarray(a, dtype))
    v = {"P0": ((), float(rng.choice([1e5, 1e5, 1.01325e5, 9.7e4]))), "dlev": ("lev", rng.uniform(size=s["lev"])), "hyam": ("lev", np.sort(rng.uniform(0, .2, s["lev"]))),
         "hybm": ("lev", np.sort(rng.uniform(0, .99, s["lev"]))),
         "PS": (d2, rng.uniform(6e4, 1.04e5, [sizes[d] for d in d2]).astype(dtype)),
         "T": f(rng.uniform(200, 305, shape)), "Q": f(rng.uniform(1e-6, 2e-2, shape)),
         "Z3": f(np.sort(rng.uniform(0, 2e4, shape), axis=1)[:, ::-1]), "CLOUD": f(rng.uniform(0, 1, shape)),
         "RELVAR": f(rng.uniform(1, 8, shape)), "PRECT": (d2, rng.uniform(size=[sizes[d] for d in d2]).astype(dtype))}
    if rng.uniform() < .5:
        v["NDAYS"] = (dims, rng.integers(-5, 1000, shape).astype("i4"))
    for h, (N, F, R, q) in PRE.items():
        v[N] = f(sparse(rng, shape, 1e9))
        v[F] = f(sparse(rng, shape, 1.))
        v[R] = f(sparse(rng, shape, 100. if h[0] == "c" else 1e-3))
        v[q] = f(sparse(rng, shape, 1e-3))
    if p3:
        rim = np.where(rng.uniform(size=shape) < .25, 0., rng.uniform(0, 1.1, shape)) * v["CLDICE"][1]
        v["CLDRIM"] = f(rim)
        v["BVRIM"] = f(rim / rng.uniform(20, 1000, shape))
    raw = xr.Dataset(v, coords=coords)
    sec = np.sort(rng.choice(np.arange(0, 600), nt, replace=False)) * 60
    if kind == "col":
        sec = rng.permutation(sec)
        raw["time"] = ("ncol", sec / 86400.)
    else:
        raw = raw.assign_coords(time=("time", sec / 86400.))
    cal = "noleap" if kind == "col" or rng.uniform() < .5 else "standard"
    raw["time"].attrs.update(units="days since 2016-08-18 00:00:00", calendar=cal)
    stamps = np.datetime64("2016-08-18", "ns") + sec * np.timedelta64(1, "s")
    return raw, names, stamps, cal


def e3sm(case, p3=False):
    rng = case.rng
    kind, s = layout(rng, ("plain", "one", "region", "col", "appended", "lines", "cube"))
    app = ""
    if kind == "cube":                     # unstructured grid, every field named after its sub-domain
        s["lat"] = int(rng.integers(1, 5))
        app = common.pick(rng, ["_130e_to_131e_40n_to_41n", "_a1"])
    if kind == "appended":
        s.update(lat=int(rng.integers(1, 4)), lon=int(rng.integers(1, 4)))
        app = common.pick(rng, ["_130e_to_131e_40n_to_41n", "_a1", "_60s_to_30s"])
    cls = "E3SMv3" if p3 else common.pick(rng, ["E3SMv1", "E3SMv3mg"] + (["CESM2"] if kind != "cube" else []))
    dtype = common.pick(rng, ["f4", "f8"])
    raw, names, stamps, cal = e3sm_raw(rng, s, kind, p3, dtype)
    td = names["time"]
    tsel = np.arange(len(stamps))
    kw = {}
    if kind == "col":
        kw["time_dim"] = "ncol"
    if app:
        kw["appended_str"] = True
    if kind == "cube":
        kw["all_appended_in_lat"] = True
    tr = None
    if rng.uniform() < .5:
        a, b = np.sort(rng.choice(np.arange(-60, 660), 2, replace=False))
        t0 = np.datetime64("2016-08-18", "ns")
        tr = np.array([t0 + a * np.timedelta64(60, "s"), t0 + b * np.timedelta64(60, "s")])
        if rng.uniform() < .4 and len(stamps) > 1:
            tr[int(rng.integers(0, 2))] = common.pick(rng, list(stamps))
            tr = np.sort(tr)
        ok = (stamps >= tr[0]) & (stamps < tr[1])
        if ok.any():
            tsel = np.flatnonzero(ok)
        kw["time_range"] = common.pick(rng, [tr, tr.astype("datetime64[s]")]) if rng.uniform() < .8 else tuple(tr)
        case.see("crop")
    if cls in ("E3SMv1", "E3SMv3", "E3SMv3mg"):
        if rng.uniform() < .4:
            kw["include_rain_in_rt"] = True
    single = False
    if cls == "E3SMv1" and rng.uniform() < .3:
        kw["single_ice_class"] = single = True
    if cls.startswith("E3SMv3"):
        single = True
        if not p3:
            kw["mcphys_scheme"] = "MG2"
    inst = None
    if p3 and rng.uniform() < .7:
        inst = INST[common.pick(rng, ["HSRL", "KAZR"])]()
        kw.update(instrument=inst, use_hybrid_scat=common.pick(rng, [False, True, 2]))
    with Scratch() as d:
        path = os.path.join(d, "x.eam.h1.2016-08-18-00000.nc")
        out = raw
        if app:
            out = raw.rename({k: k + app for k in raw.variables if k not in ("time", "lev", "P0", "hyam", "hybm", "dlev")
                              and (k in ("lat", "lon") or {"lat", "lon", "ncol"} & set(raw[k].dims))})
            if kind == "cube":
                out = out.rename({"ncol": "ncol" + app})
        out.to_netcdf(path)
        m = getattr(emc2.core.model, cls.replace("mg", ""))(path, **kw)
        m.ds.load()
        m.ds.close()
    what = f"{cls} ({kind})"
    hyds = ["cl", "ci"] + (["pl"] if kw.get("include_rain_in_rt") else []) + ([] if single else ["pi"])
    case.check(list(m.hyd_types) == hyds, "setup", f"{what}: hydrometeor classes {m.hyd_types}, expected {hyds}")
    case.check(m.model_name == cls.replace("mg", ""), "setup", f"{what}: called {m.model_name}")
    settings(case, m, f"{cls}{' single ice' if single else ''}")
    if kind == "cube":
        raw = raw.assign_coords(ncol=np.arange(raw.sizes["ncol"]))
    if kind != "col":
        raw = raw.assign_coords(time=stamps)
    pos = positions(case, m, raw, names, tsel, what)
    case.check((m.stacked_time_dim is not None) == (raw.sizes.get(names["lat"], 1) * raw.sizes.get("lon", 1) > 1), "orientation",
               f"{what}: columns stacked: {m.stacked_time_dim}")
    if kind == "col":
        case.check(np.array_equal(m.ds["time"].values.astype("datetime64[m]"), stamps[pos[0]].astype("datetime64[m]")),
                   "orientation", f"{what}: times are not those of the columns")
    g = lambda k: column(raw, k, pos, names, True)
    p = (float(raw["P0"]) * raw["hyam"].values[::-1] + g("PS")[:, None] * raw["hybm"].values[::-1]) / 100.
    rho = p * 100. / (RD * g("T"))
    rt = 3e-6
    take(case, "pressure", m, "p_3d", p, what, rt)
    take(case, "density", m, "rho_a", rho, what, rt)
    for k in ["T", "Q", "Z3", "CLOUD", "RELVAR"] + ["NDAYS"] * ("NDAYS" in raw) + [PRE[h][i] for h in PRE for i in (1, 3)]:
        take(case, "file-field", m, k, g(k), what, 1e-7)
    case.equal("file-field", m.ds["PRECT"].values.reshape(-1), g("PRECT"), rtol=1e-7, what=f"{what}: surface field")
    case.equal("orientation", m.ds["lev"].values, raw["lev"].values[::-1], rtol=1e-12, what=f"{what}: level coordinate")
    for k in ("hyam", "hybm", "dlev"):
        case.equal("file-field", m.ds[k].values, raw[k].values[::-1], rtol=1e-12, what=f"{what}: level quantity {k}")
    z = m.ds["Z3"].transpose(m.time_dim, "lev").values
    case.check((np.diff(z, axis=1) >= 0).all(), "orientation", f"{what}: height does not increase upward")
    case.check(tuple(m.ds["T"].dims) == (m.time_dim, "lev"), "orientation", f"{what}: dimensions {m.ds['T'].dims}")
    take(case, "file-field", m, "zeros_cf", np.zeros_like(p), what)
    for k, u in (("p_3d", ("hPa",)), ("rho_a", ("kg / m ** 3",))):
        case.check(m.ds[k].attrs.get("units") in u, "setup", f"{what}: {k} in {m.ds[k].attrs.get('units')!r}")
    N = {}
    for h, (n, F, R, q) in PRE.items():
        if h in hyds:
            N[h] = g(n) * rho / 1e6
            take(case, "number", m, n, N[h], what, rt)
            r = g(R) * (.5e6 if h[0] == "p" else 1.)
            take(case, "radius", m, R, np.where(r == 0, np.nan, r), what, rt)
        case.check(m.process_conv is False, "setup", "convection processed")
    if not p3:
        case.state(cls, kind, cal, tr is not None, tuple(hyds), dtype)
        return
    with np.errstate(all="ignore"):
        frac, qi, rim, bv = g("FREQI"), g("CLDICE"), g("CLDRIM"), g("BVRIM")
        ni = N["ci"] / frac * 1e6
        Fr = rim / qi
        rr = np.where(Fr == 0, 0., rim / bv)
        qn = qi / frac / ni
    take(case, "p3", m, "in_cld_Ni", ni, what, rt)
    if inst is None:
        for k, e in (("Fr", Fr), ("rho_r", rr), ("qi_norm", qn)):
            take(case, "p3", m, k, e, what, 1e-5)
    else:
        lut = inst.scat_table["p3_ice"]
        x, y, w = (lut[k].values for k in ("Fr", "rho_r", "q_norm"))
        lim = []
        for k, e, ax in (("Fr", Fr, x), ("rho_r", rr, y), ("qi_norm", qn, w)):
            e = np.where(np.isnan(e), np.nan, np.clip(e, ax.min(), ax.max()))
            take(case, "p3", m, k, e, what, 1e-5)
            got = m.ds[k].values
            case.see("lut-range", got.size)
            if not ((np.isnan(got)) | ((got >= ax.min()) & (got <= ax.max()))).all():
                case.fail("lut-range", f"{what}: {k} outside its table's range")
            lim.append(m.ds[k].transpose(m.time_dim, "lev").values.astype(float))
        lam = trilinear((x, y, w), lut["lambda"].values, lim)
        mu = np.clip(.076 * (lam / 100.) ** .8 - 2., 0., 6.)
        take(case, "p3", m, "lambda_ice", lam, what, 1e-5)
        take(case, "p3", m, "mu_ice", mu, what, 1e-4)
        take(case, "p3", m, "N0_norm_ice", lam ** (mu + 1) / gamma(mu + 1), what, 1e-3)
        for grp, ks in (("bulk", ["A_tot_norm", "vt_m_weight", "Z", "ri_eff", "Dm_m_weight", "rho_m_weight",
                                  "A_tot_eq_V_norm", "A_tot_Mie_norm"]),
                        ("single", ["vt", "A", "V"] + (["D_eq_vol_sphere"] if kw["use_hybrid_scat"] else []))):
            third = w if grp == "bulk" else lut["p_diam"].values
            for k in ks:
                pts = [rng.uniform(a.min(), a.max(), 20) for a in (x, y)] + [np.clip(10 ** rng.uniform(
                    np.log10(third.min()), np.log10(third.max()), 20), third.min(), third.max())]
                case.equal("p3", m.interpobj[grp][k](tuple(pts)), trilinear((x, y, third), lut[k].values, pts), rtol=1e-6,
                           what=f"{what}: interpolator of {k}")
        case.check(m.p3_kws["use_hybrid_scat"] == kw["use_hybrid_scat"], "setup", "hybrid option lost")
        # the method on its own: off-table input is limited, or has no parameters
        sh, off, ins, cut = m.ds["Fr"].shape, [], np.ones(m.ds["Fr"].shape, bool), []
        for k, ax in (("Fr", x), ("rho_r", y), ("qi_norm", w)):
            v = rng.uniform(ax.min(), ax.max(), sh) if k != "qi_norm" else np.clip(
                10 ** rng.uniform(np.log10(ax.min()), np.log10(ax.max()), sh), ax.min() * 1.001, ax.max() * .999)
            o = rng.uniform(size=sh) < .15
            v = np.where(o, np.where(rng.uniform(size=sh) < .5, ax.max() * 1.3, ax.min() - .2 * (ax.max() - ax.min())), v)
            m.ds[k] = (m.ds["Fr"].dims, v)
            ins &= ~o
            cut.append(np.clip(v, ax.min(), ax.max()))
        lim = bool(rng.integers(0, 2))
        a = {} if lim and rng.uniform() < .5 else dict(limit_input_data_to_lut_rng=lim)
        m.interp_p3_ice_psd_params_to_grid(lut, **a)
        lam = trilinear((x, y, w), lut["lambda"].values, cut)
        if not lim:
            lam = np.where(ins, lam, np.nan)
        case.equal("p3", m.ds["lambda_ice"].values, lam, rtol=1e-5, what=f"{what}: slope with input range limiting {lim}")
    case.check(m.rad_scheme_family == "P3" and m.mcphys_scheme == "P3", "setup", f"{what}: scheme {m.rad_scheme_family}")
    case.state("P3", kind, inst is not None and inst.instrument_str, kw.get("use_hybrid_scat"), tuple(hyds), dtype)


def trilinear(ax, tab, pts):
    i, f = [], []
    nanm = np.zeros(np.shape(pts[0]), bool)
    for a, p in zip(ax, pts):
        p = np.asarray(p, float)
        nanm |= np.isnan(p)
        p = np.where(np.isnan(p), a[0], p)
        k = np.clip(np.searchsorted(a, p, side="right") - 1, 0, len(a) - 2)
        i.append(k)
        f.append((p - a[k]) / (a[k + 1] - a[k]))
    out = 0.
    for b in np.ndindex(2, 2, 2):
        wgt = 1.
        for j in range(3):
            wgt = wgt * (f[j] if b[j] else 1 - f[j])
        out = out + wgt * tab[tuple(i[j] + b[j] for j in range(3))]
    return np.where(nanm, np.nan, out)


INST = dict(HSRL=lambda: emc2.core.instruments.HSRL(), KAZR=lambda: emc2.core.instruments.KAZR("sgp"))


# -- ModelE, DHARMA -----------------------------------------------------------
def generic_raw(rng, s, names, fields, dtype, dims_order=None):
    coords = {names["lev"]: np.sort(rng.uniform(10, 1000, s["lev"]))[::-1].copy()}
    axes(rng, s, coords, names)
    dims = [names[d] for d in ("time", "lev", "lat", "lon") if d in s]
    sizes = {names[d]: s[d] for d in s}
    if dims_order is not None:
        dims = [names[d] for d in dims_order if d in s]
    shape = [sizes[d] for d in dims]
    v = {k: (dims, fn(shape).astype(dtype)) for k, fn in fields.items()}
    d2 = [d for d in dims if d != names["lev"]]
    v["surface"] = (d2, rng.uniform(size=[sizes[d] for d in d2]).astype(dtype))
    sec = np.sort(rng.choice(np.arange(0, 600), s["time"], replace=False)) * 60
    stamps = np.datetime64("2018-01-20", "ns") + sec * np.timedelta64(1, "s")
    coords[names["time"]] = stamps
    return xr.Dataset(v, coords=coords), stamps


def pick_range(case, rng, stamps):
    tsel = np.arange(len(stamps))
    if rng.uniform() < .5:
        return None, tsel
    a, b = np.sort(rng.choice(np.arange(-60, 660), 2, replace=False))
    t0 = np.datetime64("2018-01-20", "ns")
    tr = np.array([t0 + a * np.timedelta64(60, "s"), t0 + b * np.timedelta64(60, "s")])
    if rng.uniform() < .4:
        tr[int(rng.integers(0, 2))] = common.pick(rng, list(stamps))
        tr = np.sort(tr)
    ok = (stamps >= tr[0]) & (stamps < tr[1])
    case.see("crop")
    form = int(rng.integers(0, 3))
    return (tr if form == 0 else tuple(tr) if form == 1 else list(tr)), np.flatnonzero(ok) if ok.any() else tsel


def fields_of(rng, extra):
    f = {"t": lambda sh: rng.uniform(200, 305, sh), "q": lambda sh: rng.uniform(1e-6, 2e-2, sh),
         "z": lambda sh: rng.uniform(0, 2e4, sh)}
    for k in extra:
        f[k] = lambda sh: sparse(rng, sh, 1.)
    return f


def modele(case):
    rng = case.rng
    kind, s = layout(rng, ("plain", "one", "region", "lines"))
    hd = common.pick(rng, ["p", "level"])
    names = dict(time="time", lev=hd, lat="lat", lon="lon")
    extra = ["qcl", "qci", "qpl", "qpi", "QCLmc", "QCImc", "re_mccl", "re_sspi", "cldsscl", "cldmccl", "ncl", "nci"]
    f = fields_of(rng, extra)
    f["p_3d"] = lambda sh: rng.uniform(10, 1040, sh)
    raw, stamps = generic_raw(rng, s, names, f, common.pick(rng, ["f4", "f8"]))
    raw["p_3d"].attrs["units"] = common.pick(rng, ["mb", "hPa"])
    if hd == "p" and rng.uniform() < .3:      # soil levels beside the atmosphere's
        raw["soil"] = ("level", rng.uniform(size=3))
        raw = raw.assign_coords(level=np.arange(3.))
    tr, tsel = pick_range(case, rng, stamps)
    with Scratch() as d:
        path = os.path.join(d, "modele.nc")
        raw.to_netcdf(path)
        m = emc2.core.model.ModelE(path, time_range=tr) if tr is not None else emc2.core.model.ModelE(path)
        m.ds.load()
        m.ds.close()
    what = f"ModelE ({kind}, {hd})"
    case.check(m.height_dim == hd, "setup", f"{what}: height dimension {m.height_dim}")
    pos = positions(case, m, raw, names, tsel, what)
    g = lambda k: column(raw, k, pos, names, False)
    for k in f:
        take(case, "pressure" if k == "p_3d" else "file-field", m, k, g(k), what, 1e-7)
    case.equal("file-field", m.ds["surface"].values.reshape(-1), g("surface"), rtol=1e-7, what=f"{what}: surface field")
    take(case, "density", m, "rho_a", g("p_3d") * 100 / (RD * g("t")), what, 1e-6)
    case.check(m.ds["p_3d"].attrs.get("units") == "hPa", "setup", f"{what}: pressure in {m.ds['p_3d'].attrs}")
    case.check(m.hyd_types == ["cl", "ci", "pl", "pi"] and m.model_name == "ModelE3", "setup", what)
    settings(case, m, "ModelE")
    case.check(tuple(m.ds["t"].dims) == (m.time_dim, hd), "orientation", f"{what}: dimensions {m.ds['t'].dims}")
    case.state("ModelE", kind, hd, tr is not None)


def dharma(case):
    rng = case.rng
    region = rng.uniform() < .5
    td = common.pick(rng, ["dom_col", "time"])
    names = dict(time=td, lev="hgt", lat="y", lon="x")
    s = dict(time=int(rng.integers(1, 6)), lev=int(rng.integers(2, 8)))
    kind = "plain"
    if region:
        kind = common.pick(rng, ["one", "region"])
        s.update(lat=1, lon=1) if kind == "one" else s.update(lat=int(rng.integers(2, 6)), lon=int(rng.integers(2, 6)))
    single = bool(rng.integers(0, 2))
    extra = ["qcl", "qci", "qpl", "qpi", "ncl", "nci", "npl", "npi", "strat_cl_frac", "re_strat_cl", "conv_dat"] + \
        ([] if single else ["qpir", "npir", "strat_pir_frac", "re_strat_pir"])
    f = fields_of(rng, extra)
    f["p"] = lambda sh: rng.uniform(10, 1040, sh)
    raw, stamps = generic_raw(rng, s, names, f, common.pick(rng, ["f4", "f8"]))
    raw["qcl"].attrs["units"] = "kg/kg"
    for d in ("x", "y"):
        if d in raw.coords:
            raw = raw.sortby(d)
    kw = {}
    if td != "dom_col" or rng.uniform() < .3:
        kw["time_dim"] = td
    if not single:
        kw["single_pi_class"] = False
    tr, tsel = pick_range(case, rng, stamps)
    if tr is not None:
        kw["time_range"] = tr
    ref = raw
    if kind == "region" and rng.uniform() < .4:
        b = [np.sort(rng.choice(raw[d].values, 2)) for d in ("x", "y")]
        kw["bounding_box"] = (b[0][0], b[1][0], b[0][1], b[1][1])
        ref = raw.isel(x=(raw.x.values >= b[0][0]) & (raw.x.values <= b[0][1]),
                       y=(raw.y.values >= b[1][0]) & (raw.y.values <= b[1][1]))
    with Scratch() as d:
        path = os.path.join(d, "dharma.nc")
        raw.to_netcdf(path)
        m = emc2.core.model.DHARMA(path, **kw)
        m.ds.load()
        m.ds.close()
    what = f"DHARMA ({kind})"
    pos = positions(case, m, ref, names, tsel, what)
    g = lambda k: column(ref, k, pos, names, False)
    for k in f:
        take(case, "pressure" if k == "p" else "file-field", m, k, g(k), what, 1e-7)
        case.check(m.ds[k].dtype == np.float64, "setup", f"{what}: {k} is {m.ds[k].dtype}")
    case.check(m.ds["qcl"].attrs.get("units") == "kg/kg", "setup", f"{what}: units lost")
    take(case, "density", m, "rho_a", g("p") * 100 / (RD * g("t")), what, 1e-6)
    case.check(m.hyd_types == ["cl", "ci", "pl", "pi"] + ([] if single else ["pir"]), "setup", f"{what}: {m.hyd_types}")
    settings(case, m, "DHARMA" + ("" if single else " two ice precipitation classes"))
    for tab in ("N_field", "strat_frac_names", "conv_frac_names", "q_names_stratiform", "strat_re_fields"):
        for h in m.hyd_types:
            case.check(getattr(m, tab).get(h) in m.ds or not str(getattr(m, tab).get(h)) in f, "setup",
                       f"{what}: {tab} of {h} does not name a field")
            if h == "pir":
                case.check(getattr(m, tab).get(h) in m.ds, "setup", f"{what}: {tab} of {h} is {getattr(m, tab).get(h)}")
    case.check(tuple(m.ds["t"].dims) == (m.time_dim, "hgt"), "orientation", f"{what}: dimensions {m.ds['t'].dims}")
    case.state("DHARMA", kind, td, single, tr is not None, "bounding_box" in kw)


# -- WRF (its file decoder, wrf-python, is replaced by one that reads the generated file) ----------------------------
def wrf(case):
    rng = case.rng
    T, H = int(rng.integers(1, 4)), int(rng.integers(2, 6))
    Y, X = (1, 1) if rng.uniform() < .3 else (int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    scheme = common.pick(rng, ["nssl", "NSSL", "morrison", "MG2", "Morrison"])
    nssl = scheme.lower() == "nssl"
    nu, gr = bool(rng.integers(0, 2)), not nssl and bool(rng.integers(0, 2))
    dims = ("Time", "bottom_top", "south_north", "west_east")
    sh = (T, H, Y, X)
    if nssl:
        hq = dict(cl="QCLOUD", ci="QICE", pl="QRAIN", sn="QSNOW", gr="QGRAUP", ha="QHAIL")
        hn = dict(cl="QNDROP", ci="QNICE", pl="QNRAIN", sn="QNSNOW", gr="QNGRAUPEL", ha="QNHAIL")
        hr = dict(cl="REFC", ci="REFI", pl="REFR", sn="REFS", gr="REFG", ha="REFH")
    else:
        hq = dict(cl="QCLOUD", ci="QICE", pl="QRAIN", pi="QSNOW")
        hn = dict(cl="QNCLOUD", ci="QNICE", pl="QNRAIN", pi="QNSNOW")
        hr = {}
        if gr:
            hq["gr"], hn["gr"] = "QGRAUP", "QNGRAUPEL"
    f = lambda a: (dims, np.asarray(a, "f4"))
    v = {"P": f(rng.uniform(-500, 500, sh)), "PB": f(rng.uniform(2e4, 1e5, sh)), "tk": f(rng.uniform(200, 305, sh)),
         "z": f(np.cumsum(rng.uniform(50, 900, sh), axis=1)), "wa": f(rng.normal(size=sh)),
         "QVAPOR": f(rng.uniform(1e-6, 2e-2, sh)), "CLDFRA": f(sparse(rng, sh, 1.))}
    for k in hq.values():
        v[k] = f(np.where(rng.uniform(size=sh) < .3, 10 ** rng.uniform(-20, -13, sh), sparse(rng, sh, 1e-3)))
    for k in hn.values():
        v[k] = f(sparse(rng, sh, 1e8))
    for k in hr.values():
        v[k] = f(sparse(rng, sh, 100.))
    if nssl:
        v["QVGRAUPEL"], v["QVHAIL"] = f(sparse(rng, sh, 1e-6)), f(sparse(rng, sh, 1e-6))
    lat, lon = np.arange(Y) * 1.5 + 30., np.arange(X) * 2. - 100.
    co = {"XLAT": (("Time", "south_north", "west_east"), np.broadcast_to(lat[None, :, None], (T, Y, X)).astype("f4")),
          "XLONG": (("Time", "south_north", "west_east"), np.broadcast_to(lon[None, None], (T, Y, X)).astype("f4")),
          "XTIME": ("Time", np.arange(T) * 30., {"units": "minutes since 2018-01-20 00:00:00"})}
    raw = xr.Dataset(v, coords=co)
    kw = dict(mcphys_scheme=scheme)
    if nu:
        kw["NUWRF"] = True
    cut = 1e-14
    if rng.uniform() < .4:
        cut = 10 ** rng.uniform(-16, -5)
        kw["q_hyd_truncation_cutoff"] = cut
    if gr:
        kw["include_gr_class"] = True
        hail = bool(rng.integers(0, 2))
        if not hail:
            kw["gr_class_is_hail"] = False
    tsel = np.arange(T)
    if rng.uniform() < .4:
        a, b = np.sort(rng.choice(np.arange(-10, 100), 2, replace=False))
        t0 = np.datetime64("2018-01-20", "ns")
        kw["time_range"] = (t0 + a * np.timedelta64(60, "s"), t0 + b * np.timedelta64(60, "s"))
        st = np.arange(T) * 30
        if ((st >= a) & (st < b)).any():
            tsel = np.flatnonzero((st >= a) & (st < b))
        case.see("crop")

    i0 = j0 = 0
    full = (Y, X)
    if Y > 2 and X > 2 and rng.uniform() < .4:      # the last row and column of the box may or may not be part of it
        i0, i1 = np.sort(rng.choice(Y, 2, replace=False))
        j0, j1 = np.sort(rng.choice(X, 2, replace=False))
        kw["bounding_box"] = tuple(x + rng.uniform(-.6, .6) for x in (lat[i0], lon[j0], lat[i1], lon[j1]))
        case.see("crop")

    def getvar(nc, name, units=None, timeidx=None, squeeze=False, **_):
        x = xr.DataArray(np.ma.filled(nc[name][:], np.nan), dims=dims, name=name, attrs={"units": units or ""},
                         coords={k: (c[0], c[1]) for k, c in co.items()})
        return x

    old = {k: getattr(core_model, k, None) for k in ("getvar", "ALL_TIMES", "WRF_PYTHON_AVAILABLE")}
    with Scratch() as d:
        path = os.path.join(d, "wrfout_d01")
        raw.to_netcdf(path)
        core_model.getvar, core_model.ALL_TIMES, core_model.WRF_PYTHON_AVAILABLE = getvar, None, True
        try:
            m = emc2.core.model.WRF(path, **kw)
            m.ds.load()
            m.ds.close()
        finally:
            for k, o in old.items():
                if o is None:
                    delattr(core_model, k)
                else:
                    setattr(core_model, k, o)
    what = f"WRF {scheme} (NUWRF={nu}, {Y}x{X})"
    case.check(list(m.hyd_types) == list(hq), "setup", f"{what}: {m.hyd_types}")
    settings(case, m, "WRF " + ("nssl" if nssl else "morrison" + ((" hail" if hail else " graupel") if gr else "")))
    if "bounding_box" in kw:
        ny, nx = (len(set(m.ds[k].values.reshape(-1).tolist())) for k in ("XLAT", "XLONG"))
        case.check(ny in (i1 - i0, i1 - i0 + 1) and nx in (j1 - j0, j1 - j0 + 1), "crop",
                   f"{what}: box of rows {i0}..{i1}, columns {j0}..{j1} kept {ny} x {nx}")
        Y, X = ny, nx
    n = len(tsel) * Y * X
    if Y * X > 1:
        if not case.check(m.stacked_time_dim == "Time" and m.ds.sizes[m.time_dim] == n, "orientation",
                          f"{what}: {m.ds.sizes} for {n} columns"):
            return
        yi, xi, ti = (np.asarray(m.ds[k].values) for k in ("south_north", "west_east", "Time"))
        pos = (tsel[np.asarray(ti, int)], i0 + np.asarray(yi, int), j0 + np.asarray(xi, int))
        case.check(len(set(zip(*pos))) == n, "orientation", f"{what}: columns repeated")
        case.equal("file-field", m.ds["XLAT"].values.reshape(-1), lat[pos[1]], rtol=1e-6, what=f"{what}: latitude")
        case.equal("file-field", m.ds["XLONG"].values.reshape(-1), lon[pos[2]], rtol=1e-6, what=f"{what}: longitude")
    else:
        if not case.check(m.ds.sizes.get("Time") == n, "orientation", f"{what}: {m.ds.sizes} for {n} times"):
            return
        pos = (tsel, np.full(n, i0), np.full(n, j0))
    g = lambda k: np.moveaxis(raw[k].values.astype(float), 1, 3)[pos]
    p = (g("P") + g("PB")) / 100.
    rho = p * 100 / (RD * g("tk"))
    take(case, "pressure", m, "pressure", p, what, 3e-6)
    take(case, "density", m, "rho_a", rho, what, 3e-6)
    for a, b in (("T", "tk"), ("Z", "z"), ("QVAPOR", "QVAPOR")):
        take(case, "file-field", m, a, g(b), what, 1e-6)
    for k, u in (("pressure", "hPa"), ("T", "K"), ("Z", "m")):
        case.check(m.ds[k].attrs.get("units") == u, "setup", f"{what}: {k} in {m.ds[k].attrs.get('units')!r}")
    for h in hq:
        take(case, "file-field", m, m.q_names_stratiform[h], g(hq[h]), what, 1e-6)
        take(case, "file-field", m, m.q_names_convective[h], 0 * p, what)
        take(case, "file-field", m, m.conv_frac_names[h], 0 * p, what)
        q32 = np.moveaxis(raw[hq[h]].values, 1, 3)[pos]
        fr = g("CLDFRA") if nu and h in ("cl", "ci") else np.where(q32 > cut, 1., 0.)
        take(case, "file-field", m, m.strat_frac_names[h], fr, what, 1e-6)
        take(case, "number", m, m.N_field[h], g(hn[h]) * rho * 1e-6, what, 3e-6)
        if nssl:
            take(case, "radius", m, m.strat_re_fields[h], g(hr[h]), what, 1e-6)
    if nssl:
        with np.errstate(all="ignore"):
            for h, a, b in (("gr", "QGRAUP", "QVGRAUPEL"), ("ha", "QHAIL", "QVHAIL")):
                e = g(a) / g(b)
                case.check(h in m.variable_density, "setup", f"{what}: no density field for {h}")
                take(case, "file-field", m, m.variable_density.get(h, "none"), np.where(np.isfinite(e), e, 900.), what, 1e-5)
    elif gr:
        case.check(abs(m.Rho_hyd["gr"].magnitude - (900. if hail else 400.)) < 1e-9 and "gr" in m.ice_hyd_types, "setup",
                   f"{what}: graupel set up as {m.Rho_hyd['gr']}, ice classes {m.ice_hyd_types}")
    case.check(tuple(m.ds["T"].dims) == (m.time_dim, "bottom_top"), "orientation", f"{what}: dimensions {m.ds['T'].dims}")
    case.state("WRF", scheme, nu, gr, Y * X > 1, "time_range" in kw, "bounding_box" in kw, full == (Y, X))


def reject(case):
    rng = case.rng
    k = case.index % 6
    with Scratch() as d:
        path = os.path.join(d, "x.nc")
        bad = common.pick(rng, [np.array(["2018-01-20T00:00", "2018-01-20T05:00"]), np.array([0, 10]),
                                np.array([0., 1.])])
        s = dict(time=3, lev=3)
        if k < 2:
            raw, names, stamps, cal = e3sm_raw(rng, s, "plain", False, "f8")
            raw.to_netcdf(path)
            cls = (emc2.core.model.E3SMv1, emc2.core.model.CESM2)[k]
            case.raises("reject", RuntimeError, cls, path, time_range=bad)
        elif k < 4:
            names = dict(time="time", lev="p" if k == 2 else "hgt", lat="lat", lon="lon")
            f = fields_of(rng, ["qcl"])
            f["p_3d" if k == 2 else "p"] = lambda sh: rng.uniform(10, 1040, sh)
            raw, _ = generic_raw(rng, s, names, f, "f8")
            raw.to_netcdf(path)
            if k == 2:
                case.raises("reject", RuntimeError, emc2.core.model.ModelE, path, time_range=bad)
            else:
                case.raises("reject", RuntimeError, emc2.core.model.DHARMA, path, time_range=bad, time_dim="time")
        elif not core_model.WRF_PYTHON_AVAILABLE:
            case.raises("reject", ModuleNotFoundError, emc2.core.model.WRF, path)
        else:
            case.see("reject")
    case.state("reject", k)


SCENARIOS = dict(e3sm=e3sm, p3=lambda c: e3sm(c, True), modele=modele, dharma=dharma, wrf=wrf, reject=reject)
