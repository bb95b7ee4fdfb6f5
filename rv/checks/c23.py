"""C23: plots (subcolumn displays and statistics figures) observed on the artists actually drawn."""
import os
import shutil
import tempfile

import matplotlib
matplotlib.use("Agg")
import matplotlib.colors as mcolors  # noqa: E402
import matplotlib.dates as mdates  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import xarray as xr  # noqa: E402
from matplotlib.collections import PolyCollection, QuadMesh  # noqa: E402

import emc2  # noqa: E402
from emc2.statistics_LLNL import statistical_plots as sp  # noqa: E402
from .. import common, world  # noqa: E402

PROPERTY = "C23"
RULE = ("random models (every family, 1..6 subcolumns, 1..6 times, 1..14 levels, heights constant or changing in time, also "
        "regional ones cropped by value or index) with random reflectivity, backscatter and velocity fields holding gaps; "
        "each display routine is called with random options (pressure/height, log scale, colour limits, masks, hatching, "
        "axis limits, several panels) and the artists it left on every axis are read back: cell values and positions, "
        "colour scale, line and band vertices, limits, labels, colour bar; model data and argument arrays are compared "
        "with copies taken before; distinct states are routine/option combinations")
REQUIRED = {"mesh-values": 20000, "mesh-position": 20000, "colour-scale": 300, "returned": 300, "data-untouched": 5000,
            "axis-limits": 200, "mask": 1000, "hatch": 500, "mean-line": 1500, "mean-band": 1000, "only-its-axes": 300,
            "rejects": 30, "class-colourbar": 60, "mean-and-sd": 1000, "crop": 50, "figure-saved": 10, "band-in-view": 100, "labels": 2000}
DB = ["sub_col_Ze_att_tot", "sub_col_Ze_tot_strat", "sub_col_Ze_cl_strat"]
LOGF = ["sub_col_beta_p_tot", "sub_col_alpha_p_ci_strat", "sub_col_OD_tot_strat", "sub_col_beta_p_pl_strat", "sub_col_OD_ci_strat"]
LIN = ["sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat", "sub_col_LDR_tot", "sub_col_Vd_pi_strat", "sub_col_sigma_d_cl_strat"]


def plan(tier):
    n = 60 if tier == "quick" else 700
    return [("timeseries", 3 * n), ("instrument", n), ("profile", n), ("mean", 3 * n), ("instrument_mean", n),
            ("input_q", n), ("regridded", n), ("classmask", n), ("meansd", 3 * n), ("crop", n), ("reject", n),
            ("allsubcols", 2 * n), ("cfad", n), ("switch", n // 2), ("overlay", n)]


# ------------------------------------------------------------------ helpers
def values(rng, name, shape):
    if "Ze" in name:
        lo = rng.uniform(-60, 0)
        v = rng.uniform(lo, lo + rng.uniform(3, 40), size=shape)
    elif name in LOGF:
        v = 10 ** rng.uniform(-9, -3, size=shape)
    elif "mask" in name:
        v = rng.integers(0, 5, size=shape).astype(float)
    elif "LDR" in name:
        v = rng.uniform(-40, -5, size=shape)
    else:
        v = rng.uniform(-2, 5, size=shape)
    gap = rng.uniform(size=shape) < rng.choice([0., 0.2, 0.6])
    v = np.where(gap, np.nan, v)
    if rng.uniform() < 0.3 and len(shape) > 1:      # a level without any signal
        v[..., rng.integers(0, shape[-1])] = np.nan
    return v


def make(case, lat=False, N=None, T=None, H=None):
    rng = case.rng
    N = N or int(rng.integers(1, 7))
    H = H or int(rng.integers(2, 15))
    fam = common.pick(rng, ["ModelE", "CESM", "DHARMA", "WRF"])
    if lat:
        nlat, nlon = (int(x) for x in rng.integers(1, 4, 2))
        nt, N = int(rng.integers(2, 5)), max(N, 2)
        use_lon = bool(rng.uniform() < 0.7)
        if not use_lon:
            nlon = 1
        m = world.make_model(rng, fam, N=N, T=nlat * nlon * nt, H=H, dims=("time", "height"))
        world.regional(m, rng, nlat, nlon, nt, use_lon=use_lon)
    else:
        T = T or int(rng.integers(1, 7))
        m = world.make_model(rng, fam, N=N, T=T, H=H, dims=("time", "height"))
        kind = rng.integers(0, 3)
        if kind == 0:       # a pressure coordinate running downwards
            m.ds = m.ds.assign_coords(height=np.sort(rng.uniform(50, 1000, H))[::-1])
            if rng.uniform() < 0.5:
                m.ds["height"].attrs.update(units="hPa", long_name="pressure of levels")
        elif kind == 1:
            m.ds = m.ds.assign_coords(height=np.arange(H) * 1.0)
        if rng.uniform() < 0.5:     # heights that do not change in time
            for f in ("zhgt", "pres"):
                m.ds[f].values[:] = m.ds[f].values[:1]
        if rng.uniform() < 0.25:
            m.ds["zhgt"] = m.ds["zhgt"].isel(time=0, drop=True)
    m.num_subcolumns = N
    # a model reduced to some of its subcolumns keeps their numbers
    m.ds["subcolumn"] = xr.DataArray(np.arange(N) if rng.uniform() < 0.7 else rng.permutation(N + 3)[:N], dims="subcolumn")
    td = m.time_dim
    shape = (N, m.ds.sizes[td], H)
    for name in DB + LOGF + LIN:
        m.ds[name] = xr.DataArray(values(rng, name, shape), dims=("subcolumn", td, "height"), attrs={"units": "x"})
    m.ds["phase_mask_test"] = xr.DataArray(values(rng, "mask", shape), dims=("subcolumn", td, "height"),
                                           attrs={"legend": ["a", "b", "c", "d"]})
    if lat and m.stacked_time_dim is not None:
        m.unstack_time_lat_lon()
    return m


def display(case, m, **kw):
    shape = common.pick(case.rng, [(1,), (2,), (2, 2), (1, 3)])
    d = emc2.plotting.SubcolumnDisplay(m, subplot_shape=shape, figsize=(4, 3), **kw)
    axes = np.asarray(d.axes)
    idx = tuple(int(case.rng.integers(0, n)) for n in axes.shape)
    return d, idx


def artists(fig):
    return {id(a): (list(a.collections), list(a.lines)) for a in fig.axes}


class Watch:
    """Copies of the data before a call, compared with the data after it; also the artists each axis gained."""
    def __init__(self, case, fig=None, ds=None, arrays=()):
        self.case, self.fig, self.ds, self.arrays = case, fig, ds, arrays
        self.before = common.snapshot(ds) if ds is not None else {}
        self.attrs = {k: dict(ds[k].attrs) for k in ds.variables} if ds is not None else {}
        self.copies = [np.array(a, copy=True) for a in arrays]
        self.art = artists(fig) if fig is not None else {}

    def done(self, what, ds=None, ax=None):
        c = self.case
        now = ds if ds is not None else self.ds
        if now is not None:
            c.see("data-untouched", sum(v[1].size for v in self.before.values()))
            if set(now.variables) != set(self.before):
                c.fail("data-untouched", f"{what}: plotting changed the set of fields: "
                                         f"{set(now.variables) ^ set(self.before)}")
            for k, (dims, v) in self.before.items():
                if k not in now.variables:
                    continue
                a = now[k].values
                if now[k].dims != dims or a.shape != v.shape or a.dtype != v.dtype or not eq(a, v):
                    c.fail("data-untouched", f"{what}: plotting modified model field {k}")
                if dict(now[k].attrs) != self.attrs[k]:
                    c.fail("data-untouched", f"{what}: plotting modified the attributes of {k}")
        for a, b in zip(self.arrays, self.copies):
            c.see("data-untouched", b.size)
            if not eq(np.asarray(a), b):
                c.fail("data-untouched", f"{what}: plotting modified an array handed to it")
        if ax is not None:
            for a in self.fig.axes:
                if a is ax or id(a) not in self.art:
                    continue
                c.see("only-its-axes")
                if (list(a.collections), list(a.lines)) != self.art[id(a)]:
                    c.fail("only-its-axes", f"{what}: something was drawn on another panel")


def eq(a, b):
    return a.shape == b.shape and bool(np.all((a == b) | (common._isnan(a) & common._isnan(b))))


def meshes(case, ax, what, n=1):
    q = [x for x in ax.collections if isinstance(x, QuadMesh)]
    case.see("mesh-values")
    if len(q) != n:
        case.fail("mesh-values", f"{what}: {len(q)} curtains drawn instead of {n}")
        from ..core import Violation
        raise Violation()
    return q


def see_mesh(case, mesh, x, y, v, what):
    """mesh shows v[i, j] (i along y) in the cell around (x[j], y[i] or y[i, j])."""
    a = np.ma.asarray(mesh.get_array())
    a = np.ma.filled(a.astype(float), np.nan)
    a = a.reshape(v.shape) if a.size == v.size else a
    case.equal("mesh-values", a, np.where(np.isfinite(v), v, np.nan), rtol=1e-12, what=what + ": drawn values")
    co = np.asarray(mesh.get_coordinates())
    X = np.broadcast_to(np.asarray(x, float), v.shape) if np.ndim(x) == 1 else np.asarray(x, float)
    Y = np.broadcast_to(np.asarray(y, float)[:, None], v.shape) if np.ndim(y) == 1 else np.asarray(y, float)
    case.see("mesh-position", 2 * v.size)
    if co.shape != (v.shape[0] + 1, v.shape[1] + 1, 2):
        if co.shape == v.shape + (2,):      # gouraud shading keeps the points themselves
            case.equal("mesh-position", co[..., 0], X, rtol=1e-12, what=what + ": x")
            case.equal("mesh-position", co[..., 1], Y, rtol=1e-12, what=what + ": y")
        else:
            case.fail("mesh-position", f"{what}: {co.shape} corners for {v.shape} values")
        return
    for C, k, name in ((X, 0, "x"), (Y, 1, "y")):
        cc = co[..., k]
        corners = np.stack([cc[:-1, :-1], cc[1:, :-1], cc[:-1, 1:], cc[1:, 1:]])
        # the along-axis bounds of each cell (mean of the two corners of each side)
        if k == 0:
            b0, b1 = (corners[0] + corners[1]) / 2, (corners[2] + corners[3]) / 2
        else:
            b0, b1 = (corners[0] + corners[2]) / 2, (corners[1] + corners[3]) / 2
        lo, hi = np.minimum(b0, b1), np.maximum(b0, b1)
        tol = 1e-9 * (1 + np.abs(C))
        if np.ndim(y) == 1 or k == 0:
            bad = (C < lo - tol) | (C > hi + tol)
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                case.fail("mesh-position", f"{what}: cell {i} spans {name} {lo[i]!r}..{hi[i]!r}, its value belongs at {C[i]!r}")
            # no cell may reach over the centre of a neighbour
            ax_ = 1 if k == 0 else 0
            if C.shape[ax_] > 1:
                D = np.abs(np.diff(C, axis=ax_))
                w = (hi - lo)
                first = np.take(w, range(0, w.shape[ax_] - 1), ax_)
                both = first / 2 + np.take(w, range(1, w.shape[ax_]), ax_) / 2
                lim = np.maximum(D, np.roll(D, 1, ax_)).max() * 2 + 1e-9
                if (both > lim).any():
                    case.fail("mesh-position", f"{what}: cells in {name} are far wider than the spacing of the data")


def see_scale(case, mesh, log, vmin, vmax, what):
    case.see("colour-scale")
    islog = isinstance(mesh.norm, mcolors.LogNorm)
    if islog != bool(log):
        case.fail("colour-scale", f"{what}: log_plot={log} but the colour scale is {type(mesh.norm).__name__}")
    v = np.ma.masked_invalid(np.ma.asarray(mesh.get_array()).astype(float))
    if not v.count():
        return
    for got, want, n in ((mesh.norm.vmin, vmin, "lower"), (mesh.norm.vmax, vmax, "upper")):
        if want is not None and (got is None or abs(got - want) > 1e-12 * abs(want)):
            case.fail("colour-scale", f"{what}: {n} colour limit {want!r} requested, {got!r} drawn")
    if log:
        v = np.ma.masked_where(v <= 0, v)
    if v.count() and vmin is None and mesh.norm.vmin is not None and mesh.norm.vmin > v.min() * (1 + 1e-9 * np.sign(v.min())):
        case.fail("colour-scale", f"{what}: automatic colour scale starts at {mesh.norm.vmin!r} above the data ({v.min()!r})")
    if v.count() and vmax is None and mesh.norm.vmax is not None and mesh.norm.vmax < v.max() * (1 - 1e-9 * np.sign(v.max())):
        case.fail("colour-scale", f"{what}: automatic colour scale ends at {mesh.norm.vmax!r} below the data ({v.max()!r})")


def see_return(case, ret, ax, mesh, colorbar, label, what, var=None, ds=None):
    case.see("returned")
    if colorbar:
        if not (isinstance(ret, tuple) and len(ret) == 2):
            case.fail("returned", f"{what}: returned {type(ret).__name__}, not (axes, colorbar)")
            return None
        got, cb = ret
        if getattr(cb, "mappable", None) is not mesh:
            case.fail("returned", f"{what}: the colour bar does not describe the drawn curtain")
        text = (cb.ax.get_ylabel() or cb.ax.get_xlabel())
        if label is not None and text != label:
            case.fail("returned", f"{what}: colour bar label {text!r} instead of {label!r}")
        if label is None and var is not None:
            see_quantity(case, text, ds, var, what + " (colour bar)")
    else:
        got, cb = ret, None
    if got is not ax:
        case.fail("returned", f"{what}: returned axes are not the ones drawn on")
    return cb


def see_quantity(case, text, ds, var, what):
    """A label generated for a field says which quantity (and class) it is: its symbol or unit, else its own unit or name."""
    case.see("labels")
    need = [x for k, xs in (("Ze", ("Z", "dBZ")), ("Vd", ("V", "m/s")), ("sigma_d", ("sigma", "m/s")), ("OD", ("tau",)),
                            ("beta", ("beta", "sr")), ("alpha", ("alpha", "m^{-1}")), ("LDR", ("LDR",))) if k in var for x in xs]
    if need and "LDR" not in var:
        need += [h for h in ("cl", "ci", "pl", "pi", "tot") if f"_{h}_" in var + "_"]
    if not need:
        a = ds[var].attrs
        need = [f"[{a['units']}]"] if "units" in a else [var]
        if "units" in a and len(a.get("long_name", "x" * 99)) <= 20:
            need.append(a["long_name"])
    if not isinstance(text, str) or not all(x in text for x in need):
        case.fail("labels", f"{what}: the default label of {var} is {text!r}, it should mention {need}")


def see_vertical(case, ax, what, ds=None, name=None, pressure=False, unit=None):
    """The vertical axis says what it shows."""
    text = ax.get_ylabel()
    case.see("labels")
    if name is not None:
        see_quantity(case, text, ds, name, what + " (vertical axis)")
        return
    ok = ("Pressure" in text) if pressure else any(w in text for w in ("Height", "Range", "Altitude"))
    if not ok or (unit is not None and unit not in text):
        case.fail("labels", f"{what}: the vertical axis shows {'pressure' if pressure else 'height'} [{unit}] but is "
                            f"labelled {text!r}")


def see_time_axis(case, ax, t, fmt, what):
    case.see("labels", 2)
    if "time" not in ax.get_xlabel().lower():
        case.fail("labels", f"{what}: the time axis is labelled {ax.get_xlabel()!r}")
    f = ax.xaxis.get_major_formatter()
    x = mdates.date2num(t[0])
    want = mdates.num2date(x).strftime(fmt)
    if f(x) != want:
        case.fail("labels", f"{what}: {t[0]} is written {f(x)!r} on the time axis, {want!r} was to be expected ({fmt})")


def see_title(case, ax, name, t, what):
    case.see("labels")
    s = ax.get_title()
    if name not in s or str(np.datetime64(t[0], "m")) not in s:
        case.fail("labels", f"{what}: the default title {s!r} should name {name} and the first time {t[0]}")


def see_limits(case, ax, xr_, yr, inverted, what, date=False):
    """Requested limits hold; pressure axes run downwards."""
    y0, y1 = ax.get_ylim()
    case.see("axis-limits")
    if inverted is not None and (y0 > y1) != inverted:
        case.fail("axis-limits", f"{what}: the vertical axis runs from {y0} to {y1}")
    if yr is not None and not np.allclose(sorted((y0, y1)), sorted(yr), rtol=1e-9):
        case.fail("axis-limits", f"{what}: y_range {yr} requested, axis shows {y0}..{y1}")
    if xr_ is not None:
        want = mdates.date2num(xr_) if date else xr_
        if not np.allclose(ax.get_xlim(), want, rtol=1e-12, atol=1e-9):
            case.fail("axis-limits", f"{what}: x_range {xr_} requested, axis shows {ax.get_xlim()}")


def colour_opts(rng, var, v):
    """(log, kwargs, vmin, vmax)"""
    f = v[np.isfinite(v)]
    log = bool(rng.uniform() < 0.5 and (f > 0).any())
    lo, hi = (1e-8, 1e-4) if var in LOGF else (-30., 10.) if not log else (0.1, 20.)
    if log and var not in LOGF:
        lo, hi = 0.1, 20.
    kw = {}
    which = rng.integers(0, 4)
    if log and which in (1, 2):     # a single limit: keep it on the right side of the data
        pos = f[f > 0]
        lo, hi = pos.min() / 2, pos.max() * 2
    elif which in (1, 2) and f.size:
        lo, hi = f.min() - 1, f.max() + 1
    if which in (0, 1):
        kw["vmin"] = lo
    if which in (0, 2):
        kw["vmax"] = hi
    if rng.uniform() < 0.4:
        kw["cmap"] = common.pick(rng, ["viridis", "Spectral_r", "magma"])
    return log, kw, kw.get("vmin"), kw.get("vmax")


def mask_opts(rng, shape):
    """(Mask_array, hatched, expected-transparent, expected-hatched); shape is that of the data (time, height)."""
    k = rng.integers(0, 6)
    if k <= 1:
        return None, False, np.zeros(shape, bool), None
    kind = rng.integers(0, 3)
    base = rng.uniform(size=shape) < 0.4
    M = base if kind == 0 else base.astype(int) * 3 if kind == 1 else np.where(base, rng.uniform(0.1, 2, shape),
                                                                                -rng.integers(0, 2, shape) * 1.0)
    if k == 2:
        return M, common.pick(rng, [True, "//", "xx"]), np.zeros(shape, bool), base
    if k == 3 and shape[0] != shape[1]:     # a mask of the wrong shape is ignored
        return M.T.copy(), common.pick(rng, [False, True]), np.zeros(shape, bool), None
    return M, False, base, None


def see_hatch(case, ax, x, y, base, what):
    """base: (y, x) boolean cells which must carry a hatch, or None for no hatch at all."""
    polys = [c for c in ax.collections if isinstance(c, PolyCollection) and c.get_hatch()]
    other = [c for c in ax.collections if isinstance(c, QuadMesh) and c.get_hatch()]
    case.see("hatch")
    if base is None or not base.any():
        if any(len(c.get_paths()) for c in polys) and (base is None or not base.any()):
            case.fail("hatch", f"{what}: hatching drawn where nothing is masked")
        return
    if other and not polys:
        return
    if len(polys) != 1:
        case.fail("hatch", f"{what}: {len(polys)} hatch layers for a hatched mask")
        return
    pts = set()
    case.see("hatch", int(base.size))
    if len(polys[0].get_paths()) != int(base.sum()):
        case.fail("hatch", f"{what}: {len(polys[0].get_paths())} cells hatched, {int(base.sum())} are masked")
        return
    X, Y = np.meshgrid(x, y)
    cells = [p.get_extents() for p in polys[0].get_paths()]
    want = np.argwhere(base)
    for b in cells:
        hit = [(i, j) for i, j in want if b.x0 - 1e-9 <= X[i, j] <= b.x1 + 1e-9 and b.y0 - 1e-9 <= Y[i, j] <= b.y1 + 1e-9]
        if not hit:
            case.fail("hatch", f"{what}: hatched cell {b.extents} holds no masked point")
            return
        pts.update(map(tuple, hit))
    if len(pts) < int(base.sum()):
        case.fail("hatch", f"{what}: some masked cells are not hatched")


def height_axis(m, ds, pressure):
    if pressure:
        return np.asarray(ds["height"].values if "height" in ds.coords else np.arange(ds.sizes["height"]), float)
    z = ds[m.z_field].values
    return z.mean(axis=0) if z.ndim == 2 else z


def unique_y(y):
    return len(np.unique(y)) == len(y)


# ------------------------------------------------------------------ scenarios
def timeseries(case):
    rng = case.rng
    lat = rng.uniform() < 0.3
    m = make(case, lat=lat)
    orig = m.ds
    sel = {}
    full = m.ds
    if lat:
        crop, kw = {}, {}
        for d, k in (("lat", "lat_sel"), ("lon", "lon_sel")):
            if d not in m.ds.dims:
                continue
            how = rng.integers(0, 3)
            if how == 0:
                crop[d] = 0
            elif how == 1:
                i = int(rng.integers(0, m.ds.sizes[d]))
                crop[d], kw[k] = i, common.pick(rng, [i, np.int64(i)])
            else:
                v = float(rng.uniform(m.ds[d].values.min() - 5, m.ds[d].values.max() + 5))
                crop[d], kw[k] = int(np.argmin(np.abs(m.ds[d].values - v))), common.pick(rng, [v, np.float64(v)])
        sel = kw
        full = m.ds.isel(crop)
        case.see("crop")
    w0 = Watch(case, ds=m.ds)
    d, idx = display(case, m, **sel)
    ax = d.axes[idx]
    two_d = rng.uniform() < 0.3
    var = common.pick(rng, ["tair", "qs_cl"]) if two_d else common.pick(rng, DB + LOGF + LIN)
    k = int(rng.integers(0, m.num_subcolumns))
    data = full[var] if two_d else full[var].isel(subcolumn=k)
    k = int(m.ds["subcolumn"].values[k])
    v = data.transpose("time", "height").values
    press = bool(rng.uniform() < 0.5)
    M, hat, gone, hatched = mask_opts(rng, v.shape)
    log, ckw, vmin, vmax = colour_opts(rng, var, np.where(gone, np.nan, v))
    kw = dict(ckw)
    if rng.uniform() < 0.4:
        kw["y_range"] = (float(rng.uniform(0, 10)), float(rng.uniform(500, 5000)))
    t = full["time"].values
    if rng.uniform() < 0.3:
        kw["x_range"] = (t[0] - np.timedelta64(600, "s"), t[-1] + np.timedelta64(300, "s"))
    cbl = common.pick(rng, [None, "my label"])
    cb = bool(rng.uniform() < 0.8)
    if rng.uniform() < 0.5:
        kw["title"] = "T!"
    if rng.uniform() < 0.3:
        kw["x_dateformat"] = "%H:%M"
    what = f"plot_subcolumn_timeseries({var}, {k}, pressure={press}, log={log}, mask={M is not None}, hatch={hat})"
    y = height_axis(m, full, press)
    w = Watch(case, d.fig, m.ds, [M] if M is not None else [])
    colkw = {} if two_d and rng.uniform() < 0.5 else {"column_no": k}
    ret = d.plot_subcolumn_timeseries(var, pressure_coords=press, subplot_index=idx, colorbar=cb, cbar_label=cbl,
                                      log_plot=log, Mask_array=M, hatched_mask=hat, **colkw, **kw)
    q = meshes(case, ax, what)[0]
    see_mesh(case, q, mdates.date2num(t), y, np.where(gone, np.nan, v).T, what)
    if M is not None:
        case.see("mask", v.size)
    see_hatch(case, ax, mdates.date2num(t), y, None if hatched is None else hatched.T, what)
    see_scale(case, q, log, vmin, vmax, what)
    see_return(case, ret, ax, q, cb, cbl, what, var, full)
    see_limits(case, ax, kw.get("x_range"), kw.get("y_range"), press, what, date=True)
    see_vertical(case, ax, what, full, m.height_dim if press else m.z_field)
    see_time_axis(case, ax, t, kw.get("x_dateformat", "%b%d-%H"), what)
    if "title" in kw:
        case.check(ax.get_title() == "T!", "returned", f"{what}: title {ax.get_title()!r}")
    else:
        see_title(case, ax, m.model_name, t, what)
    w.done(what, ax=ax)
    w0.done(what + " (display)", ds=orig)
    case.state("timeseries", press, log, M is not None, str(hat), two_d, lat, cb)
    plt.close(d.fig)


def fake_instrument(case, radar=None):
    rng = case.rng
    inst = world.instrument(common.pick(rng, ["KAZR", "HSRL"]))
    T, R = int(rng.integers(2, 9)), int(rng.integers(2, 12))
    r = common.pick(rng, ["range", "altitude", "height"])
    t = np.datetime64("2020-01-01", "ns") + np.arange(T) * np.timedelta64(30, "s")
    ds = xr.Dataset(coords={"time": t, r: np.sort(rng.uniform(0, 12000, R))})
    for n in ("Ze_obs", "beta_a_backscat", "linear_depol"):
        v = values(rng, {"Ze_obs": "Ze", "beta_a_backscat": LOGF[0], "linear_depol": "Vd"}[n], (T, R))
        ds[n] = xr.DataArray(v, dims=("time", r), attrs={"units": "u"})
    if r == "range" and rng.uniform() < 0.4:        # ranges from an instrument at some altitude
        ds["altitude"] = xr.DataArray(rng.uniform(0, 800)) if rng.uniform() < 0.5 else ds[r] + rng.uniform(100, 800)
    inst.ds = ds
    return inst, r


def instrument(case):
    rng = case.rng
    m = make(case)
    inst, r = fake_instrument(case)
    d, idx = display(case, m)
    ax = d.axes[idx]
    var = common.pick(rng, ["Ze_obs", "beta_a_backscat", "linear_depol"])
    v = inst.ds[var].values
    M, hat, gone, hatched = mask_opts(rng, v.shape)
    log, ckw, vmin, vmax = colour_opts(rng, LOGF[0] if "beta" in var else var, np.where(gone, np.nan, v))
    kw = dict(ckw)
    if rng.uniform() < 0.4:
        kw["y_range"] = (100., 5000.)
    t_ = inst.ds.time.values
    if rng.uniform() < 0.3:
        kw["x_range"] = (t_[0] - np.timedelta64(600, "s"), t_[-1] + np.timedelta64(300, "s"))
    if M is not None and rng.uniform() < 0.5 and M.shape == v.shape:
        M = xr.DataArray(M, dims=("time", r))
    what = f"plot_instrument_timeseries({var}, log={log}, mask={M is not None}, hatch={hat})"
    w = Watch(case, d.fig, inst.ds, [M.values if isinstance(M, xr.DataArray) else M] if M is not None else [])
    cb = bool(rng.uniform() < 0.8)
    cbl = common.pick(rng, ["L", None])
    ret = d.plot_instrument_timeseries(inst, var, subplot_index=idx, log_plot=log, Mask_array=M, hatched_mask=hat,
                                       colorbar=cb, cbar_label=cbl, **kw)
    q = meshes(case, ax, what)[0]
    t = mdates.date2num(inst.ds.time.values)
    see_mesh(case, q, t, inst.ds[r].values, np.where(gone, np.nan, v).T, what)
    if M is not None:
        case.see("mask", v.size)
    see_hatch(case, ax, t, inst.ds[r].values, None if hatched is None else hatched.T, what)
    see_scale(case, q, log, vmin, vmax, what)
    see_return(case, ret, ax, q, cb, cbl, what, var, inst.ds)
    see_limits(case, ax, kw.get("x_range"), kw.get("y_range"), False, what, date=True)
    see_vertical(case, ax, what, inst.ds, r)
    see_time_axis(case, ax, inst.ds.time.values, "%b%d-%H", what)
    see_title(case, ax, inst.instrument_str, inst.ds.time.values, what)
    w.done(what, ax=ax)
    case.state("instrument", log, M is not None, str(hat), cb)
    plt.close(d.fig)


def profile(case):
    rng = case.rng
    m = make(case)
    d, idx = display(case, m)
    ax = d.axes[idx]
    var = common.pick(rng, DB + LOGF + LIN)
    T = m.ds.sizes["time"]
    k = int(rng.integers(0, T))
    off = np.timedelta64(int(rng.integers(-290, 290)), "s")
    when = (m.ds.time.values[k] + off).astype("datetime64[s]")
    arg = common.pick(rng, [when, str(when)])
    v = m.ds[var].isel(time=k).values      # (subcolumn, height)
    press = bool(rng.uniform() < 0.5)
    one = m.ds.isel(time=k)
    y = height_axis(m, one, press)
    M, hat, gone, hatched = mask_opts(rng, v.shape)
    log, ckw, vmin, vmax = colour_opts(rng, var, np.where(gone, np.nan, v))
    kw = dict(ckw)
    if rng.uniform() < 0.4:
        kw["y_range"] = (0., 4000.)
    if rng.uniform() < 0.3:
        kw["x_range"] = (-0.5, 2.5)
    if rng.uniform() < 0.4:
        kw["title"] = "T!"
    cb = bool(rng.uniform() < 0.8)
    what = f"plot_single_profile({var}, {arg}, pressure={press}, log={log}, mask={M is not None}, hatch={hat})"
    w = Watch(case, d.fig, m.ds, [M] if M is not None else [])
    ret = d.plot_single_profile(var, arg, pressure_coords=press, subplot_index=idx, log_plot=log, Mask_array=M,
                                hatched_mask=hat, colorbar=cb, **kw)
    q = meshes(case, ax, what)[0]
    x = np.arange(m.num_subcolumns)
    see_mesh(case, q, x, y, np.where(gone, np.nan, v).T, what)
    if M is not None:
        case.see("mask", v.size)
    see_hatch(case, ax, x, y, None if hatched is None else hatched.T, what)
    see_scale(case, q, log, vmin, vmax, what)
    see_return(case, ret, ax, q, cb, None, what, var, one)
    see_limits(case, ax, kw.get("x_range"), kw.get("y_range"), press, what)
    see_vertical(case, ax, what, one, m.height_dim if press else m.z_field)
    case.see("labels", 2)
    if "title" in kw:
        if ax.get_title() != "T!":
            case.fail("labels", f"{what}: title {ax.get_title()!r}")
    elif m.model_name not in ax.get_title() or str(arg)[:16] not in ax.get_title():
        case.fail("labels", f"{what}: the default title is {ax.get_title()!r}, not naming {m.model_name} and {arg}")
    if "ubcol" not in ax.get_xlabel():
        case.fail("labels", f"{what}: the axis of the subcolumns is labelled {ax.get_xlabel()!r}")
    w.done(what, ax=ax)
    case.state("profile", press, log, M is not None, str(hat), cb)
    plt.close(d.fig)


def mean_sd(v, geom):
    """Mean and spread over axis 0 of the finite values (positive ones for the geometric mean)."""
    n = v.shape[1]
    mu, sd = np.full(n, np.nan), np.full(n, np.nan)
    for i in range(n):
        c = v[:, i]
        c = c[np.isfinite(c)]
        if geom:
            c = c[c > 0]
            if c.size:
                mu[i], sd[i] = np.exp(np.mean(np.log(c))), np.exp(np.std(np.log(c)))
        elif c.size:
            mu[i], sd[i] = np.mean(c), np.std(c)
    return mu, sd


def see_profile(case, ax, v, y, ze, geom, plot_sd, what):
    """v: (samples, level) values entering the statistics."""
    lin = 10 ** (v / 10.) if ze else v
    mu, sd = mean_sd(lin, geom)
    lo, hi = (mu / sd, mu * sd) if geom else (mu - sd, mu + sd)
    if ze:
        mu, hi = 10 * np.log10(mu), 10 * np.log10(hi)
        lo = np.where(lo > 0, 10 * np.log10(np.where(lo > 0, lo, 1)), np.where(np.isnan(lo), np.nan, -np.inf))
    lines = [ln for ln in ax.lines]
    case.see("mean-line")
    if len(lines) != 1:
        case.fail("mean-line", f"{what}: {len(lines)} lines drawn")
        return lo, hi
    x = np.ma.filled(np.ma.asarray(lines[0].get_xdata(orig=True)).astype(float), np.nan)
    case.equal("mean-line", x, mu, rtol=1e-7, atol=1e-7 if ze else 0, what=what + ": mean profile")
    case.equal("mean-line", np.asarray(lines[0].get_ydata(orig=True), float), y, rtol=1e-9, what=what + ": levels")
    bands = [c for c in ax.collections if isinstance(c, PolyCollection)]
    case.see("mean-band")
    if not plot_sd:
        if bands:
            case.fail("mean-band", f"{what}: a spread was drawn although it was switched off")
        return mu, mu
    if len(bands) != 1:
        case.fail("mean-band", f"{what}: {len(bands)} bands drawn")
        return lo, hi
    verts = np.concatenate([p.vertices for p in bands[0].get_paths()] or [np.zeros((0, 2))])
    seen = np.zeros(len(y), bool)
    scale = np.nanmax(np.abs(y)) + 1
    for px, py in verts:
        i = np.argmin(np.abs(y - py))
        if abs(y[i] - py) > 1e-6 * scale:
            continue        # closing vertices
        ok = [abs(px - e) <= 1e-6 * abs(e) + (1e-5 if ze else 1e-30 + 1e-7 * (abs(hi[i]) + abs(lo[i])))
              for e in (lo[i], hi[i]) if np.isfinite(e)]
        if ze and np.isneginf(lo[i]) and px < -100:
            ok.append(True)
        case.see("mean-band")
        if not any(ok):
            case.fail("mean-band", f"{what}: the band reaches {px!r} at level {py!r}, mean +- spread there is "
                                   f"{lo[i]!r}..{hi[i]!r}")
            return lo, hi
        if len(ok) and abs(px - hi[i]) <= 1e-6 * abs(hi[i]) + 1e-5:
            seen[i] = True
    need = np.isfinite(mu) & np.isfinite(hi)
    if (need & ~seen).any() and ze:
        case.fail("mean-band", f"{what}: no band at level {y[np.argwhere(need & ~seen)[0][0]]!r}")
    return lo, hi


def see_view(case, ax, lo, hi, what):
    """Without requested limits the drawn profile is inside the axis."""
    x0, x1 = sorted(ax.get_xlim())
    h = hi[np.isfinite(hi)]
    case.see("band-in-view")
    if h.size and (h.max() > x1 * (1 + 1e-9 * np.sign(x1)) + 1e-30):
        case.fail("band-in-view", f"{what}: the profile reaches {h.max()!r} but the axis ends at {x1!r}")
    lo = lo[np.isfinite(lo)]
    if lo.size and ax.get_xscale() == "linear" and lo.min() < x0 - 1e-9 * abs(x0) - 1e-30:
        case.fail("band-in-view", f"{what}: the profile reaches down to {lo.min()!r} but the axis starts at {x0!r}")


def see_horizontal(case, ax, kw, ds, var, what):
    case.see("labels")
    if "Xlabel" in kw:
        if ax.get_xlabel() != kw["Xlabel"]:
            case.fail("labels", f"{what}: x label {kw['Xlabel']!r} requested, {ax.get_xlabel()!r} drawn")
    else:
        see_quantity(case, ax.get_xlabel(), ds, var, what + " (horizontal axis)")


def geom_opt(rng, var):
    g = common.pick(rng, [False, True, "auto", "other"])
    isg = g is True or (g == "auto" and any(x in var for x in ["alpha", "beta", "OD", "Ze", "backscatter", "extinction",
                                                                "reflectivity"]))
    return g, isg


def mean(case):
    rng = case.rng
    lat = rng.uniform() < 0.15
    m = make(case, lat=lat)
    full = m.ds.isel({k: 0 for k in ("lat", "lon") if k in m.ds.dims})
    d, idx = display(case, m)
    ax = d.axes[idx]
    two_d = rng.uniform() < 0.15
    var = "tair" if two_d else common.pick(rng, DB + LOGF + LIN)
    t = full.time.values.astype("datetime64[s]")
    how = rng.integers(0, 4)
    time, pick = None, np.ones(len(t), bool)
    if how == 1:
        k = int(rng.integers(0, len(t)))
        when = t[k] + np.timedelta64(int(rng.integers(-290, 290)), "s")
        time = common.pick(rng, [when, str(when)])
        pick = np.arange(len(t)) == k
    elif how == 2 and len(t) > 1:
        i0 = int(rng.integers(0, len(t)))
        i1 = int(rng.integers(i0 + 1, len(t) + 1))
        # from the first time stamp (included) to the second (excluded); often exactly on output times
        lo_ = t[i0] - np.timedelta64(int(rng.choice([0, 120])), "s")
        hi_ = t[i1] if i1 < len(t) and rng.uniform() < 0.5 else t[i1 - 1] + np.timedelta64(240, "s")
        time = common.pick(rng, [(lo_, hi_), np.array([lo_, hi_])])
        pick = (np.arange(len(t)) >= i0) & (np.arange(len(t)) < i1)
    dims = ["time", "height"] if two_d else ["subcolumn", "time", "height"]
    v = full[var].transpose(*dims).values
    v = v[pick] if two_d else v[:, pick]
    shape = tuple(n for n in v.shape if n != 1)
    M = None
    if rng.uniform() < 0.4 and len(shape) >= 2 and v.shape[-1] > 1:
        base = rng.uniform(size=v.shape) < 0.3
        M = common.pick(rng, [base, base * 2, np.where(base, 0.5, -1.0)])
        v = np.where(base, np.nan, v)
        if how == 1:
            M = np.squeeze(M)
    press = bool(rng.uniform() < 0.5)
    yy = full[m.p_field if press else m.z_field]
    if "time" in yy.dims:
        yy = yy.isel(time=pick)
    y = yy.values.mean(axis=0) if yy.ndim == 2 else yy.values
    g, isg = geom_opt(rng, var)
    ze = "Ze" in var
    log = bool(rng.uniform() < 0.4) and not (var in LIN or two_d)
    sdon = bool(rng.uniform() < 0.75)
    kw = {}
    if rng.uniform() < 0.4:
        kw["x_range"] = (-60., 20.) if ze else (1e-9, 1e-2) if var in LOGF else (-5., 10.)
    if rng.uniform() < 0.3:
        kw["y_range"] = (100., 900.)
    if rng.uniform() < 0.5:
        kw["alpha"] = 0.3
    if rng.uniform() < 0.5:
        kw["title"] = "T!"
    if rng.uniform() < 0.3:
        kw["Xlabel"] = "X!"
    what = (f"plot_subcolumn_mean_profile({var}, time={time}, pressure={press}, geom={g}, log={log}, mask={M is not None}, "
            f"N={m.num_subcolumns}, T={len(t)}, H={len(y)})")
    w = Watch(case, d.fig, m.ds, [M] if M is not None else [])
    ret = d.plot_subcolumn_mean_profile(var, time=time, pressure_coords=press, subplot_index=idx, log_plot=log,
                                        plot_SD=sdon, Mask_array=M, use_geom_mean=g, **kw)
    case.check(ret is ax, "returned", f"{what}: returned {ret!r} instead of its axes")
    lo, hi = see_profile(case, ax, v.reshape(-1, v.shape[-1]), y, ze, isg, sdon, what)
    if "x_range" not in kw:
        see_view(case, ax, lo, hi, what)
    see_limits(case, ax, kw.get("x_range"), kw.get("y_range"), press if "y_range" not in kw else None, what)
    case.check(ax.get_xscale() == ("log" if log and not ze else "linear"), "axis-limits", f"{what}: x scale {ax.get_xscale()}")
    see_vertical(case, ax, what, pressure=press, unit="hPa" if press else "[m]")
    case.see("labels")
    if "title" in kw and ax.get_title() != "T!":
        case.fail("labels", f"{what}: title {ax.get_title()!r}")
    if "title" not in kw and isinstance(time, (str, np.datetime64)) and str(time)[:16] not in ax.get_title():
        case.fail("labels", f"{what}: the default title is {ax.get_title()!r}")
    see_horizontal(case, ax, kw, full, var, what)
    if M is not None:
        case.see("mask", v.size)
    w.done(what, ax=ax)
    case.state("mean", int(how), press, str(g), log, sdon, M is not None, two_d, lat)
    plt.close(d.fig)


def instrument_mean(case):
    rng = case.rng
    m = make(case)
    inst, r = fake_instrument(case)
    d, idx = display(case, m)
    ax = d.axes[idx]
    var = common.pick(rng, ["Ze_obs", "beta_a_backscat", "linear_depol"])
    v = inst.ds[var].values
    t = inst.ds.time.values
    kw = {}
    if rng.uniform() < 0.5:
        i0 = int(rng.integers(0, len(t)))
        i1 = int(rng.integers(i0 + 1, len(t) + 1))
        kw["time_range"] = common.pick(rng, [np.array, list])(
            [t[i0] - np.timedelta64(int(rng.choice([0, 5])), "s"),
             t[i1] if i1 < len(t) and rng.uniform() < 0.5 else t[i1 - 1] + np.timedelta64(7, "s")])
        v = v[i0:i1]
    if rng.uniform() < 0.4:
        base = rng.uniform(size=v.shape) < 0.3
        kw["Mask_array"] = common.pick(rng, [base, base * 2, np.where(base, 0.5, -1.0)])
        if rng.uniform() < 0.5:
            kw["Mask_array"] = xr.DataArray(kw["Mask_array"], dims=("time", r))
        v = np.where(base, np.nan, v)
    g, isg = geom_opt(rng, var)
    ze = "Ze" in var
    log = bool(rng.uniform() < 0.4) and "beta" in var
    sdon = bool(rng.uniform() < 0.75)
    if rng.uniform() < 0.4:
        kw["y_range"] = (0., 2000.)
    what = f"plot_instrument_mean_profile({var}, {kw.get('time_range')}, geom={g}, mask={'Mask_array' in kw})"
    M = kw.get("Mask_array")
    w = Watch(case, d.fig, inst.ds, [np.asarray(M)] if M is not None else [])
    ret = d.plot_instrument_mean_profile(inst, var, pressure_coords=False, subplot_index=idx, log_plot=log, plot_SD=sdon,
                                         use_geom_mean=g, alpha=0.2, **kw)
    case.check(ret is ax, "returned", f"{what}: returned {ret!r} instead of its axes")
    lo, hi = see_profile(case, ax, v, inst.ds[r].values, ze, isg, sdon, what)
    see_view(case, ax, lo, hi, what)
    see_limits(case, ax, None, kw.get("y_range"), False, what)
    see_vertical(case, ax, what, unit="[m]")
    see_horizontal(case, ax, kw, inst.ds, var, what)
    if M is not None:
        case.see("mask", v.size)
    w.done(what, ax=ax)
    case.state("instrument_mean", str(g), log, sdon, M is not None, "time_range" in kw)
    plt.close(d.fig)


def input_q(case):
    rng = case.rng
    m = make(case)
    d, idx = display(case, m)
    ax = d.axes[idx]
    N = m.num_subcolumns
    sub = rng.uniform() < 0.4
    k = int(rng.integers(0, N))
    var = "qs_cl"
    if sub:
        var = "strat_q_subcolumns_cl"
        world.put_subcolumns(m, rng, N)
        d = emc2.plotting.SubcolumnDisplay(m, figsize=(4, 3))
        idx = (0,)
        ax = d.axes[idx]
    v = (m.ds[var].isel(subcolumn=k) if sub else m.ds[var]).values
    k = int(m.ds["subcolumn"].values[k])
    press = bool(rng.uniform() < 0.4)
    y = height_axis(m, m.ds, press) / (1. if press else 1000.)
    M, hat, gone, hatched = mask_opts(rng, v.shape)
    log, ckw, vmin, vmax = colour_opts(rng, LOGF[0], np.where(gone, np.nan, v * 1000.))
    kw = dict(ckw)
    if rng.uniform() < 0.4:
        kw["y_range"] = (0., 15.)
    t_ = m.ds.time.values
    if rng.uniform() < 0.3:
        kw["x_range"] = (t_[0] - np.timedelta64(600, "s"), t_[-1] + np.timedelta64(300, "s"))
    fn = common.pick(rng, ["method", "function"])
    f = d.plot_column_input_q_timeseries if fn == "method" else (
        lambda *a, **b: sp.plot_column_input_q_timeseries(d, *a, **b))
    what = f"plot_column_input_q_timeseries[{fn}]({var}, pressure={press}, log={log}, mask={M is not None}, hatch={hat})"
    w = Watch(case, d.fig, m.ds, [M] if M is not None else [])
    ret = f(var, pressure_coords=press, subplot_index=idx, log_plot=log, Mask_array=M, hatched_mask=hat, cbar_label="q",
            column_no=k, **kw)
    q = meshes(case, ax, what)[0]
    t = mdates.date2num(m.ds.time.values)
    see_mesh(case, q, t, y, np.where(gone, np.nan, v * 1000.).T, what)
    see_hatch(case, ax, t, y, None if hatched is None else hatched.T, what)
    see_scale(case, q, log, vmin, vmax, what)
    see_return(case, ret, ax, q, True, "q", what)
    see_limits(case, ax, kw.get("x_range"), kw.get("y_range"), press, what, date=True)
    if press:
        see_vertical(case, ax, what, m.ds, m.height_dim)
    else:
        see_vertical(case, ax, what, unit="km")
    see_time_axis(case, ax, m.ds.time.values, "%b%d-%H", what)
    see_title(case, ax, m.model_name, m.ds.time.values, what)
    w.done(what, ax=ax)
    case.state("input_q", fn, press, log, M is not None, sub)
    plt.close(d.fig)


def regridded(case):
    rng = case.rng
    m = make(case)
    d, idx = display(case, m)
    ax = d.axes[idx]
    T, L, C, N = m.ds.sizes["time"], int(rng.integers(2, 12)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
    mid = np.arange(L) * 0.48 + 0.24
    col, k = int(rng.integers(0, C)), int(rng.integers(0, N))
    which = common.pick(rng, ["CF", "SR"])
    if which == "CF":
        A = rng.uniform(0, 1, size=(T, L, C)) * common.pick(rng, [1., 1., 0.02])
        A[rng.uniform(size=A.shape) < 0.3] = 0
        A[rng.uniform(size=A.shape) < 0.1] = np.nan
        A[rng.uniform(size=A.shape) < 0.05] = -1
        v = np.where(A[:, :, col] > 0, A[:, :, col], np.nan)
        y = mid
    else:
        A = rng.uniform(0, 80, size=(N, T, L, C)) * common.pick(rng, [1., 1., 1e-4])
        A[rng.uniform(size=A.shape) < 0.3] = 0
        A[rng.uniform(size=A.shape) < 0.1] = np.nan
        v = np.where(A[k, :, :, col] != 0, A[k, :, :, col], np.nan)
        y = mid * 1000.
    kw = {}
    if rng.uniform() < 0.5:
        kw.update(vmin=0., vmax=1.)
    if rng.uniform() < 0.4:
        kw["y_range"] = (0., 15.)
    t_ = m.ds.time.values
    if rng.uniform() < 0.3:
        kw["x_range"] = (t_[0] - np.timedelta64(600, "s"), t_[-1] + np.timedelta64(300, "s"))
    what = f"plot_regridded_{which}_timeseries"
    w = Watch(case, d.fig, m.ds, [A, mid])
    cb = bool(rng.uniform() < 0.8)
    kw.update(colorbar=cb, cbar_label="L", subplot_index=idx)
    if T == 1:
        kw["title"] = "T!"
    if which == "CF":
        ret = d.plot_regridded_CF_timeseries(A, mid, col, **kw)
    else:
        ret = d.plot_regridded_SR_timeseries(A, mid, col, k, **kw)
    q = meshes(case, ax, what)[0]
    see_mesh(case, q, mdates.date2num(m.ds.time.values), y, v.T, what)
    see_scale(case, q, False, kw.get("vmin"), kw.get("vmax"), what)
    see_return(case, ret, ax, q, cb, "L", what)
    see_limits(case, ax, kw.get("x_range"), kw.get("y_range"), False, what, date=True)
    see_vertical(case, ax, what, unit="[km]" if which == "CF" else "[m]")
    see_time_axis(case, ax, m.ds.time.values, "%b%d-%H", what)
    if "title" not in kw:
        see_title(case, ax, m.model_name, m.ds.time.values, what)
    w.done(what, ax=ax)
    case.state("regridded", which, cb, "vmin" in kw)
    plt.close(d.fig)


def classmask(case):
    rng = case.rng
    m = make(case)
    d, idx = display(case, m)
    ax = d.axes[idx]
    _, cb = d.plot_subcolumn_timeseries("phase_mask_test", int(m.ds["subcolumn"].values[0]), subplot_index=idx)
    q = meshes(case, ax, "class mask")[0]
    before = np.ma.filled(np.ma.asarray(q.get_array()).astype(float), np.nan).copy()
    how = rng.integers(0, 3)
    nz = bool(rng.uniform() < 0.5)
    legend = ["p", "q", "r"] if how == 0 else ["p", "q", "r", "s", "t"] if how == 1 else None
    want = legend or m.ds["phase_mask_test"].attrs["legend"]
    keep = list(want)
    kw = {"class_legend": legend} if legend else {"variable": "phase_mask_test"}
    what = f"change_plot_to_class_mask({kw}, convert_zeros_to_nan={nz})"
    w = Watch(case, d.fig, m.ds)
    ret = d.change_plot_to_class_mask(cb, convert_zeros_to_nan=nz, cbar_label="C", **kw)
    case.see("class-colourbar")
    if ret is not cb:
        case.fail("class-colourbar", f"{what}: returned another colour bar")
    labels = [x.get_text() for x in cb.ax.get_yticklabels()]
    exp = keep if nz else ["clear"] + keep
    if labels != exp:
        case.fail("class-colourbar", f"{what}: labels {labels} instead of {exp}")
    ticks = list(cb.get_ticks())
    first = 1 if nz else 0
    if len(ticks) != len(exp) or not np.allclose(ticks, np.arange(first, len(keep) + 1)):
        case.fail("class-colourbar", f"{what}: ticks at {ticks} for classes {first}..{len(keep)}")
    # every class value gets a colour of its own
    vals = np.arange(first, len(keep) + 1)
    cols = {tuple(q.cmap(q.norm(float(x)))) for x in vals}
    lims = q.get_clim()
    if not (lims[0] < first and lims[1] > len(keep)):
        case.fail("class-colourbar", f"{what}: colour limits {lims} do not cover classes {first}..{len(keep)}")
    if q.cmap.N != len(vals) or len({int(np.clip(q.norm(float(x)) * q.cmap.N, 0, q.cmap.N - 1)) for x in vals}) != len(vals):
        case.fail("class-colourbar", f"{what}: {len(vals)} classes share {len(cols)} colours ({q.cmap.N} in the map)")
    after = np.ma.filled(np.ma.asarray(q.get_array()).astype(float), np.nan)
    case.equal("mesh-values", after, before, what=what + ": values after relabelling")
    if legend is not None:
        case.check(legend == keep, "data-untouched", f"{what}: the legend list was modified")
    w.done(what)
    case.raises("rejects", ValueError, d.change_plot_to_class_mask, cb)
    case.state("classmask", int(how), nz)
    plt.close(d.fig)


def meansd(case):
    rng = case.rng
    m = make(case)
    d = emc2.plotting.SubcolumnDisplay(m, figsize=(2, 2))
    shape = tuple(int(x) for x in rng.integers(2, 7, size=int(rng.integers(1, 4))))
    if rng.uniform() < 0.3:
        shape = (int(rng.integers(20, 300)),) + shape[1:]
    v = rng.normal(size=shape) * 10 ** rng.uniform(-6, 3)
    v[rng.uniform(size=shape) < 0.2] = np.nan
    pos = bool(rng.uniform() < 0.6)
    if pos:
        v = np.abs(v)
    if len(shape) == 1:
        axis = common.pick(rng, [None, 0])
    else:
        axis = common.pick(rng, [None, 0, len(shape) - 1, (0, 1)])
    for geom in (False, True):
        keep = v.copy()
        mu, sd = d.calc_mean_and_sd(v, use_geom_mean=geom, axis=axis)
        case.check(eq(keep, v), "data-untouched", "calc_mean_and_sd modified its input")
        ax_ = tuple(range(v.ndim)) if axis is None else (axis,) if np.isscalar(axis) else axis
        rest = [i for i in range(v.ndim) if i not in ax_]
        flat = np.transpose(v, list(ax_) + rest).reshape(int(np.prod([shape[i] for i in ax_])), -1)
        em, es = mean_sd(flat, geom)
        oshape = [shape[i] for i in rest]
        case.equal("mean-and-sd", mu, em.reshape(oshape), rtol=1e-9, what=f"mean (geom={geom}, axis={axis})")
        case.equal("mean-and-sd", sd, es.reshape(oshape), rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(v)) if not geom else 1e-9,
                   what=f"SD (geom={geom}, axis={axis})")
        case.state("meansd", len(shape), str(axis), geom, pos)
    plt.close(d.fig)


def crop(case):
    rng = case.rng
    m = make(case, lat=True)
    orig = m.ds
    w = Watch(case, ds=orig)
    kw, want = {}, {}
    for dname, k in (("lat", "lat_sel"), ("lon", "lon_sel")):
        if dname not in m.ds.dims:
            continue
        how = rng.integers(0, 4)
        n = m.ds.sizes[dname]
        if how == 0:
            want[dname] = 0
        elif how in (1, 2):
            i = int(rng.integers(-n, n))
            kw[k], want[dname] = (i if how == 1 else common.pick(rng, [np.int64, np.int32])(i)), i
        else:
            v = rng.uniform(-90, 370)
            kw[k] = common.pick(rng, [float, np.float64, np.float32])(v)
            want[dname] = int(np.argmin(np.abs(m.ds[dname].values - float(kw[k]))))
    d = emc2.plotting.SubcolumnDisplay(m, figsize=(2, 2), **kw)
    exp = orig.isel(want)
    got = list(d._ds.values())[0]
    what = f"SubcolumnDisplay({kw})"
    for name in list(exp.data_vars):
        case.see("crop")
        if got[name].dims != exp[name].dims:
            case.fail("crop", f"{what}: {name} has dims {got[name].dims} after cropping, expected {exp[name].dims}")
            break
        if not eq(got[name].values, exp[name].values):
            case.fail("crop", f"{what}: {name} belongs to another grid point")
            break
    w.done(what, ds=orig)
    case.check(m.ds is orig, "crop", f"{what}: the caller's model lost its own dataset")
    case.state("crop", tuple(sorted((k, type(v).__name__) for k, v in kw.items())))
    plt.close(d.fig)


def reject(case):
    rng = case.rng
    m = make(case)
    inst, r = fake_instrument(case)
    d, idx = display(case, m)
    N = m.num_subcolumns
    bad = common.pick(rng, ["field", "subcolumn", "instrument", "profile", "mean", "inst_mean", "q"])
    E = (KeyError, IndexError, ValueError)
    w = Watch(case, d.fig, m.ds)
    if bad == "field":
        case.raises("rejects", E, d.plot_subcolumn_timeseries, "nope", 0, subplot_index=idx)
    elif bad == "subcolumn":
        case.raises("rejects", E, d.plot_subcolumn_timeseries, DB[0], int(common.pick(rng, [N + 3, N + 8, 1000])),
                    subplot_index=idx)
    elif bad == "instrument":
        case.raises("rejects", E, d.plot_instrument_timeseries, inst, "nope", subplot_index=idx)
    elif bad == "profile":
        case.raises("rejects", E, d.plot_single_profile, "nope", m.ds.time.values[0], subplot_index=idx)
    elif bad == "mean":
        case.raises("rejects", E, d.plot_subcolumn_mean_profile, "nope", subplot_index=idx)
    elif bad == "inst_mean":
        case.raises("rejects", E, d.plot_instrument_mean_profile, inst, "nope", subplot_index=idx)
    else:
        case.raises("rejects", E, d.plot_column_input_q_timeseries, "nope", subplot_index=idx)
    w.done("rejected request")
    drawn = [a for a in d.fig.axes if a.collections or a.lines]
    case.check(not drawn, "rejects", f"a rejected request ({bad}) left something on the figure")
    case.state("reject", bad)
    plt.close(d.fig)


def switch(case):
    """The display's dataset can be replaced by another model's; then that one is drawn."""
    rng = case.rng
    m = make(case)
    m2 = world.clone(m)
    var = common.pick(rng, DB)
    m2.ds[var] = m2.ds[var] + 7.
    d, idx = display(case, m)
    d._switch_model(m2)
    d.plot_subcolumn_timeseries(var, int(m2.ds["subcolumn"].values[0]), subplot_index=idx)
    q = meshes(case, d.axes[idx], "switched model")[0]
    see_mesh(case, q, mdates.date2num(m2.ds.time.values), height_axis(m2, m2.ds, True),
             m2.ds[var].isel(subcolumn=0).values.T, "plot after _switch_model")
    case.state("switch", var)
    plt.close(d.fig)


def overlay(case):
    """Several plots on one axis (the usual way to compare profiles): each keeps its own line, pressure keeps running down."""
    rng = case.rng
    m = make(case)
    d, idx = display(case, m)
    ax = d.axes[idx]
    n = int(rng.integers(2, 5))
    kind = common.pick(rng, ["mean", "curtain", "profile"])
    press = bool(rng.uniform() < 0.7)
    names = [common.pick(rng, DB) for _ in range(n)]
    for var in names:
        if kind == "mean":
            d.plot_subcolumn_mean_profile(var, pressure_coords=press, subplot_index=idx, plot_SD=False)
        elif kind == "curtain":
            d.plot_subcolumn_timeseries(var, int(m.ds["subcolumn"].values[0]), pressure_coords=press, subplot_index=idx, colorbar=False)
        else:
            d.plot_single_profile(var, m.ds.time.values[0], pressure_coords=press, subplot_index=idx, colorbar=False)
    what = f"{n} {kind} plots on one axis, pressure={press}"
    if kind == "mean":
        case.see("mean-line")
        if len(ax.lines) != n:
            case.fail("mean-line", f"{what}: {len(ax.lines)} lines")
        else:
            for ln, var in zip(ax.lines, names):
                v = m.ds[var].values
                mu, _ = mean_sd(10 ** (v.reshape(-1, v.shape[-1]) / 10), False)
                x = np.ma.filled(np.ma.asarray(ln.get_xdata(orig=True)).astype(float), np.nan)
                case.equal("mean-line", x, 10 * np.log10(mu), rtol=1e-7, atol=1e-7, what=f"{what}: {var}")
    else:
        meshes(case, ax, what, n)
    see_limits(case, ax, None, None, press, what)
    case.state("overlay", kind, n, press)
    plt.close(d.fig)


# ---- figures of the statistics module (E3SM layout: subcolumn, time, lev, ncol)
class Bare:
    pass


def e3sm_like(case):
    rng = case.rng
    N, T, L, C = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(2, 8)), int(rng.integers(1, 4))
    m = Bare()
    m.time_dim, m.z_field, m.height_dim, m.model_name = "time", "Z3", "lev", "E3SMv1"
    T = max(T, 2)
    t = np.datetime64("2020-01-01") + np.arange(T) * np.timedelta64(3600, "s")
    ds = xr.Dataset(coords={"time": t, "lev": np.linspace(1000, 100, L), "ncol": np.arange(C), "subcolumn": np.arange(N)})
    z = np.cumsum(rng.uniform(100, 1500, size=(L,)))[None, :, None] + rng.uniform(0, 50, size=(T, 1, C))
    ds["Z3"] = xr.DataArray(z, dims=("time", "lev", "ncol"))
    for name in ("sub_col_Ze_att_tot", "sub_col_Ze_tot"):
        v = values(rng, "Ze", (N, T, L, C))
        ds[name] = xr.DataArray(np.where(rng.uniform(size=v.shape) < 0.1, -1e30, v), dims=("subcolumn", "time", "lev", "ncol"))
    for name in ("sub_col_beta_att_tot", "sub_col_beta_p_tot"):
        v = values(rng, LOGF[0], (N, T, L, C))
        ds[name] = xr.DataArray(np.where(rng.uniform(size=v.shape) < 0.1, -1e41, v), dims=("subcolumn", "time", "lev", "ncol"))
    for h in ("cl", "ci", "pl", "pi"):
        v = np.where(rng.uniform(size=(N, T, L, C)) < 0.4, 0., 10 ** rng.uniform(-7, -3, size=(N, T, L, C)))
        if rng.uniform() < 0.3:
            v[rng.uniform(size=v.shape) < 0.2] = np.nan
        ds[f"strat_q_subcolumns_{h}"] = xr.DataArray(v, dims=("subcolumn", "time", "lev", "ncol"))
    m.ds = ds
    return m


def laid_out(a, bad=None):
    """(subcolumn, time, lev) -> (lev, time*subcolumn): all subcolumns of a time side by side."""
    N, T, L = a.shape
    out = np.empty((L, T * N))
    for t in range(T):
        for s in range(N):
            out[:, t * N + s] = a[s, t]
    return np.where(bad(out), np.nan, out) if bad else out


def which_alpha(q):
    return q.get_alpha()


def check_texts(case, axs, names, unit, what):
    """Every panel carries its own name, and its colour bar its unit."""
    for i, (a, name) in enumerate(zip(axs, names)):
        w = f"{what} panel {i}"
        case.see("labels", 2)
        texts = [x.get_text() for x in a.texts] + [a.get_title()]
        if not any(name in x for x in texts):
            case.fail("labels", f"{w}: named {texts}, it shows {name}")
        for x in a.texts:
            px, py = x.get_transform().transform(x.get_position())
            lo, hi = a.bbox.min, a.bbox.max
            if not (lo[0] - 1 <= px <= hi[0] + 1 and lo[1] - 1 <= py <= hi[1] + 0.2 * (hi[1] - lo[1])):
                case.fail("labels", f"{w}: its name is written at {(px, py)}, outside the panel {lo}..{hi}")
        q = [c for c in a.collections if isinstance(c, QuadMesh)][0]
        cb = q.colorbar
        case.see("labels")
        if cb is None:
            case.fail("labels", f"{w}: no colour bar belongs to it")
            continue
        text = cb.ax.get_ylabel() or cb.ax.get_xlabel()
        if unit[i] not in text:
            case.fail("labels", f"{w}: its colour bar is labelled {text!r}, not in {unit[i]}")
        b, c = a.get_position(), cb.ax.get_position()
        if min(b.y1, c.y1) - max(b.y0, c.y0) < 0.5 * c.height:
            case.fail("labels", f"{w}: its colour bar stands beside another panel (y {c.y0:.2f}..{c.y1:.2f}, panel "
                                f"{b.y0:.2f}..{b.y1:.2f})")


def check_panel_dates(case, axs, t, what):
    for i, a in enumerate(axs):
        case.see("labels")
        got, want = a.xaxis.get_major_formatter()(t[0]), mdates.num2date(t[0]).strftime("%b%d-%H")
        if got != want:
            case.fail("labels", f"{what} panel {i}: {want} is written {got!r} on the time axis")
    if "time" not in axs[-1].get_xlabel().lower():
        case.fail("labels", f"{what}: the time axis is labelled {axs[-1].get_xlabel()!r}")


def check_panels(case, fig, m, col, panels, what, alpha=None, names=(), unit=()):
    """panels: list of (data (N,T,L), log, vmin, vmax)."""
    axs = [a for a in fig.axes if any(isinstance(c, QuadMesh) for c in a.collections) and a.get_label() != "<colorbar>"
           and a.get_ylabel().startswith("Height")]
    case.see("returned")
    if len(axs) != len(panels):
        case.fail("returned", f"{what}: {len(axs)} panels instead of {len(panels)}")
        return
    check_texts(case, axs, names, unit, what)
    N, T, L = panels[0][0].shape
    t = mdates.date2num(m.ds.time.values)
    check_panel_dates(case, axs, t, what)
    z = m.ds["Z3"].values[:, :, col] / 1000.
    Y = np.repeat(z.T, N, axis=1)
    for i, (a, (v, log, vmin, vmax, bad)) in enumerate(zip(axs, panels)):
        q = meshes(case, a, what)[0]
        w = f"{what} panel {i}"
        exp = laid_out(v, bad)
        arr = np.ma.filled(np.ma.asarray(q.get_array()).astype(float), np.nan).reshape(exp.shape)
        case.equal("mesh-values", arr, exp, rtol=1e-12, what=w + ": drawn values")
        co = np.asarray(q.get_coordinates())
        xc = (co[:-1, :-1, 0] + co[:-1, 1:, 0]) / 2
        if T > 1:
            # the cells of one time step lie next to it: at most one time step away and in order of time
            dt = np.diff(t).max()
            for j in range(T):
                cells = xc[0, j * N:(j + 1) * N]
                case.see("mesh-position", N)
                if (np.abs(cells - t[j]) > dt * 1.01).any():
                    case.fail("mesh-position", f"{w}: subcolumns of time {t[j]} drawn at {cells}")
                    break
            if not (np.diff(xc[0]) > 0).all():
                case.fail("mesh-position", f"{w}: subcolumns are not drawn in order of time")
            yc = (co[:-1, :, 1] + co[1:, :, 1]) / 2
            yc = (yc[:, :-1] + yc[:, 1:]) / 2
            case.see("mesh-position", yc.size)
            # inner cells: within half the neighbouring level distances of their own height
            gap = np.abs(np.diff(z, axis=1)).max()
            if (np.abs(yc - Y) > gap).any():
                case.fail("mesh-position", f"{w}: values drawn up to {np.abs(yc - Y).max()} km from their own height")
        see_scale(case, q, log, vmin, vmax, w)
        if alpha is not None and which_alpha(q) != alpha:
            case.fail("colour-scale", f"{w}: keyword alpha={alpha} did not reach the curtain ({which_alpha(q)})")


def allsubcols(case):
    rng = case.rng
    m = e3sm_like(case)
    col = int(rng.integers(0, m.ds.sizes["ncol"]))
    which = common.pick(rng, ["att", "nonatt", "SR", "q", "qcp"])
    plt.close("all")
    kw = {}
    tmp = None
    flag = ""
    args = ["", "case"]
    if rng.uniform() < 0.12:
        tmp = tempfile.mkdtemp(prefix="rv_c23_")
        flag, args = "save", [tmp, "case"]
    if rng.uniform() < 0.4:
        kw["cmap"] = "viridis"
    if rng.uniform() < 0.3:
        kw["alpha"] = 0.5
    get = lambda n: m.ds[n].values[:, :, :, col].copy()  # noqa: E731
    arrays = []
    small, under = (lambda v: v <= -1e20), (lambda v: v <= -1e40)
    zero, neg = (lambda v: v <= 0), (lambda v: v < 0)
    rl, rr = (1e-8, 1e-1), (-50, 10)
    fname = None
    if which in ("att", "nonatt"):
        if rng.uniform() < 0.6:
            rr = (-40., 20.)
            kw.update(vmin_radar=rr[0], vmax_radar=rr[1])
        if rng.uniform() < 0.6:
            rl = (1e-7, 1e-4)
            kw.update(vmin_lidar=rl[0], vmax_lidar=rl[1])
        if which == "att":
            f = sp.plot_every_subcolumn_timeseries_radarlidarsignal
            panels = [(get("sub_col_Ze_att_tot"), False, *rr, small), (get("sub_col_beta_att_tot"), True, *rl, under)]
            fname = "radar_lidar_att_allsubcols_case.png"
        else:
            f = sp.plot_every_subcolumn_timeseries_nonatt_radarlidarsignal
            panels = [(get("sub_col_Ze_tot"), False, *rr, small), (get("sub_col_beta_p_tot"), True, *rl, under)]
            fname = "radar_lidar_nonatt_allsubcols_case.png"
    elif which == "SR":
        N, T, L, C = m.ds["sub_col_Ze_tot"].shape
        A = 10 ** rng.uniform(-8, -4, size=(N, T, L, C))
        A[rng.uniform(size=A.shape) < 0.2] = np.nan
        B = 10 ** rng.uniform(-8, -6, size=(N, T, L, C))
        arrays = [A, B]
        lim = (None, None)
        if rng.uniform() < 0.6:
            lim = (0., 50.)
            kw.update(vmin=0., vmax=50.)
        f = lambda mm, c, fl, *a, **k: sp.plot_every_subcolumn_timeseries_SR(mm, A, B, c, fl, *a, **k)  # noqa: E731
        panels = [((A / B)[:, :, :, col], False, *lim, under)]
        fname = "radar_lidar_SR_allsubcols_case.png"
    else:
        lim = (0, 0.1)
        if rng.uniform() < 0.6:
            lim = (0.001, 0.05)
            kw.update(vmin=lim[0], vmax=lim[1])
        q = {h: get(f"strat_q_subcolumns_{h}") for h in ("cl", "ci", "pl", "pi")}
        if which == "q":
            f = sp.plot_every_subcolumn_timeseries_mixingratio
            panels = [(q[h] * 1000., False, *lim, zero) for h in ("cl", "ci", "pl", "pi")]
            fname = "q_allsubcols_case.png"
        else:
            f = sp.plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation
            panels = [((q["cl"] + q["ci"]) * 1000., False, *lim, neg), ((q["pl"] + q["pi"]) * 1000., False, *lim, neg)]
            fname = "q_cloud_precipitation_allsubcols_case.png"
    names = {"att": ("Radar", "Lidar"), "nonatt": ("Radar", "Lidar"), "SR": ("SR",), "q": ("cl", "ci", "pl", "pi"),
             "qcp": ("Cloud", "Precip")}[which]
    unit = {"att": ("dBZ", "sr"), "nonatt": ("dBZ", "sr"), "SR": ("SR",)}.get(which, ("g/kg",) * 4)
    what = f"{which} figure of all subcolumns ({kw})"
    w = Watch(case, None, m.ds, arrays)
    try:
        f(m, col, flag, *args, **kw)
        check_panels(case, plt.gcf(), m, col, panels, what, kw.get("alpha"), names, unit)
        w.done(what)
        if tmp:
            case.check(os.path.exists(os.path.join(tmp, fname)), "figure-saved", f"{what}: {fname} was not written")
    finally:
        plt.close("all")
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    case.state("allsubcols", which, tuple(sorted(kw)), flag)


def cfad(case):
    rng = case.rng
    which = common.pick(rng, ["Ze", "SR"])
    L = int(rng.integers(2, 40))
    mid = np.arange(L) * 0.48 + 0.24
    if which == "Ze":
        edges = np.arange(-50, 11, common.pick(rng, [5., 10., 2.5]))
    else:
        edges = np.array([-1., 0.01, 1.2, 3.0, 5.0, 7.0, 10.0, 15.0, 20.0, 25.0, 30.0, 40.0, 50.0, 60.0, 80.0, 999.])
    A = rng.uniform(0, 0.3, size=(L, len(edges) - 1))
    A[rng.uniform(size=A.shape) < 0.2] = np.nan
    kw, lim = {}, (0., 0.2) if which == "Ze" else (None, None)
    mode = rng.integers(0, 3)
    if mode == 1:
        lim = (0.01, 0.5)
        kw.update(vmin=0.01, vmax=0.5)
    elif mode == 2:
        lim = (lim[0], 0.4)
        kw.update(vmax=0.4)
    if rng.uniform() < 0.4:
        kw["cmap"] = "viridis"
    tmp = None
    flag, args = "", ["", "c"]
    if rng.uniform() < 0.15:
        tmp = tempfile.mkdtemp(prefix="rv_c23_")
        flag, args = "save", [tmp, "c"]
    plt.close("all")
    w = Watch(case, None, None, [edges, mid, A])
    what = f"{which} frequency diagram ({kw})"
    try:
        (sp.plot_radar_CFAD if which == "Ze" else sp.plot_lidar_SR_CFAD)(edges, mid, A, flag, *args, **kw)
        fig = plt.gcf()
        ax = fig.axes[0]
        q = meshes(case, ax, what)[0]
        x = (edges[:-1] + edges[1:]) / 2 if which == "Ze" else np.arange(len(edges) - 1) + 0.5
        see_mesh(case, q, x, mid, A, what)
        see_scale(case, q, False, lim[0], lim[1], what)
        see_vertical(case, ax, what, unit="km")
        case.see("labels", 3)
        if which not in ax.get_xlabel() or ("Radar" if which == "Ze" else "Lidar") not in ax.get_title():
            case.fail("labels", f"{what}: x label {ax.get_xlabel()!r}, title {ax.get_title()!r}")
        if q.colorbar is None or "freq" not in (q.colorbar.ax.get_ylabel() + q.colorbar.ax.get_xlabel()).lower():
            case.fail("labels", f"{what}: no colour bar of the frequencies")
        w.done(what)
        if tmp:
            case.check(len(os.listdir(tmp)) == 1, "figure-saved", f"{what}: nothing was written")
    finally:
        plt.close("all")
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    case.state("cfad", which, int(mode), flag)


SCENARIOS = dict(timeseries=timeseries, instrument=instrument, profile=profile, mean=mean, instrument_mean=instrument_mean,
                 input_q=input_q, regridded=regridded, classmask=classmask, meansd=meansd, crop=crop, reject=reject,
                 switch=switch, allsubcols=allsubcols, cfad=cfad, overlay=overlay)
