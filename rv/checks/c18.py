"""C18: cropping, stacking, dimension order, appended strings, bounding boxes."""
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

from .. import world, common

PROPERTY = "C18"
RULE = ("every value of every variable is looked up by its own coordinates before and after: time crops with bounds on, "
        "between and beyond the stored times, out of range on either side, in memory and file-backed, by main or "
        "alternative (repeated, unsorted) time coordinates; stack/unstack round trips for lat x lon x time sizes 1..4 "
        "in any dimension order with partial-dimension fields, auxiliary coordinates and subcolumn fields; appended "
        "sub-domain strings with 1-4 sub-domains; boxes on rectangular and curvilinear grids; all sizes are drawn "
        "independently so that mixed-up axes cannot go unnoticed")
REQUIRED = {"crop": 20000, "stack": 20000, "unstack": 20000, "permute": 5000, "appended": 5000, "box": 2000,
            "reject": 2}


def plan(tier):
    n = 40 if tier == "quick" else 800
    return [("crop", 3 * n), ("stacking", 4 * n), ("permute", n), ("appended", 2 * n), ("box", 2 * n), ("reject", 4)]


def scratch():
    return tempfile.mkdtemp(prefix="rv_c18_", dir="/tmp")


def same(case, mon, ds, want, what, dims=True):
    """Every variable of `want` is in ds with the same dims and values."""
    for k in want.variables:
        w = want[k]
        if k not in ds.variables:
            case.see(mon)
            case.fail(mon, f"{what}: {k} was lost")
            continue
        a = ds[k]
        if a.dims != w.dims or a.shape != w.shape:
            case.see(mon)
            case.fail(mon, f"{what}: {k} is {dict(a.sizes)}, expected {dict(w.sizes)}")
            continue
        if w.dtype.kind in "fiub":
            case.equal(mon, a.values, w.values, rtol=0, what=f"{what}: {k}")
        else:
            case.check(np.array_equal(a.values, w.values), mon, f"{what}: {k} changed")
        case.check(a.attrs.get("units") == w.attrs.get("units"), mon, f"{what}: units of {k} changed")


def crop(case):
    rng = case.rng
    T, H = int(rng.integers(1, 12)), int(rng.integers(2, 6))
    _, T, H = common.stretch(case, 3, T, H)
    m = world.make_model(rng, common.pick(rng, ["ModelE", "CESM"]), 3, T, H, dims=("time", "height"))
    step = np.timedelta64(600, "s")
    t = m.ds["time"].values.astype("datetime64[ns]")
    m.ds["hyam"] = ("height", rng.uniform(size=H))
    m.ds["per_time"] = ("time", rng.uniform(size=T), {"units": "K"})
    if rng.uniform() < 0.5:
        m.ds = m.ds.transpose(*[["time", "height"], ["height", "time"]][int(rng.integers(0, 2))])
    alter, tc = None, t
    if rng.uniform() < 0.3:      # unstructured output: another coordinate holds the (repeated, unsorted) times
        tc = rng.choice(t, T)
        m.ds = m.ds.drop_vars("time").assign_coords(clock=("time", tc))
        alter = "clock"
    tmp = scratch()
    try:
        backed = rng.uniform() < 0.4
        if backed:
            f = os.path.join(tmp, "m.nc")
            m.ds.to_netcdf(f)
            m.ds = xr.open_dataset(f)
        orig = (xr.open_dataset(f) if backed else m.ds).copy(deep=True).load()
        k = int(rng.integers(0, 6))
        if k == 0:
            a, b = t[0] - 50 * step, t[0] - step
        elif k == 1:
            a, b = t[-1] + step, t[-1] + 3 * step
        elif k == 2:
            a = t[int(rng.integers(0, T))]
            b = t[int(rng.integers(0, T))]
            a, b = min(a, b), max(a, b)
        elif k == 3:
            a = t[int(rng.integers(0, T))] + np.timedelta64(1, "s")
            b = a + np.timedelta64(int(rng.integers(1, 2000)), "s")
        elif k == 4:
            a, b = t[0], t[-1] + np.timedelta64(1, "ns")
        else:
            a = t[0] + np.timedelta64(int(rng.integers(-900, 3000)), "s")
            b = a + np.timedelta64(int(rng.integers(1, 5000)), "s")
        keep = np.array([a <= x < b for x in tc])
        r = np.array([a, b], dtype="datetime64[ns]")
        r = common.pick(rng, [r, tuple(r), list(r)])
        m._crop_time_range(r, alter_coord=alter) if alter else m._crop_time_range(r)
        want = orig.isel(time=np.flatnonzero(keep)) if keep.any() else orig
        what = f"crop of {T} times to [{a}, {b}) keeps {int(keep.sum())}"
        same(case, "crop", m.ds, want, what)
        m.ds["twice"] = m.ds["tair"] * 2          # still usable
        case.equal("crop", m.ds["twice"].values, want["tair"].values * 2, rtol=0, what=what + ", computing on it")
        case.state("crop", k, backed, bool(alter), "none" if not keep.any() else "all" if keep.all() else "some")
    finally:
        m.ds.close()
        shutil.rmtree(tmp)
    case.info = dict(T=T, kind=k, backed=bool(backed), alter=alter)


def stacking(case):
    rng = case.rng
    ul = bool(rng.uniform() < 0.7)
    a, b, c = (int(rng.integers(1, 5)) for _ in range(3))
    H = int(rng.integers(2, 6))
    n = a * (b if ul else 1) * c
    m = world.make_model(rng, common.pick(rng, ["ModelE", "WRF"]), 3, n, H, dims=("time", "height"))
    world.regional(m, rng, a, b, c, use_lon=ul, stack=False)
    hd = common.pick(rng, ["height", "lev"])
    m.ds = m.ds.rename(height=hd)
    m.height_dim = hd
    if rng.uniform() < 0.5:      # cube-sphere or index dimensions, no coordinate values
        names = {"lat": "ncol", "lon": "west_east"}
        m.ds = m.ds.rename({k: v for k, v in names.items() if k in m.ds.dims})
        if rng.uniform() < 0.6:
            m.ds = m.ds.drop_vars([v for v in names.values() if v in m.ds.coords])
        m.lat_dim, m.lon_dim = names["lat"], names["lon"]
    la, lo = m.lat_dim, m.lon_dim
    hz = (la, lo) if ul else (la,)
    sz = {la: a, lo: b}
    m.ds["area"] = (la, rng.uniform(size=a), {"units": "m2"})
    m.ds["surf"] = (("time",) + hz, rng.uniform(size=(c,) + tuple(sz[x] for x in hz)), {"units": "Pa"})
    m.ds["clockwise"] = ("time", rng.uniform(size=c))
    m.ds["hyam"] = (hd, rng.uniform(size=H))
    m.ds["P0"] = 1e5
    m.ds["flag"] = (hz, rng.integers(0, 9, size=tuple(sz[x] for x in hz)))
    if rng.uniform() < 0.5:
        m.ds = m.ds.assign_coords(XLAT=(hz, rng.uniform(-90, 90, size=tuple(sz[x] for x in hz))))
    if rng.uniform() < 0.5:
        m.ds = m.ds.assign_coords(elapsed=("time", rng.uniform(size=c)))
    orig = m.ds.copy(deep=True)
    what = f"{dict(orig.sizes)}"
    m.check_and_stack_time_lat_lon(file_path="somefile", **(dict(out_coord_name="col") if rng.integers(0, 2) else {}))
    stacked = a > 1 or (ul and b > 1)
    case.check((m.stacked_time_dim is not None) == stacked, "stack", f"{what}: stacked={m.stacked_time_dim}")
    idxval = {d: (orig[d].values if d in orig.coords else np.arange(orig.sizes[d])) for d in ("time",) + hz}
    if not stacked:
        same(case, "stack", m.ds, orig.squeeze([d for d in hz]).transpose("time", hd), what + " squeezed")
        case.check(m.time_dim == "time", "stack", f"{what}: time dimension renamed")
    else:
        st = m.time_dim
        case.check(m.stacked_time_dim == "time" and m.ds.sizes[st] == n, "stack", f"{what}: {n} columns expected")
        ix = m.ds.indexes[st]
        pos = {d: np.searchsorted(idxval[d], np.asarray(ix.get_level_values(d), idxval[d].dtype)) for d in ix.names}
        case.check(set(ix.names) == {"time", *hz} and len(set(zip(*[pos[d] for d in ix.names]))) == n, "stack",
                   f"{what}: columns are not every (time, lat, lon) once: {ix.names}")
        for k in orig.data_vars:
            dims = [d for d in orig[k].dims if d in pos]
            if not dims:
                same(case, "stack", m.ds[[k]], orig[[k]], f"{what} stacked")
                continue
            rest = [d for d in orig[k].dims if d not in pos]
            e = orig[k].transpose(*dims, *rest).values[tuple(pos[d] for d in dims)]
            case.equal("stack", m.ds[k].transpose(st, *rest).values, e, rtol=0, what=f"{what} stacked {k}")
            if rest == [hd]:
                case.check(m.ds[k].dims == (st, hd), "permute", f"{what}: {k} has dims {m.ds[k].dims} for processing")
        # subcolumn output on the stacked columns
        N = int(rng.integers(1, 4))
        v = rng.uniform(size=(N, n, H))
        m.ds["subcolumn"] = ("subcolumn", np.arange(N))
        m.ds["sub_col_x"] = (("subcolumn", st, hd), v, {"units": "dBZ"})
        sq, od = bool(rng.integers(0, 2)), bool(rng.uniform() < 0.8)
        m.unstack_time_lat_lon(order_dim=od, squeeze_single_dims=sq)
        case.check(m.time_dim == "time" and m.stacked_time_dim is None, "unstack", f"{what}: still stacked")
        full = {"time": c, la: a, **({lo: b} if ul else {})}
        for k in list(orig.data_vars) + [x for x in ("XLAT", "elapsed") if x in orig.coords] + ["sub_col_x"]:
            o = case.get(m.ds, k)
            if k == "sub_col_x":
                e = np.zeros((N, H) + tuple(full.values()))
                for i in range(n):
                    e[(slice(None), slice(None)) + tuple(pos[d][i] for d in full)] = v[:, i]
                wdims = ["subcolumn", hd] + list(full)
                e = xr.DataArray(e, dims=wdims)
            else:
                e = orig[k]
            dims = [d for d in e.dims if d in full]
            for d in o.dims:      # fields that lacked a dimension may be repeated along it
                if d not in e.dims and d in full and dims:
                    e = e.expand_dims({d: full[d]})
            for d, s in dict(full, subcolumn=N).items():
                if d in e.dims and d not in o.dims and s == 1 and sq:
                    e = e.squeeze(d)
            if set(o.dims) != set(e.dims):
                case.see("unstack")
                case.fail("unstack", f"{what}: {k} came back with dims {o.dims}, expected {e.dims}")
                continue
            case.equal("unstack", o.transpose(*e.dims).values, e.values, rtol=0, what=f"{what} unstacked {k}")
            case.check(k == "sub_col_x" or o.attrs.get("units") == orig[k].attrs.get("units"), "unstack",
                       f"{what}: units of {k} lost")
        for k in m.ds.data_vars:
            one = [d for d in ("time", "subcolumn") if sq and d in m.ds[k].dims and m.ds.sizes[d] == 1]
            case.check(not one, "unstack", f"{what}: {k} keeps the single-valued dimension {one} although squeezing was asked for")
        for d in full:
            case.check(np.array_equal(np.atleast_1d(m.ds[d].values), idxval[d]), "unstack",
                       f"{what}: coordinate {d} is {m.ds[d].values}")
        if od:
            want = [d for d in (["subcolumn"] if N > 1 or not sq else []) + (["time"] if c > 1 or not sq else []) + [hd]]
            case.check([d for d in m.ds["sub_col_x"].dims if d in want] == want, "permute",
                       f"{what}: order after unstacking {m.ds['sub_col_x'].dims}")
        case.state("unstack", ul, "1" if a == 1 else "n", "1" if b == 1 else "n", "1" if c == 1 else "n", sq, od, N == 1)
        case.raises("reject", TypeError, m.unstack_time_lat_lon)
    case.info = dict(lat=a, lon=b if ul else None, time=c, H=H)


def permute(case):
    rng = case.rng
    m = world.make_model(rng, "ModelE", 3, int(rng.integers(1, 5)), int(rng.integers(2, 6)), dims=("time", "height"))
    sub = bool(rng.integers(0, 2))
    if sub:
        m = world.put_subcolumns(m, rng, 3)
    m.ds["extra"] = (("time", "height", "band"), rng.uniform(size=(m.ds.sizes["time"], m.ds.sizes["height"], 2)))
    dims = list(m.ds.sizes)
    m.ds = m.ds.transpose(*[dims[i] for i in rng.permutation(len(dims))])
    orig = m.ds.copy(deep=True)
    m.permute_dims_for_processing()
    for k in orig.variables:
        want = [d for d in ("subcolumn", "time", "height", "band") if d in orig[k].dims]
        case.check(list(m.ds[k].dims) == want, "permute", f"{k} has dims {m.ds[k].dims} instead of {want}")
        if orig[k].dtype.kind in "fiub":
            case.equal("permute", m.ds[k].values, orig[k].transpose(*want).values, rtol=0, what=f"permuted {k}")
    case.state("permute", sub)


SUFFIX = ["_100e_to_110e_20n_to_30n", "_262e_to_263e_36n_to_37n", "_0e_to_1e_10s_to_5s", "_203e_to_204e_71n_to_72n"]


def appended(case):
    rng = case.rng
    T, H = int(rng.integers(1, 5)), int(rng.integers(2, 6))
    m = world.SynthModel()
    m.time_dim, m.height_dim = "time", "lev"
    if rng.uniform() < 0.7:       # sub-domains of unstructured columns, everything carries the suffix
        S = [SUFFIX[i] for i in rng.permutation(4)[:int(rng.integers(1, 5))]]
        m.lat_dim = "ncol"
        ds = xr.Dataset(coords={"lev": np.arange(H) * 1.})
        want = {}
        names = ["T", "PS", "Q", "TS", "lat", "lon", "PSL", "QT", "CLD_FRAC_L"]
        for v in names:
            d = ("ncol",) if v in ("lat", "lon") else ("time", "ncol") if v in ("PS", "TS", "PSL") else \
                ("time", "lev", "ncol")
            want[v] = (d, [])
        sizes = [int(rng.integers(1, 4)) for _ in S]
        for s, n in zip(S, sizes):
            for v, (d, lst) in want.items():
                x = rng.uniform(size=tuple({"time": T, "lev": H, "ncol": n}[q] for q in d))
                lst.append(x)
                ds[v + s] = (d[:-1] + ("ncol" + s,), x, {"units": "unit of " + v})
        ds["hyam"] = ("lev", rng.uniform(size=H))
        ds["P0"] = 1e5
        m.ds = ds
        order = [x[len("ncol"):] for x in ds.dims if x.startswith("ncol_")]
        m.remove_appended_str(all_appended_in_lat=True)
        for v, (d, lst) in want.items():
            e = np.concatenate([lst[S.index(s)] for s in order], axis=-1)
            o = case.get(m.ds, v)
            if case.check(o.dims == d, "appended", f"{v} has dims {o.dims}, expected {d}"):
                case.equal("appended", o.values, e, rtol=0, what=f"{v} of {len(S)} sub-domains")
                case.check(o.attrs.get("units") == "unit of " + v, "appended", f"units of {v} lost")
        same(case, "appended", m.ds, ds[["hyam", "P0", "lev"]], "appended")
        left = [k for k in m.ds.variables if any(s in k for s in S)]
        case.check(not left and not any(s in d for d in m.ds.dims for s in S), "appended", f"suffix left on {left}")
        case.state("appended", "ncol", len(S))
    else:
        sa, so = common.pick(rng, [("_71n_to_72n", "_203e_to_204e"), ("_71n", "_203e"), ("_x", "_x")])
        a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        ds = xr.Dataset(coords={"time": np.arange(T), "lev": np.arange(H) * 1., "lat" + sa: np.arange(a) * 1.,
                                "lon" + so: np.arange(b) * 1.})
        suf = sa if sa == so else common.pick(rng, [so + sa, sa, so])
        vals = {}
        for v in ("T", "PS", "Q", "TS", "CLD_FRAC", "TOT_PREC_L"):
            d = ("time", "lat", "lon") if v in ("PS", "TS", "TOT_PREC_L") else ("time", "lev", "lat", "lon")
            x = rng.uniform(size=tuple({"time": T, "lev": H, "lat": a, "lon": b}[q] for q in d))
            vals[v] = (d, x)
            ds[v + suf] = (tuple({"lat": "lat" + sa, "lon": "lon" + so}.get(q, q) for q in d), x, {"units": v})
        ds["hyam"] = ("lev", rng.uniform(size=H))
        m.ds = ds
        m.remove_appended_str()
        for v, (d, x) in vals.items():
            o = case.get(m.ds, v)
            if case.check(o.dims == d, "appended", f"{v} has dims {o.dims}, expected {d}"):
                case.equal("appended", o.values, x, rtol=0, what=f"{v} appended {suf}")
        for d, s in (("lat", a), ("lon", b)):
            case.equal("appended", case.get(m.ds, d).values, np.arange(s) * 1., rtol=0, what=d)
        same(case, "appended", m.ds, ds[["hyam", "lev", "time"]], "appended")
        case.state("appended", "latlon", suf == sa)


def box(case):
    rng = case.rng
    m = world.SynthModel()
    T, H, a, b = (int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(4, 9)), int(rng.integers(4, 9)))
    if rng.integers(0, 2):
        xs, ys = np.sort(rng.uniform(0, 5e4, b)), np.sort(rng.uniform(0, 5e4, a))
        ds = xr.Dataset(coords={"x": xs, "y": ys})
        ds["t"] = (("time", "hgt", "y", "x"), rng.uniform(size=(T, H, a, b)))
        ds["hyam"] = ("hgt", rng.uniform(size=H))
        x0, x1 = np.sort(rng.uniform(-1e3, 5.1e4, 2))
        y0, y1 = np.sort(rng.uniform(-1e3, 5.1e4, 2))
        if rng.uniform() < 0.3:
            x0, x1, y0, y1 = xs[1], xs[-2], ys[0], ys[-1]
        m.ds = ds.copy(deep=True)
        m._crop_bounding_box_x_y((x0, y0, x1, y1))
        kx, ky = np.flatnonzero((xs >= x0) & (xs <= x1)), np.flatnonzero((ys >= y0) & (ys <= y1))
        same(case, "box", m.ds, ds.isel(x=kx, y=ky), f"box {(x0, y0, x1, y1)}")
        case.state("xy", len(kx) == 0, len(ky) == 0)
        return
    m.lat_dim, m.lon_dim, m.lat_name, m.lon_name = "south_north", "west_east", "XLAT", "XLONG"
    dl = float(rng.uniform(0.05, 0.5))
    la = 30 + dl * np.arange(a)[:, None] + np.zeros((a, b)) + 0.01 * dl * np.arange(b)[None] * rng.integers(0, 2)
    lo = -100 + dl * np.arange(b)[None] + np.zeros((a, b)) + 0.01 * dl * np.arange(a)[:, None] * rng.integers(0, 2)
    la, lo = (np.broadcast_to(x, (T, a, b)).copy() for x in (la, lo))
    ds = xr.Dataset(coords={"XLAT": (("Time", "south_north", "west_east"), la),
                            "XLONG": (("Time", "south_north", "west_east"), lo)})
    ds["t"] = (("Time", "bottom_top", "south_north", "west_east"), rng.uniform(size=(T, H, a, b)))
    m.ds = ds.copy(deep=True)
    i0, i1 = np.sort(rng.choice(a, 2, replace=False))
    j0, j1 = np.sort(rng.choice(b, 2, replace=False))
    e = dl * 0.3
    bb = (la[0, i0, 0] + rng.uniform(-e, e), lo[0, 0, j0] + rng.uniform(-e, e),
          la[0, i1, 0] + rng.uniform(-e, e), lo[0, 0, j1] + rng.uniform(-e, e))
    m._crop_bounding_box(bb)
    na, nb = m.ds.sizes["south_north"], m.ds.sizes["west_east"]
    # the end row/column may or may not be part of the box
    case.check(na in (i1 - i0, i1 - i0 + 1) and nb in (j1 - j0, j1 - j0 + 1), "box",
               f"box of rows {i0}..{i1}, columns {j0}..{j1} kept {na} x {nb}")
    same(case, "box", m.ds, ds.isel(south_north=slice(i0, i0 + na), west_east=slice(j0, j0 + nb)), f"box {bb}")
    case.state("latlon")


def reject(case):
    m = world.make_model(case.rng, "ModelE", 3, 2, 3, dims=("time", "height"))
    case.raises("reject", TypeError, m.unstack_time_lat_lon)


SCENARIOS = dict(crop=crop, stacking=stacking, permute=permute, appended=appended, box=box, reject=reject)
