"""C19: saving, loading, finalising and pruning subcolumn output; clipping to a valid range."""
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

import emc2
from emc2.core import Model
from emc2.simulator.classification import calculate_phase_ratio
from emc2.simulator.main import make_simulated_data
from .. import world, common
from .c05 import new_outputs

PROPERTY = "C19"
RULE = ("models of every family are processed by the real simulator (radars, lidars, masks, COSP emulation, finalised or "
        "not, stacked regional models, unstacked ones), saved, and loaded into a fresh copy of the model, into a bare "
        "model, through the readers' load_processed route; the file is then deleted or overwritten before the loaded data "
        "is read; chains of save/load/save over the same file; every kept variable is compared bit by bit with values, "
        "dims, types and units; finalise and remove are compared with a before snapshot; distinct states are "
        "instrument/route/finalise combinations")
REQUIRED = {"continued": 20000, "mismatch": 20, "roundtrip": 100000, "saved-set": 1000, "inputs-untouched": 1000, "finalize": 50000, "remove": 500,
            "clip": 1500, "resave": 10000, "num-subcolumns": 60}


def preload(tier):
    for r in world.LIDARS + world.RADARS:
        world._instrument(r)


def plan(tier):
    n = 30 if tier == "quick" else 500
    return [("roundtrip", 4 * n), ("chain", n), ("regional", n), ("reader", n), ("finalize", 2 * n), ("remove", 2 * n),
            ("clip", 4 * n)]


def processed(case, families=None, N=None, regional=False, unstack=False, classify=None, both=False, hdims=None):
    """A model the simulator has really processed, and a copy of it before processing."""
    rng = case.rng
    fams = families or [f for f in world.FAMILIES if f != "NSSL"]
    fam = common.pick(rng, fams)
    kinds = [common.pick(rng, world.RADARS if rng.integers(0, 2) else ["HSRL"] * 3 + world.LIDARS)]
    if both or rng.uniform() < 0.25:
        kinds = [common.pick(rng, world.RADARS), "HSRL"]
    N = N or int(rng.integers(1, 6))
    dims = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3)))
    if dims[0] == 1 and dims[1] == 1:
        dims = (2, 1, dims[2])
    T = int(np.prod(dims)) if regional else int(rng.integers(1, 5))
    H = int(rng.integers(3, 8))
    if not regional:
        N, T, H = common.stretch(case, N, T, H, p=0.03, cells=1200)
    m = world.make_model(rng, fam, N, T, H, lut_inst=kinds[0] if fam == "P3" else "KAZR",
                         dims=hdims or common.pick(rng, [d for d in world.DIMS if len(d[0]) > 1]),
                         process_conv=bool(rng.integers(0, 2)) and fam != "P3")
    if fam == "P3":
        kinds = kinds[:1]
    if regional:
        world.regional(m, rng, *dims)
    before = world.clone(m)
    for k, name in enumerate(kinds):
        inst = world.instrument(name)
        cl = (inst.instrument_class.lower() == "radar" or name == "HSRL") and (
            bool(rng.integers(0, 2)) if classify is None else classify)
        m = make_simulated_data(m, inst, N, do_classify=cl, skip_subcol_gen=k > 0, parallel=False,
                                finalize_fields=bool(rng.uniform() < 0.3),
                                convert_zeros_to_nan=bool(rng.integers(0, 2)), use_rad_logic=True,
                                unstack_dims=unstack and k == len(kinds) - 1)
    masks = sorted(n for n in m.ds.data_vars if "phase_mask" in n)
    if masks and not unstack and rng.uniform() < 0.6:
        v = common.pick(rng, masks)
        m = calculate_phase_ratio(m, v, 1, mass_pr=bool(rng.integers(0, 2)), mpr_subcolmod=bool(rng.integers(0, 2)))
    case.info.update(family=fam, instruments=kinds, N=N, T=T, regional=regional, unstack=unstack)
    case.state(fam, "+".join(kinds), regional, unstack)
    return m, before, N


def same(case, mon, a, b, name, dtype=True):
    """b (loaded) equals a (what was in the model): dims, type, values, missing cells, units."""
    if a.dims != b.dims:
        case.see(mon)
        case.fail(mon, f"{name}: dims {a.dims} became {b.dims}")
        return
    va, vb = a.values, b.values
    if va.dtype.kind == "M" or vb.dtype.kind == "M":
        case.check(va.dtype.kind == vb.dtype.kind and np.array_equal(va.astype("M8[s]"), vb.astype("M8[s]")), mon,
                   f"{name}: time stamps {va} became {vb}")
        return
    if dtype:
        case.check(va.dtype.kind == vb.dtype.kind or {va.dtype.kind, vb.dtype.kind} <= set("iu"), mon,
                   f"{name}: type {va.dtype} became {vb.dtype}")
    if va.dtype.kind in "OU":
        case.check(np.array_equal(va.astype(str), vb.astype(str)), mon, f"{name}: labels differ after loading")
        return
    case.equal(mon, vb, va, rtol=0, what=f"{name} after saving and loading")
    case.check(a.attrs.get("units") == b.attrs.get("units"), mon,
               f"{name}: units {a.attrs.get('units')!r} became {b.attrs.get('units')!r}")


def outputs_of(m, before):
    return sorted(new_outputs(m, before.ds.variables))


def must_keep(m, names):
    """Everything along the subcolumn dimension, and what describes it: masks, phase ratios, minimum detectable signal."""
    return [n for n in names if "subcolumn" in m.ds[n].dims or "mask" in n or "mpr" in n or "fpr" in n or n == "Ze_min"]


def saved_file(case, m, before, path):
    m.subcolumns_to_netcdf(path)
    with xr.open_dataset(path) as f:
        kept = list(f.variables)
    for n in must_keep(m, outputs_of(m, before)):
        case.check(n in kept, "saved-set", f"subcolumn output {n} was not saved")
    if m.time_dim in m.ds.coords:
        case.check(m.time_dim in kept, "saved-set", "the times of the subcolumn output were not saved")
    for n in (m.T_field, m.p_field, m.q_field, m.z_field):
        case.check(n not in kept, "saved-set", f"model input {n}, not subcolumn output, was saved")
    return kept


def destroy(rng, path):
    if rng.integers(0, 2):
        os.unlink(path)
        return "deleted"
    xr.Dataset({"other": ("x", np.arange(3.0))}).to_netcdf(path)
    return "overwritten"


def scratch():
    return tempfile.mkdtemp(prefix="rv_c19_")


def roundtrip(case, regional=False):
    rng = case.rng
    unstack = regional     # a stacked (multi-index) model cannot be saved: EMC2 says so
    m, before, N = processed(case, regional=regional, unstack=unstack)
    want = {n: m.ds[n].copy(deep=True) for n in m.ds.variables}
    snap = common.snapshot(m.ds)
    d = scratch()
    try:
        path = os.path.join(d, "out.nc")
        kept = saved_file(case, m, before, path)
        common.inputs_untouched(case, snap, m.ds, "saving")
        if unstack:
            target = world.SynthModel()
            target.time_dim = m.time_dim
            target.ds = xr.Dataset()
            route = "bare"
        elif rng.integers(0, 2):
            target, route = world.clone(before), "model"
        else:
            target, route = world.SynthModel(), "bare"
            target.ds = xr.Dataset()
        had = common.snapshot(target.ds)
        target.load_subcolumns_from_netcdf(path)
        fate = destroy(rng, path)
        case.state(route, fate)
        for n in kept:
            got = case.get(target.ds, n)
            same(case, "roundtrip", want[n], got, n)
        common.inputs_untouched(case, had, target.ds, f"loading ({route})")
        want_n = m.num_subcolumns if unstack else N      # unstacking squeezes a single subcolumn
        case.check(target.num_subcolumns == want_n, "num-subcolumns", f"{target.num_subcolumns} subcolumns, expected {N}")
        extra = set(target.ds.variables) - set(kept) - set(had)
        case.check(not extra, "saved-set", f"loading added {sorted(extra)}")
    finally:
        shutil.rmtree(d)


def regional(case):
    roundtrip(case, regional=True)


def chain(case):
    """save, load, process a further instrument on top, save over the same file, load again"""
    rng = case.rng
    m, before, N = processed(case, families=["ModelE", "CESM", "WRF"])
    d = scratch()
    try:
        path = os.path.join(d, "out.nc")
        m_kept, m_before_more = world.clone(m), world.clone(m)
        m.subcolumns_to_netcdf(path)
        t = world.clone(before)
        t.load_subcolumns_from_netcdf(path)
        lidar = any(n.startswith("sub_col_beta") for n in t.ds.variables)
        inst = world.instrument(common.pick(rng, world.RADARS if lidar else world.LIDARS))
        t = make_simulated_data(t, inst, N, skip_subcol_gen=True, parallel=False, use_rad_logic=True)
        # the loaded model continues exactly as the one that was saved
        c = make_simulated_data(m_kept, inst, N, skip_subcol_gen=True, parallel=False, use_rad_logic=True)
        for n in c.ds.variables:
            if "subcolumn" in c.ds[n].dims:
                same(case, "continued", c.ds[n], case.get(t.ds, n), n)
        # output of another number of subcolumns is not mixed in
        o = world.clone(before)
        o = make_simulated_data(o, inst, N + int(rng.integers(1, 4)), subcol_gen_only=True, parallel=False)
        case.raises("mismatch", ValueError, o.load_subcolumns_from_netcdf, path)
        # loading over output that is already there gives the saved values, or refuses when they disagree
        over = world.clone(m_before_more)
        names = [n for n in over.ds.data_vars if "subcolumn" in over.ds[n].dims and over.ds[n].dtype.kind == "f"
                 and np.isfinite(over.ds[n].values).any()]
        changed = set(common.pick(rng, names) for _ in range(int(rng.integers(0, 3)))) if names else set()
        for n in changed:
            over.ds[n] = over.ds[n].copy(data=over.ds[n].values * 2 + 1.5)
        try:
            over.load_subcolumns_from_netcdf(path)
        except ValueError:
            case.check(bool(changed), "reload", "the same output could not be loaded again")
        else:
            for n in names:
                same(case, "reload", m_before_more.ds[n], case.get(over.ds, n), n)
        want = {n: t.ds[n].copy(deep=True) for n in t.ds.variables}
        kept = saved_file(case, t, before, path)
        u = world.clone(before)
        u.load_subcolumns_from_netcdf(path)
        destroy(rng, path)
        for n in kept:
            same(case, "resave", want[n], case.get(u.ds, n), n)
        for n in must_keep(m, outputs_of(m, before)):       # earlier results survive the second step
            if n in want and not n.startswith(("sub_col", "mpr", "COSP", "Ze_min")) and "mask" not in n and "_ext" not in n:
                same(case, "resave", m.ds[n], case.get(u.ds, n), n)
    finally:
        shutil.rmtree(d)


def reader(case):
    """The readers' load_processed route gives the saved output back."""
    rng = case.rng
    cls = common.pick(rng, [emc2.core.model.ModelE, emc2.core.model.E3SMv1, emc2.core.model.CESM2])
    m, before, N = processed(case, families=["ModelE" if cls is emc2.core.model.ModelE else "CESM"],
                             hdims=("time", "height"))
    d = scratch()
    try:
        path = os.path.join(d, "out.nc")
        want = {n: m.ds[n].copy(deep=True) for n in m.ds.variables}
        kept = saved_file(case, m, before, path)
        kw = {}
        sel = None
        if rng.integers(0, 2) and m.ds.sizes[m.time_dim] > 1 and cls is emc2.core.model.ModelE:
            t = m.ds[m.time_dim].values
            i = int(rng.integers(0, len(t)))
            kw["time_range"] = np.array([t[i] - np.timedelta64(1, "s"), t[-1] + np.timedelta64(1, "s")])
            sel = slice(i, None)
        r = cls(path, load_processed=True, **kw)
        destroy(rng, path)
        case.state(cls.__name__, sel is not None)
        for n in kept:
            w = want[n]
            if sel is not None and m.time_dim in w.dims:
                w = w.isel({m.time_dim: sel})
            same(case, "roundtrip", w, case.get(r.ds, n), n)
        case.check(r.num_subcolumns == N, "num-subcolumns", f"{r.num_subcolumns} subcolumns, expected {N}")
    finally:
        shutil.rmtree(d)


def finalize(case):
    rng = case.rng
    m, before, N = processed(case)
    for n in list(m.ds.data_vars):              # hostile zeros
        v = m.ds[n]
        if v.dtype.kind == "f" and rng.uniform() < 0.6:
            x = v.values.copy()
            x[rng.uniform(size=x.shape) < 0.2] = 0.
            x[rng.uniform(size=x.shape) < 0.1] = -0.
            x[rng.uniform(size=x.shape) < 0.1] = 1e-300
            x[rng.uniform(size=x.shape) < 0.1] = np.nan
            m.ds[n] = v.copy(data=x)
    w = rng.normal(size=before.ds[before.T_field].shape).round(1)
    before.ds["omega"] = m.ds["omega"] = (before.ds[before.T_field].dims, w) if "omega" not in m.ds and set(
        before.ds[before.T_field].dims) <= set(m.ds.dims) else ((), -1.)
    more = list(rng.choice(["_q_subcolumns", "_n_subcolumns", "mpr", "pres", "qs_", "frac_sub", "Ze", "omega"],
                           size=rng.integers(0, 4), replace=False))
    snap = common.snapshot(m.ds)
    if more or rng.integers(0, 2):
        passed = list(more)
        m.finalize_subcol_fields(passed)
        case.check(passed == list(more), "finalize", "the caller's list of names was modified")
    else:
        m.finalize_subcol_fields()
    for n, (dims, v) in snap.items():
        got = case.get(m.ds, n)
        case.check(got.dims == dims, "finalize", f"{n}: dims changed")
        asked = n in before.ds.variables and any(x in n for x in more) or n not in before.ds.variables and (
            "sub_col" in n or any(x in n for x in more))
        if n in m.ds.coords:
            asked = False
        if v.dtype.kind in "MOU":
            continue
        e = v.astype(float)
        if asked:
            e = np.where(v == 0, np.nan, e)
        case.equal("finalize", got.values, e, rtol=0, what=f"{n} after finalising ({'asked' if asked else 'not asked'})")
    case.state("more", len(more))
    m.finalize_subcol_fields()


def remove(case):
    rng = case.rng
    m, before, N = processed(case)
    cls = common.pick(rng, ["conv", "strat"])
    outs = outputs_of(m, before)
    dim = "subcolumn"
    if N == 1 and "subcolumn" in m.ds.dims and rng.uniform() < 0.5:       # as after unstacking
        m.ds, dim = m.ds.squeeze("subcolumn"), "gone"
    snap = common.snapshot(m.ds)
    if cls == "conv" and rng.integers(0, 2):
        m.remove_subcol_fields()
    else:
        m.remove_subcol_fields(cls)
    other = "strat" if cls == "conv" else "conv"
    for n in snap:
        token = cls in n.split("_")
        mine = n in outs and token and ("subcolumn" in snap[n][0] or dim == "gone" and "_subcolumns_" in n)
        if mine:
            case.check(n not in m.ds.variables, "remove", f"{n} was not removed with the {cls} subcolumn fields")
        elif not (n in outs and token):
            case.check(n in m.ds.variables, "remove", f"{n} was removed with the {cls} subcolumn fields")
    common.inputs_untouched(case, {n: v for n, v in snap.items() if n in m.ds.variables}, m.ds, "removing")
    case.state("class", cls, other)


def clip(case):
    rng = case.rng
    shape = tuple(rng.integers(1, 6, size=rng.integers(1, 4)))
    grid = np.sort(rng.normal(0, 10, size=rng.integers(1, 8)))
    if rng.integers(0, 2):
        grid = rng.permutation(grid)
    if rng.uniform() < 0.3:
        grid = np.append(grid, np.nan)
    a = rng.normal(0, 15, size=shape)
    a[rng.uniform(size=shape) < 0.15] = np.nan
    a[rng.uniform(size=shape) < 0.1] = np.inf
    a[rng.uniform(size=shape) < 0.1] = -np.inf
    a[rng.uniform(size=shape) < 0.1] = np.nanmax(grid)
    a[rng.uniform(size=shape) < 0.1] = np.nextafter(np.nanmin(grid), -np.inf)
    a0, g0 = a.copy(), grid.copy()
    form = lambda x: x
    if rng.integers(0, 2):
        form = lambda x: xr.DataArray(x, dims=[f"d{i}" for i in range(np.ndim(x))])
    out = Model.set_array_to_valid_range(form(a), form(grid))
    lo, hi = min(x for x in grid if x == x), max(x for x in grid if x == x)
    exp = np.array([x if x != x else (lo if x < lo else hi if x > hi else x) for x in a0.ravel()]).reshape(shape)
    case.equal("clip", out, exp, rtol=0, what="clipped array")
    case.equal("clip", a, a0, rtol=0, what="caller's array")
    case.equal("clip", grid, g0, rtol=0, what="caller's grid")
    m = world.SynthModel()
    m.ds = xr.Dataset()
    case.check(m.num_subcolumns == 0, "num-subcolumns", "subcolumns counted before any were made")
    n = int(rng.integers(1, 50))
    m.num_subcolumns = n
    case.check(m.num_subcolumns == n, "num-subcolumns", f"{m.num_subcolumns} after setting {n}")
    case.state("clip", len(shape), len(grid))


SCENARIOS = dict(roundtrip=roundtrip, chain=chain, regional=regional, reader=reader, finalize=finalize, remove=remove,
                 clip=clip)
