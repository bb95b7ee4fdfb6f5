"""C22: statistical aggregation (vertical regridding, scattering ratio, cloud fraction, frequency diagrams)."""
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

import emc2
from emc2.statistics_LLNL import statistical_aggregation as sa, statistical_output as so
from .. import world, common

PROPERTY = "C22"
RULE = ("random and exactly aligned layer grids (inside, below, above and across the model's range), constant and random "
        "profiles, missing layers, dB and linear averaging, 1..6 columns/times/subcolumns; every output level is compared "
        "with an overlap-weighted mean computed interval by interval; scattering ratio, cloud fraction and frequency "
        "diagrams of hostile values (exactly on bin edges, infinite, missing) with brute-force counts; columns are "
        "permuted, removed and perturbed to see that others do not move; a real simulated E3SM case; distinct states are "
        "grid-relation/averaging combinations")
REQUIRED = {"regrid": 50000, "regrid-constant": 2000, "regrid-missing": 5000, "scattering-ratio": 20000, "ze-regrid": 20000,
            "cloud-fraction": 3000, "cfad": 50000, "cfad-conserves": 5000, "independence": 10000, "signals": 20000,
            "inputs-untouched": 1000, "saved-cfad": 1000}
UNDEF = -1e30


def plan(tier):
    n = 240 if tier == "quick" else 4000
    return [("regrid", 6 * n), ("sr", 2 * n), ("counts", 4 * n), ("signals", n), ("save", n // 4),
            ("pipeline", 6 if tier == "quick" else 40)]


def grids(rng, P, L, G):
    """Model layer centres and lower edges (km), output layer edges (contiguous)."""
    kind = common.pick(rng, ["random", "aligned", "uniform"])
    if kind == "aligned":           # multiples of 1/8 km: edges coincide exactly
        edges = np.sort(np.stack([rng.choice(np.arange(0, 8 * L), size=L + 1, replace=False) for _ in range(P)]), 1) / 8.
        edges += rng.integers(0, 4) / 8.
    else:
        e0 = rng.uniform(-0.1, 1.0, size=(P, 1))
        edges = np.concatenate([e0, e0 + np.cumsum(rng.uniform(0.02, 1.2, size=(P, L)), 1)], 1)
    zhalf = edges[:, :-1]
    zfull = zhalf + np.diff(edges, axis=1) / 2.
    top = edges.max()
    if kind == "aligned":
        ge = np.sort(rng.choice(np.arange(0, 8 * L + 8), size=G + 1, replace=G + 1 > 8 * L + 8)) / 8.
        if len(np.unique(ge)) < len(ge):
            ge = np.arange(G + 1) / 8.
    elif kind == "uniform":
        ge = np.arange(G + 1) * common.pick(rng, [0.48, 0.1, 1.0, top / G])
    else:
        ge = rng.uniform(-0.5, 1.5) + np.concatenate([[0], np.cumsum(rng.uniform(0.02, max(2 * top / G, 0.03), size=G))])
    return kind, zfull, zhalf, ge[:-1].copy(), ge[1:].copy()


def layers(zfull, zhalf):
    lo = zhalf
    hi = np.concatenate([zhalf[1:], [2 * zfull[-1] - zhalf[-1]]])
    return lo, hi


def mean_of(y, lo, hi, b, t, dB, scale=1.):
    """Overlap-weighted mean of one column over [b, t]: value, 'missing', 'ground' or 'contaminated'."""
    if t <= lo[0]:
        return "ground"
    w = np.minimum(hi, t) - np.maximum(lo, b)
    use = w > 0
    if not use.any():
        return "missing"
    v, w = y[use], w[use]
    if dB:
        v = np.where(v == UNDEF, 0., 10. ** (v / 10.))
        m = np.sum(v * w) / np.sum(w)
        return 10 * np.log10(m) if m > 0 else "missing"
    if (v <= -1e29).any() or np.isnan(v).any():
        return "contaminated"
    return np.sum(v * w) / np.sum(w)


def compare(case, r, y, zfull, zhalf, gb, gt, dB, const=None):
    P, C, L = y.shape
    exp = np.full(r.shape, np.nan)
    for i in range(P):
        lo, hi = layers(zfull[i], zhalf[i])
        for j in range(C):
            for k in range(len(gb)):
                e = mean_of(y[i, j], lo, hi, gb[k], gt[k], dB)
                if isinstance(e, str):
                    case.see("regrid-missing")
                    if not (r[i, j, k] <= -1e19 or np.isnan(r[i, j, k])):
                        case.fail("regrid-missing", f"output level {k} ({gb[k]:.3f}-{gt[k]:.3f} km) is {e} but has value "
                                                    f"{r[i, j, k]!r}")
                        return False
                else:
                    exp[i, j, k] = e
    ok = np.isfinite(exp)
    if const is not None:
        case.equal("regrid-constant", np.where(ok, r, 0), np.where(ok, np.broadcast_to(const[:, :, None], r.shape), 0),
                   rtol=1e-9, atol=1e-12, what="regridded constant profile")
    return case.equal("regrid", np.where(ok, r, 0), np.where(ok, exp, 0), rtol=1e-9, atol=1e-9 * np.abs(y[y > -1e29]).max()
                      if (y > -1e29).any() else 0., what="regridded profile")


def regrid(case):
    rng = case.rng
    P, C, L, G = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 16)), int(rng.integers(1, 25))
    kind, zfull, zhalf, gb, gt = grids(rng, P, L, G)
    dB = bool(rng.integers(0, 2))
    const = None
    if rng.uniform() < 0.25:
        const = rng.normal(0, 20, size=(P, C))
        y = np.repeat(const[:, :, None], L, 2)
    else:
        y = rng.normal(*common.pick(rng, [(0, 20), (0, 20), (-120, 40)]), size=(P, C, L))
        if rng.integers(0, 2):
            y[rng.uniform(size=y.shape) < 0.3] = UNDEF
    args = dict(zfull=zfull, zhalf=zhalf, y=y, gb=gb, gt=gt)
    keep = {k: v.copy() for k, v in args.items()}
    r = sa.COSP_CHANGE_VERTICAL_GRID(P, C, L, zfull, zhalf, y, G, gb, gt, lunits=dB)
    case.state(kind, "dB" if dB else "linear", "const" if const is not None else "var",
               "below" if gt[0] <= zhalf.min() else "in", "above" if gb[-1] >= (2 * zfull[:, -1] - zhalf[:, -1]).max()
               else "in", L == 1)
    if not compare(case, r, y, zfull, zhalf, gb, gt, dB, const):
        return
    for k in keep:
        case.equal("inputs-untouched", args[k], keep[k], rtol=0, what=f"regridding input {k}")
    # a column's result depends only on that column
    i, j = int(rng.integers(0, P)), int(rng.integers(0, C))
    one = sa.COSP_CHANGE_VERTICAL_GRID(1, 1, L, zfull[i:i + 1], zhalf[i:i + 1], y[i:i + 1, j:j + 1], G, gb, gt, lunits=dB)
    case.equal("independence", one[0, 0], r[i, j], rtol=1e-12, what="column regridded alone")
    # default averaging is linear
    if not dB:
        r2 = sa.COSP_CHANGE_VERTICAL_GRID(P, C, L, zfull, zhalf, y, G, gb, gt)
        case.equal("regrid", r2, r, rtol=0, what="default averaging")


def sr(case):
    rng = case.rng
    N, T, L, K, G = (int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 14)), int(rng.integers(1, 4)),
                     int(rng.integers(1, 20)))
    N, T, L = common.stretch(case, N, T, L, cells=2000)
    zf, zh = np.zeros((T, L, K)), np.zeros((T, L, K))
    gb = gt = None
    for k in range(K):
        kind, a, b, gb0, gt0 = grids(rng, T, L, G)
        zf[:, :, k], zh[:, :, k] = a, b
        if gb is None or kind == "aligned":
            gb, gt = gb0, gt0
    tot = 10 ** rng.uniform(-8, -3, size=(N, T, L, K))
    mol = 10 ** rng.uniform(-8, -5, size=(N, T, L, K))
    ze = rng.normal(-10, 20, size=(N, T, L, K))
    if rng.integers(0, 2):
        tot[rng.uniform(size=tot.shape) < 0.25] = np.nan
    if rng.uniform() < 0.3:
        mol[rng.uniform(size=tot.shape) < 0.15] = np.nan
    if rng.integers(0, 2):
        ze[rng.uniform(size=tot.shape) < 0.3] = np.nan
    if rng.uniform() < 0.2:
        ze[rng.uniform(size=tot.shape) < 0.1] = -np.inf
    keep = [x.copy() for x in (tot, mol, ze, zf, zh, gb, gt)]
    s = sa.calculate_SR(tot, mol, N, T, zf, zh, N, T, L, G, K, gb, gt)
    z = sa.get_regridded_ze_att_tot(ze, zf, zh, N, T, G, K, gb, gt, N, T, L)
    for a, b in zip((tot, mol, ze, zf, zh, gb, gt), keep):
        case.equal("inputs-untouched", a, b, rtol=0, what="regridding inputs")

    def expected(x):
        out = np.full((N, T, G, K), np.nan)
        x = np.where(np.isnan(x) | (x == -np.inf), UNDEF, x)
        for k in range(K):
            for i in range(T):
                lo, hi = layers(zf[i, :, k], zh[i, :, k])
                for n in range(N):
                    for g in range(G):
                        e = mean_of(x[n, i, :, k], lo, hi, gb[g], gt[g], False)
                        out[n, i, g, k] = np.nan if isinstance(e, str) else e
        return out

    case.equal("scattering-ratio", s, expected(tot) / expected(mol), rtol=1e-8, what="scattering ratio")
    case.equal("ze-regrid", z, expected(ze), rtol=1e-8, atol=1e-7, what="regridded reflectivity")
    case.state("sr", np.isnan(tot).any(), np.isnan(ze).any())
    if K > 1:
        k = int(rng.integers(0, K))
        s1 = sa.calculate_SR(tot[..., k:k + 1], mol[..., k:k + 1], N, T, zf[..., k:k + 1], zh[..., k:k + 1], N, T, L, G, 1,
                             gb, gt)
        case.equal("independence", s1[..., 0], s[..., k], rtol=1e-12, what="scattering ratio of a column alone")


EDGES_SR = np.array([-1., 0.01, 1.2, 3.0, 5.0, 7.0, 10.0, 15.0, 20.0, 25.0, 30.0, 40.0, 50.0, 60.0, 80.0, 999.])


def hostile(rng, shape, edges):
    v = rng.uniform(edges[0] - 5, min(edges[-1], 60) + 10, size=shape)
    u = rng.uniform(size=shape)
    e = np.asarray(edges, float)
    v = np.where(u < 0.2, e[rng.integers(0, len(e), size=shape)], v)
    v = np.where((u >= 0.2) & (u < 0.27), np.nextafter(e[rng.integers(0, len(e), size=shape)], -np.inf), v)
    v = np.where((u >= 0.27) & (u < 0.37), np.nan, v)
    v = np.where((u >= 0.37) & (u < 0.40), np.inf, v)
    v = np.where((u >= 0.40) & (u < 0.43), -np.inf, v)
    v = np.where((u >= 0.43) & (u < 0.48), rng.uniform(0, 6, size=shape), v)
    return v


def counts(case):
    rng = case.rng
    N, T, G, K = (int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(1, 12)), int(rng.integers(1, 4)))
    N, T, G = common.stretch(case, N, T, G, cells=4000)
    radar = bool(rng.integers(0, 2))
    if radar:
        edges = common.pick(rng, [np.arange(-50, 26, 5.), np.sort(rng.normal(0, 20, size=int(rng.integers(2, 12)))),
                                  np.arange(-60, 31)])
    else:
        edges = EDGES_SR if rng.integers(0, 2) else np.array([0., 5., 50.])
    v = hostile(rng, (N, T, G, K), edges)
    if rng.uniform() < 0.3:
        v[:, rng.integers(0, T)] = np.nan
    keep = v.copy()
    mid = (np.arange(G) + 0.5) * 0.48
    f = sa.get_cfaddBZ if radar else sa.get_cfad_SR
    col = int(rng.integers(0, K))
    got = f(edges, mid, T, N, v, col)
    exp = np.zeros((G, len(edges) - 1))
    inrange = np.zeros(G)
    for g in range(G):
        for t in range(T):
            for n in range(N):
                x = v[n, t, g, col]
                for b in range(len(edges) - 1):
                    if edges[b] <= x < edges[b + 1]:
                        exp[g, b] += 1
                        inrange[g] += 1
    case.equal("cfad", got, exp / (N * T), rtol=1e-12, atol=1e-13, what="frequency diagram")
    case.equal("cfad-conserves", np.sum(got, 1) * N * T, inrange, rtol=1e-9, atol=1e-9, what="counted subcolumns")
    one = sa.cal_cfad_radar_40levels(N, mid, edges, v[:, 0, :, col])
    e1 = np.zeros((G, len(edges) - 1))
    for g in range(G):
        for b in range(len(edges) - 1):
            e1[g, b] = sum(edges[b] <= x < edges[b + 1] for x in v[:, 0, g, col]) / N
    case.equal("cfad", np.nan_to_num(one), e1, rtol=1e-12, what="frequency diagram of one time")
    cf = sa.calculate_lidar_CF(v, T, G, K)
    ec = np.full((T, G, K), np.nan)
    for idx in np.ndindex(T, G, K):
        x = v[(slice(None),) + idx]
        n = sum(q > 0.01 for q in x)
        if n:
            ec[idx] = sum(q > 5. for q in x) / n
    case.equal("cloud-fraction", cf, ec, rtol=1e-12, what="lidar cloud fraction")
    case.equal("inputs-untouched", v, keep, rtol=0, what="aggregation input")
    # other columns and the order of subcolumns do not matter
    w = v[rng.permutation(N)].copy()
    for k in range(K):
        if k != col:
            w[..., k] = rng.normal(0, 30, size=(N, T, G))
    case.equal("independence", f(edges, mid, T, N, w, col), got, rtol=1e-12, atol=1e-15,
               what="frequency diagram with other columns changed and subcolumns reordered")
    case.equal("independence", sa.calculate_lidar_CF(w, T, G, K)[..., col], cf[..., col], rtol=1e-12,
               what="cloud fraction with other columns changed and subcolumns reordered")
    case.state("radar" if radar else "lidar", len(edges), N == 1)


def dataset(rng, N, T, L, K):
    z0 = rng.uniform(5, 60, size=(T, 1, K))
    z = z0 + np.concatenate([np.zeros((T, 1, K)), np.cumsum(rng.uniform(40, 900, size=(T, L - 1, K)), 1)], 1)
    ds = xr.Dataset(coords=dict(time=np.datetime64("2020-01-01", "ns") + np.arange(T) * np.timedelta64(1, "h"),
                                lev=np.linspace(1000, 100, L), ncol=np.arange(K), subcolumn=np.arange(N)))
    d4, d3 = ("subcolumn", "time", "lev", "ncol"), ("time", "lev", "ncol")
    ds["Z3"] = (d3, z)
    ds["sigma_180_vol"] = (d3, 10 ** rng.uniform(-8, -5, size=z.shape))
    ds["tau"] = (d3, rng.uniform(0.1, 1, size=z.shape))
    b = 10 ** rng.uniform(-8, -3, size=(N, T, L, K))
    b[rng.uniform(size=b.shape) < 0.1] = np.nan
    ds["sub_col_beta_att_tot"] = (d4, b)
    ze = rng.normal(-10, 15, size=b.shape)
    ze[rng.uniform(size=b.shape) < 0.3] = np.nan
    ds["sub_col_Ze_att_tot"] = (d4, ze)
    return ds


def check_signals(case, m, out, tol=1e-12):
    ds = m.ds
    o4, o3 = ("subcolumn", "time", "lev", "ncol"), ("time", "lev", "ncol")
    tot, mol, zf, zh, ze = out
    g = lambda n, o: ds[n].transpose(*o).values
    case.equal("signals", tot, g("sub_col_beta_att_tot", o4), rtol=0, what="total attenuated backscatter")
    case.equal("signals", ze, g("sub_col_Ze_att_tot", o4), rtol=0, what="attenuated reflectivity")
    case.equal("signals", mol, np.broadcast_to((g("sigma_180_vol", o3) * g("tau", o3))[None], mol.shape), rtol=tol,
               what="attenuated molecular backscatter")
    z = g("Z3", o3) / 1000.
    case.equal("signals", zf, z, rtol=tol, what="heights in km")
    e = z.copy()
    e[:, 1:] = (z[:, 1:] + z[:, :-1]) / 2.
    e[:, 0] = z[:, 0] - (z[:, 1] - z[:, 0]) / 2.
    case.equal("signals", zh[:, 1:], e[:, 1:], rtol=tol, what="lower layer interfaces in km")
    case.check(np.all(zh[:, 0] <= z[:, 0] + tol), "signals", "the lowest interface lies above the lowest layer's centre")


def signals(case):
    rng = case.rng
    N, T, L, K = (int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 12)), int(rng.integers(1, 4)))
    m = world.SynthModel()
    m.ds = dataset(rng, N, T, L, K)
    snap = common.snapshot(m.ds)
    out = sa.get_radar_lidar_signals(m)
    check_signals(case, m, out)
    common.inputs_untouched(case, snap, m.ds, "signals")
    case.state("signals", N, K)


def save(case):
    rng = case.rng
    N, T, L, K, G = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(2, 8)), int(rng.integers(1, 4)),
                     int(rng.integers(1, 20)))
    m = world.SynthModel()
    m.ds = dataset(rng, N, T, L, K)
    snap = common.snapshot(m.ds)
    nb, ns = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    zbins, cf = np.sort(rng.normal(0, 20, nb)), rng.uniform(size=(T, G, K))
    cr, cs = rng.uniform(size=(G, nb)), rng.uniform(size=(G, ns))
    cf[rng.uniform(size=cf.shape) < 0.2] = np.nan
    d = tempfile.mkdtemp(prefix="rv_c22_")
    try:
        so.save_cfads_to_nc(m, zbins, cf, cr, cs, d + "/", "out.nc")
        with xr.open_dataset(os.path.join(d, "out.nc")) as f:
            f = f.load()
    finally:
        shutil.rmtree(d)
    case.equal("saved-cfad", case.get(f, "CFAD_Radar").transpose("cosp_ht", ...).values, cr, rtol=0, what="saved radar CFAD")
    case.equal("saved-cfad", case.get(f, "CFAD_SR").transpose("cosp_ht", ...).values, cs, rtol=0, what="saved SR CFAD")
    case.equal("saved-cfad", case.get(f, "cloud_fraction").transpose("time", "cosp_ht", "ncol").values, cf, rtol=0,
               what="saved cloud fraction")
    case.check(any(f[k].ndim == 1 and f[k].shape == zbins.shape and np.array_equal(f[k].values, zbins)
                   for k in f.variables), "saved-cfad", "the radar bins are not in the saved file")
    for k, (dims, v) in snap.items():
        if k in f.variables and v.dtype.kind == "f":
            case.equal("saved-cfad", f[k].transpose(*dims).values, v, rtol=0, what=f"saved model field {k}")
    common.inputs_untouched(case, snap, m.ds, "saving CFADs")
    case.state("save")


def pipeline(case):
    """The documented chain on the packaged E3SM output, simulated by the real code."""
    rng = case.rng
    m = emc2.core.model.E3SMv1(emc2.test_files.TEST_E3SM_FILE, all_appended_in_lat=True, appended_str=True,
                               time_range=None)
    t0 = int(rng.integers(0, 20))
    N = int(rng.integers(2, 6))
    for k, inst in enumerate(["HSRL", "KAZR"]):
        m = emc2.simulator.main.make_simulated_data(m, world.instrument(inst), N, parallel=False, skip_subcol_gen=k > 0,
                                                    convert_zeros_to_nan=True, unstack_dims=k == 1,
                                                    finalize_fields=k == 1, use_rad_logic=True)
    m.ds = m.ds.isel(time=slice(t0, t0 + 3))
    out = sa.get_radar_lidar_signals(m)
    check_signals(case, m, out, 1e-5)       # single-precision file
    tot, mol, zf, zh, ze = out
    T, L, K = zf.shape
    G = 40
    mid = np.arange(G) * 0.48 + 0.24
    gb, gt = mid - 0.24, mid + 0.24
    s = sa.calculate_SR(tot, mol, N, T, zf, zh, N, T, L, G, K, gb, gt)
    z = sa.get_regridded_ze_att_tot(ze, zf, zh, N, T, G, K, gb, gt, N, T, L)
    for name, got, src in (("scattering-ratio", s, None), ("ze-regrid", z, ze)):
        exp = np.full(got.shape, np.nan)
        for n, t, g, k in np.ndindex(got.shape):
            lo, hi = layers(zf[t, :, k], zh[t, :, k])
            x = [mean_of(np.where(np.isfinite(a[n, t, :, k]), a[n, t, :, k], UNDEF), lo, hi, gb[g], gt[g], False)
                 for a in ((tot, mol) if src is None else (src,))]
            if not any(isinstance(q, str) for q in x):
                exp[n, t, g, k] = x[0] / x[1] if src is None else x[0]
        case.equal(name, got, exp, rtol=2e-4, atol=1e-3 if src is not None else 0., what=f"{name} of the packaged E3SM case")
    for k in range(K):
        c = sa.get_cfad_SR(EDGES_SR, mid, T, N, s, k)
        v = s[..., k]
        case.equal("cfad-conserves", c.sum(1) * N * T, np.sum((v >= -1) & (v < 999.), axis=(0, 1)), rtol=1e-9,
                   what="counted scattering ratios")
    case.state("pipeline", N, t0)


SCENARIOS = dict(regrid=regrid, sr=sr, counts=counts, signals=signals, save=save, pipeline=pipeline)


def preload(tier):
    for r in ("HSRL", "KAZR"):
        world._instrument(r)
