"""Helpers shared by the monitors."""
import numpy as np

THR = 1e-18


def snapshot(ds, names=None):
    return {k: (ds[k].dims, np.array(ds[k].values, copy=True)) for k in (names or list(ds.variables))}


def inputs_untouched(case, before, ds, what="", allow=()):
    """Monitor: the model's input fields hold the same values, shapes and dimensions after processing."""
    for k, (dims, v) in before.items():
        if k in allow:
            continue
        case.see("inputs-untouched")
        if k not in ds.variables:
            case.fail("inputs-untouched", f"{what}: input field {k} disappeared")
            continue
        if ds[k].dims != dims or ds[k].shape != v.shape:
            case.fail("inputs-untouched", f"{what}: input field {k} changed dims {dims}->{ds[k].dims}")
            continue
        a = ds[k].values
        same = (a == v) | (_isnan(a) & _isnan(v))
        if not np.all(same):
            case.fail("inputs-untouched", f"{what}: {int((~same).sum())} values of input field {k} were modified")


def _isnan(a):
    try:
        return np.isnan(a)
    except TypeError:
        return np.zeros(np.shape(a), bool)


def order3(case, ds, name, first="subcolumn"):
    """An output as a numpy array in (subcolumn, time, height) order, whatever dim order it is stored in."""
    da = case.get(ds, name)
    return da.transpose(first, ..., transpose_coords=False).values


def sub(case, model, name):
    da = case.get(model.ds, name)
    want = ("subcolumn", model.time_dim, model.height_dim)
    if set(da.dims) != set(want):
        case.see("output-dims")
        case.fail("output-dims", f"{name} has dims {da.dims}, expected {want}")
        from .core import Violation
        raise Violation(name)
    return da.transpose(*want).values


def fld(model, name):
    return model.ds[name].transpose(model.time_dim, model.height_dim).values.astype(float)


def counts_from(frac, q, N, rad, thr=THR):
    """Number of subcolumns a class must occupy before any capping."""
    f = np.asarray(frac, float)
    if rad:
        f = np.where(np.asarray(q) > thr, f, 0.0)
    return np.round(f * N).astype(int)


PAR = [dict(parallel=False), dict(parallel=True), dict(parallel=True, chunk=1), dict(parallel=True, chunk=2),
       dict(parallel=True, chunk=3), dict(parallel=True, chunk=100)]


def stretch(case, N, T, H, p=0.12, cells=3000):
    """Now and then one dimension is large (many subcolumns, columns or levels), the total size staying bounded.

    Every 16th case is large for certain (the three dimensions in turn), so that even short runs contain each, and
    every 7th has a single subcolumn, which the code treats apart."""
    rng = case.rng
    forced = case.index % 16 == 5
    if rng.uniform() >= p and not forced:
        if case.index % 7 == 3:         # the subcolumn generator turned off
            N = 1
            case.state("single subcolumn")
        return N, T, H
    k = (case.index // 16) % 3 if forced else int(rng.integers(0, 3))
    if k == 0:
        N = int(rng.integers(130, 301))
        T = min(T, 2)
        H = max(2, min(H, cells // (N * T)))
    elif k == 1:
        T = int(rng.integers(130, 301))
        N = min(N, 3)
        H = max(3, min(H, cells // (N * T)))
    else:
        H = int(rng.integers(70, 141))
        T = min(T, 2)
        N = max(2, min(N, cells // (H * T)))
    case.state("large", "NTH"[k])
    return N, T, H


def pick(rng, seq):
    return seq[int(rng.integers(0, len(seq)))]


def other_first(case, m, inst, prob=0.4, micro=True):
    """History: the same model is first processed with other instruments (whatever they leave must not matter)."""
    from emc2.simulator.radar_moments import calc_radar_moments
    from emc2.simulator.lidar_moments import calc_lidar_moments
    from . import world
    rng = case.rng
    done = []
    if m.rad_scheme_family == "P3" and m.mcphys_scheme == "P3":      # keeps per-instrument interpolators
        prob = 0.8
    kin = world.RADARS if inst.instrument_class.lower() == "radar" else world.LIDARS
    while rng.uniform() < prob and len(done) < 2:
        name = pick(rng, [x for x in (kin if rng.uniform() < 0.7 else world.RADARS + world.LIDARS) if x != inst.instrument_str
                          and world._instrument(x).instrument_str != inst.instrument_str])
        mode = "micro" if micro and rng.uniform() < 0.4 else "bulk"
        o = world.instrument(name)
        if mode == "micro":
            o = world.coarsen(o, 16)
        f = calc_radar_moments if o.instrument_class.lower() == "radar" else calc_lidar_moments
        f(o, m, False, use_rad_logic=mode == "bulk", mie_for_ice=bool(rng.integers(0, 2)), parallel=False)
        done.append(f"{name}:{mode}")
        case.see("history-steps")
    if done:
        case.state("history", len(done), done[-1].split(":")[1])
    return done
