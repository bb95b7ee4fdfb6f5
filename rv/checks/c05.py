"""C05: independence of scheduling, batching, neighbours and history; inputs immutable; reproducibility."""
import concurrent.futures as cf
import threading
import time
import zlib

import dask
import dask.threaded
import numpy as np

from emc2.simulator.attenuation import calc_radar_Ze_min
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta, calc_LDR_and_ext
from emc2.simulator.main import make_simulated_data
from emc2.simulator.radar_moments import calc_radar_moments, calc_total_reflectivity
from emc2.simulator.subcolumn import (set_convective_sub_col_frac, set_stratiform_sub_col_frac,
                                      set_precip_sub_col_frac, set_q_n)
from .. import world, common

PROPERTY = "C05"
RULE = ("differential monitors over executions of the same work: serial, dask synchronous, dask threads with random "
        "per-task delays and thread switching every 5 us, dask processes, whole or in chunks of 1..T+3; columns "
        "permuted, duplicated, subset or alone; moments recomputed on an already processed model, with other "
        "instruments and modes in between; full simulations repeated with the same seed. Every output variable of the "
        "run is compared value by value, inputs are compared with a snapshot, and the completion order of the column "
        "tasks is recorded (distinct orders are the distinct_states)")
REQUIRED = {"schedule": 50000, "columns": 50000, "rerun": 50000, "generator": 2000, "reproducible": 10000,
            "inputs-untouched": 2000, "tasks-run": 500, "tables-untouched": 1000, "settings-untouched": 1000, "full-history": 10000}
MODES = ["bulk", "emp", "micro"]


def preload(tier):
    for r in world.LIDARS + world.RADARS:
        world._instrument(r)


def plan(tier):
    n = 24 if tier == "quick" else 400
    return [("schedule", 4 * n), ("columns", 4 * n), ("rerun", 3 * n), ("generator", 3 * n), ("reproducible", n),
            ("full_history", n), ("processes", 4 if tier == "quick" else 40)]


class Jitter(cf.ThreadPoolExecutor):
    """A thread pool that delays tasks at random and records the order in which they finish."""
    def __init__(self, rng, n=6):
        super().__init__(n)
        self.rng, self.order, self.lock, self.k = np.random.default_rng(rng.integers(1 << 32)), [], threading.Lock(), 0

    def submit(self, fn, *a, **k):
        with self.lock:
            me, d = self.k, float(self.rng.choice([0, 1e-4, 2e-3, 6e-3]))
            self.k += 1

        def run():
            time.sleep(d)
            try:
                return fn(*a, **k)
            finally:
                with self.lock:
                    self.order.append(me)
        return super().submit(run)


class Scheduler:
    """Context: run dask work on jittered threads; report the observed interleavings to the case."""
    def __init__(self, case, kind):
        self.case, self.kind = case, kind

    def __enter__(self):
        import sys
        self.old = sys.getswitchinterval()
        if self.kind == "threads":
            sys.setswitchinterval(5e-6)
            self.pool = Jitter(self.case.rng)

            def get(dsk, keys, **kw):
                with self.pool.lock:
                    self.flush()
                return dask.threaded.get(dsk, keys, pool=self.pool, num_workers=6)
            self.cfg = dask.config.set(scheduler=get)
        elif self.kind == "processes":
            self.cfg = dask.config.set({"scheduler": "processes", "multiprocessing.context": "fork",
                                        "num_workers": 2})
        else:
            self.cfg = dask.config.set(scheduler="synchronous")
        self.cfg.__enter__()
        return self

    def flush(self):
        if self.pool.order:
            base = min(self.pool.order)
            self.case.state("order", ",".join(str(i - base) for i in self.pool.order))
            self.case.see("tasks-run", len(self.pool.order))
            self.pool.order = []

    def __exit__(self, *a):
        import sys
        self.cfg.__exit__(*a)
        sys.setswitchinterval(self.old)
        if self.kind == "threads":
            self.pool.shutdown(wait=True)
            self.flush()


def digest(inst):
    """Checksum of every table of an instrument (simulation must not modify them)."""
    out = {}
    for t in ("mie_table", "scat_table", "bulk_table"):
        for k, ds in (getattr(inst, t, None) or {}).items():
            for v in ds.variables:
                a = np.asarray(ds[v].values)
                out[f"{t}:{k}:{v}"] = (str(ds[v].attrs.get("units")), a.shape,
                                       zlib.crc32(np.ascontiguousarray(a).tobytes()) if a.dtype.kind in "fiu" else 0)
    for a in ("freq", "wavelength", "eta", "ext_OD", "OD_from_sfc", "Z_min_1km", "K_w"):
        out[a] = str(getattr(inst, a, None))
    return out


def settings(m):
    """Everything a model says about itself besides its data."""
    return {k: repr(v) for k, v in sorted(vars(m).items())
            if k not in ("ds", "interpobj", "p3_lut", "N_columns", "num_subcolumns") and not k.startswith("_")}


def settings_untouched(case, before, m, what):
    after = settings(m)
    case.see("settings-untouched", len(before))
    bad = [k for k in sorted(set(before) | set(after)) if k in before and after.get(k) != before[k]]
    if bad:
        case.fail("settings-untouched", f"{what}: model settings modified: "
                  + "; ".join(f"{k}: {before[k][:80]} -> {str(after.get(k))[:80]}" for k in bad[:3]))


def tables_untouched(case, before, inst, what):
    after = digest(inst)
    case.see("tables-untouched", len(before))
    bad = [k for k in before if after.get(k) != before[k]]
    if bad or set(after) != set(before):
        case.fail("tables-untouched", f"{what}: instrument data modified: {bad[:5] or sorted(set(after) ^ set(before))}")


def new_outputs(m, before):
    return {k: (m.ds[k].dims, m.ds[k].values) for k in m.ds.data_vars if k not in before}


def compare(case, monitor, got, want, what, rtol=1e-9):
    if set(got) != set(want):
        case.see(monitor)
        case.fail(monitor, f"{what}: different outputs {sorted(set(got) ^ set(want))[:6]}")
        return
    for k in sorted(want):
        d, v = want[k]
        if got[k][0] != d:
            case.see(monitor)
            case.fail(monitor, f"{what}: {k} has dims {got[k][0]}, was {d}")
        elif v.dtype.kind in "fiub":
            case.equal(monitor, got[k][1], v, rtol=rtol, atol=1e-300, what=f"{what}: {k}")


def op(case, m, inst, mode, kw, totals=True):
    """Forward moments of both cloud types, with the path totals."""
    micro = mode == "micro"
    radar = inst.instrument_class.lower() == "radar"
    sfc = kw["sfc"]
    common_kw = dict(OD_from_sfc=sfc, use_rad_logic=not micro, use_empiric_calc=mode == "emp",
                     mie_for_ice=kw["mie"], hyd_types=kw.get("hyds"), **kw.get("par", dict(parallel=False)))
    for c in (["strat", "conv"] if m.process_conv else ["strat"]):
        if radar:
            m = calc_radar_moments(inst, m, c == "conv", calc_spectral_width=kw.get("width", True), **common_kw)
        else:
            m = calc_lidar_moments(inst, m, c == "conv", eta=0.8, **common_kw)
    if totals and radar:
        m = calc_radar_Ze_min(inst, m)
        m = calc_total_reflectivity(m, detect_mask=True)
    elif totals:
        m = calc_total_alpha_beta(m, OD_from_sfc=sfc, eta=0.8)
        m = calc_LDR_and_ext(m, OD_from_sfc=sfc)
    return m


def setup(case, T=None, fam=None):
    rng = case.rng
    mode = MODES[case.index % 3]
    fam = fam or common.pick(rng, [f for f in world.FAMILIES if mode != "emp" or f != "P3"])
    if fam == "NSSL" and mode != "micro":
        fam = "WRF"
    radar = bool(rng.integers(0, 2))
    name = common.pick(rng, world.RADARS if radar else world.LIDARS)
    inst = world.instrument(name)
    T0 = T
    N, T, H = int(rng.integers(1, 5)), T or int(rng.integers(2, 7)), int(rng.integers(3, 8))
    if T0 is None:
        N, T, H = common.stretch(case, N, T, H, p=0.03, cells=800)
    conv = bool(rng.integers(0, 2)) and fam != "P3"
    m = world.make_model(rng, fam, N, T, H, process_conv=conv, lut_inst=name if fam == "P3" else "KAZR",
                         re_nan=bool(rng.integers(0, 2)))
    m = world.put_subcolumns(m, rng, N, cover=float(rng.uniform(0.2, 0.9)))
    if mode == "micro":
        inst = world.coarsen(inst, 16)
    kw = dict(sfc=bool(rng.integers(0, 2)), mie=bool(rng.integers(0, 2)), width=bool(rng.uniform() < 0.8))
    case.info = dict(family=fam, instrument=name, mode=mode, N=N, T=T, H=H, conv=conv, **kw)
    return m, inst, mode, kw


def batching(rng, T):
    u = rng.integers(0, 5)
    return dict(parallel=True, chunk=[None, 1, 2, int(rng.integers(1, T + 4)), T][u])


def schedule(case, kind=None):
    m0, inst, mode, kw = setup(case)
    T = m0.ds.sizes[m0.time_dim]
    before = common.snapshot(m0.ds)
    ref_m = op(case, world.clone(m0), inst, mode, kw)
    want = new_outputs(ref_m, before)
    for i in range(2):
        k = kind or ["threads", "sync"][i]
        par = batching(case.rng, T)
        m = world.clone(m0)
        with Scheduler(case, k):
            m = op(case, m, inst, mode, dict(kw, par=par))
        compare(case, "schedule", new_outputs(m, before), want, f"{mode} {inst.instrument_str} {k} {par} vs serial")
        common.inputs_untouched(case, before, m.ds, mode)
        case.state("sched", k, mode, inst.instrument_class, par.get("chunk"))


def processes(case):
    schedule(case, "processes")


def columns(case):
    rng = case.rng
    m0, inst, mode, kw = setup(case)
    T = m0.ds.sizes[m0.time_dim]
    before = common.snapshot(m0.ds)
    want = new_outputs(op(case, world.clone(m0), inst, mode, kw), before)
    choices = {"permuted": rng.permutation(T), "reversed": np.arange(T)[::-1], "alone": rng.integers(0, T, 1),
               "subset": np.sort(rng.choice(T, max(1, T - 1), replace=False)),
               "duplicated": rng.integers(0, T, T + 1)}
    for k in rng.choice(list(choices), 2, replace=False):
        idx = choices[k]
        m = world.clone(m0)
        m.ds = m0.ds.isel({m0.time_dim: idx}).copy(deep=True)
        if len(set(idx)) < len(idx):
            m.ds[m0.time_dim] = m0.ds[m0.time_dim].values[0] + np.arange(len(idx)) * np.timedelta64(60, "s")
        b = common.snapshot(m.ds)
        m = op(case, m, inst, mode, dict(kw, par=common.pick(rng, common.PAR)))
        exp = {n: (d, np.take(v, idx, axis=d.index(m0.time_dim)) if m0.time_dim in d else v)
               for n, (d, v) in want.items()}
        compare(case, "columns", new_outputs(m, b), exp, f"{mode} {inst.instrument_str} columns {k} {idx.tolist()}")
        common.inputs_untouched(case, b, m.ds, mode)
        case.state("columns", k, mode, inst.instrument_class)


def rerun(case):
    rng = case.rng
    m, inst, mode, kw = setup(case)
    before = common.snapshot(m.ds)
    tables, own = digest(inst), settings(m)
    want = new_outputs(op(case, m, inst, mode, kw), before)
    want = {k: (d, v.copy()) for k, (d, v) in want.items()}
    for i in range(2):
        between = []
        while rng.uniform() < 0.45:
            n = common.pick(rng, world.RADARS if rng.integers(0, 2) else world.LIDARS)
            md = common.pick(rng, MODES if m.mcphys_scheme != "P3" else ["bulk", "micro"])
            if m.mcphys_scheme.lower() == "nssl":
                md = "micro" if md == "bulk" else md
            o = world.instrument(n)
            if md == "micro":
                o = world.coarsen(o, 16)
            k2 = dict(sfc=bool(rng.integers(0, 2)), mie=bool(rng.integers(0, 2)))
            if rng.uniform() < 0.3 and m.mcphys_scheme != "P3":
                k2["hyds"] = [str(common.pick(rng, m.hyd_types))]
            m = op(case, m, o, md, k2, totals=k2.get("hyds") is None)
            between.append(f"{n}:{md}")
        m = op(case, m, inst, mode, kw)
        got = {k: v for k, v in new_outputs(m, before).items() if k in want}
        compare(case, "rerun", got, want, f"{mode} {inst.instrument_str} again after {between or 'itself'}")
        common.inputs_untouched(case, before, m.ds, mode)
        case.state("rerun", mode, inst.instrument_class, len(between))
    tables_untouched(case, tables, inst, f"{mode} {inst.instrument_str}")
    settings_untouched(case, own, m, f"{mode} {inst.instrument_str}")


def gen(m, N, rad, par):
    if m.process_conv:
        for h in m.hyd_types:
            m = set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
    m = set_stratiform_sub_col_frac(m, use_rad_logic=rad, N_columns=N, **par)
    pt = [h for h in m.hyd_types if h not in ("cl", "ci")]
    for c in ([False, True] if m.process_conv else [False]):
        m = set_precip_sub_col_frac(m, is_conv=c, use_rad_logic=rad, precip_types=pt, **par)
    for h in m.hyd_types:
        m = set_q_n(m, h, is_conv=False, qc_flag=h == "cl", use_rad_logic=rad, **par)
        if m.process_conv:
            m = set_q_n(m, h, is_conv=True, qc_flag=False, use_rad_logic=rad, **par)
    return m


def generator(case):
    """Placement is random, but what each column receives in total is not: it must not depend on scheduling, batching,
    neighbours or column order, nor on an earlier generation."""
    rng = case.rng
    fam = common.pick(rng, ["ModelE", "DHARMA", "WRF", "Multi"])
    N, T, H = int(rng.integers(2, 10)), int(rng.integers(2, 7)), int(rng.integers(3, 8))
    N, T, H = common.stretch(case, N, T, H, cells=1500)
    m0 = world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)))
    rad = bool(rng.integers(0, 2))
    before = common.snapshot(m0.ds)

    def totals(m):
        out = {}
        for k in m.ds.data_vars:
            if k not in before and "subcolumns" in k:
                a = m.ds[k].transpose("subcolumn", m.time_dim, m.height_dim).values.astype(float)
                out[k] = (("t", "h"), a.sum(axis=0))
        return out
    own = settings(m0)
    want = totals(gen(world.clone(m0), N, rad, dict(parallel=False)))
    for kind in ("threads", "columns", "again"):
        m, idx = world.clone(m0), np.arange(T)
        par = batching(rng, T)
        if kind == "columns":
            idx = common.pick(rng, [rng.permutation(T), rng.integers(0, T, 1), np.arange(T)[::-1]])
            m.ds = m0.ds.isel({m0.time_dim: idx}).copy(deep=True)
        with Scheduler(case, "threads" if kind == "threads" else "sync"):
            m = gen(m, N, rad, par)
            if kind == "again":
                m = gen(m, N, rad, par)
        exp = {k: (d, v[idx]) for k, (d, v) in want.items()}
        compare(case, "generator", totals(m), exp, f"{fam} subcolumn totals, {kind} {par}", rtol=1e-7)
        b = {k: (d, np.take(v, idx, axis=d.index(m0.time_dim)) if m0.time_dim in d else v)
             for k, (d, v) in before.items()}
        common.inputs_untouched(case, b, m.ds, "generation")
        settings_untouched(case, own, m, "generation")
        case.state("gen", kind, rad, m0.process_conv, par.get("chunk"))
    case.info = dict(family=fam, N=N, T=T, H=H, rad=rad, conv=m0.process_conv)


def sim_setup(case):
    rng = case.rng
    mode = MODES[case.index % 3]
    fam = common.pick(rng, ["ModelE", "CESM", "DHARMA", "WRF", "Multi"])
    N, T, H = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(3, 8))
    m = world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)))
    kw = dict(use_rad_logic=mode != "micro", use_empiric_calc=mode == "emp", parallel=False)
    return rng, mode, m, N, kw


def device(rng, mode, classify=False):
    n = common.pick(rng, world.RADARS + (["HSRL"] if classify else world.LIDARS))
    i = world.instrument(n)
    return world.coarsen(i, 16) if mode == "micro" else i


def reproducible(case):
    rng, mode, m0, N, kw = sim_setup(case)
    inst = device(rng, mode)
    before = common.snapshot(m0.ds)
    par = common.pick(rng, [dict(parallel=True), dict(parallel=True, chunk=2), dict(parallel=True, chunk=1)])
    for p in (dict(parallel=False), par):
        runs = []
        for _ in range(2):
            np.random.seed(case.np_seed % (2 ** 32))
            m = make_simulated_data(world.clone(m0), inst, N, **dict(kw, **p))
            common.inputs_untouched(case, before, m.ds, "simulation")
            runs.append(new_outputs(m, before))
        compare(case, "reproducible", runs[1], runs[0], f"{mode} {inst.instrument_str} {p} with the same seed", rtol=0)
    case.state("repeat", mode, inst.instrument_class, str(par))
    case.info = dict(mode=mode, instrument=inst.instrument_str, N=N)


def full_history(case):
    """Simulate, simulate other instruments on the same subcolumns, simulate the first again."""
    rng, mode, m, N, kw = sim_setup(case)
    first = device(rng, mode)
    before, own, tables = common.snapshot(m.ds), settings(m), digest(first)
    m0 = world.clone(m)
    m = make_simulated_data(m, first, N, **kw)
    want = {k: (d, v.copy()) for k, (d, v) in new_outputs(m, before).items()}
    for i in range(int(rng.integers(1, 3))):
        md = common.pick(rng, MODES)
        m = make_simulated_data(m, device(rng, md), N, skip_subcol_gen=True, use_rad_logic=md != "micro",
                                use_empiric_calc=md == "emp", parallel=False)
    m = make_simulated_data(m, first, N, skip_subcol_gen=True, **kw)
    got = {k: v for k, v in new_outputs(m, before).items() if k in want}
    compare(case, "full-history", got, want, f"{mode} {first.instrument_str} simulated again after others")
    # all of it once more, new subcolumns included: nothing of the former simulations may show
    seed = int(rng.integers(0, 2 ** 31))
    runs = []
    for x in (m, m0):
        np.random.seed(seed)
        runs.append(new_outputs(make_simulated_data(x, first, N, **kw), before))
    compare(case, "full-history", {k: v for k, v in runs[0].items() if k in runs[1]}, runs[1],
            f"{mode} {first.instrument_str} simulated from scratch on a used model")
    common.inputs_untouched(case, before, m.ds, "simulation")
    settings_untouched(case, own, m, "simulation")
    tables_untouched(case, tables, first, "simulation")
    case.state("full", mode, first.instrument_class)


SCENARIOS = dict(schedule=schedule, columns=columns, rerun=rerun, generator=generator, reproducible=reproducible,
                 full_history=full_history, processes=processes)
