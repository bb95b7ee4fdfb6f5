"""C25: the one-call simulator against its stages."""
import dask
import numpy as np

from emc2.simulator.attenuation import calc_radar_Ze_min
from emc2.simulator.classification import lidar_classify_phase, lidar_emulate_cosp_phase, radar_classify_phase
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta, calc_LDR_and_ext
from emc2.simulator.main import make_simulated_data
from emc2.simulator.radar_moments import calc_radar_empirical, calc_radar_moments, calc_total_reflectivity
from .. import world, common
from . import c02, c03, c04
from .c05 import (Scheduler, compare, digest, gen, new_outputs, settings, settings_untouched,
                  tables_untouched)

PROPERTY = "C25"
RULE = ("the call is compared with the stage functions run one by one with explicitly spelled-out options on the "
        "subcolumns the call generated (every output, exact to 1e-12), and the generated subcolumn totals with the "
        "generator stages; random options, defaults left out at random, every family, radars and lidars, N=1..6, "
        "skipping / only generating, finalising, stacked regional models with and without unstacking, parallel "
        "routing observed through the task scheduler; distinct states are option combinations")
REQUIRED = {"stages": 100000, "settings-untouched": 1000, "tables-untouched": 1000, "generator": 5000, "inputs-untouched": 1000, "outputs-set": 100, "parallel-routing": 30,
            "finalize": 20000, "unstack": 20000, "reject": 6, "gen-only": 10, "sub-grid": 6, "overlap": 1000,
            "prefer-cloud": 1000, "q-in-cloud": 10000}


def preload(tier):
    for r in world.LIDARS + world.RADARS:
        world._instrument(r)


def plan(tier):
    n = 30 if tier == "quick" else 500
    return [("generation", 2 * n), ("calls", 6 * n), ("finalize", 2 * n), ("regional", 2 * n), ("gen_only", n),
            ("parallel", n // 2 + 6), ("reject", 18)]


def options(rng, m, inst, mode, classify=True):
    """kwargs for the call, and the full set of values each stage must see."""
    radar = inst.instrument_class.lower() == "radar"
    micro = mode == "micro"
    full = dict(rad=not micro, emp=mode == "emp", sfc=inst.OD_from_sfc, ref=1000., ext=inst.ext_OD, eta=inst.eta,
                hyds=None, mie_s=micro and m.mcphys_scheme != "P3", mie_c=False, width=True, nan=False, rng=None)
    kw = dict(parallel=False)
    if micro or rng.integers(0, 2):
        kw["use_rad_logic"] = not micro
    if mode == "emp":
        kw["use_empiric_calc"] = True
    if rng.integers(0, 2):
        full["sfc"] = kw["OD_from_sfc"] = bool(rng.integers(0, 2))
    if rng.integers(0, 2):
        full["mie_s"] = full["mie_c"] = kw["mie_for_ice"] = bool(rng.integers(0, 2))
    if rng.uniform() < 0.25 and m.mcphys_scheme != "P3" and mode != "emp":
        hy = [h for h in m.hyd_types if rng.uniform() < 0.7] or [m.hyd_types[0]]
        full["hyds"] = kw["hyd_types"] = hy
    if radar:
        if rng.integers(0, 2):
            full["ref"] = kw["ref_rng"] = float(10 ** rng.uniform(1, 4.7))
        if rng.uniform() < 0.4:
            full["width"] = kw["calc_spectral_width"] = bool(rng.integers(0, 2))
        if rng.uniform() < 0.5:
            z = m.ds[m.z_field].values
            lo, hi = sorted(rng.uniform(-0.2, 1.2, 2))
            full["rng"] = kw["mask_height_rng"] = tuple(float(z.min() + x * np.ptp(z)) for x in (lo, hi))
    else:
        if rng.integers(0, 2):
            full["ext"] = kw["ext_OD"] = float(10 ** rng.uniform(-2, 1.5))
        if rng.integers(0, 2):
            full["eta"] = kw["eta"] = float(common.pick(rng, [1., rng.uniform(0.02, 1), rng.uniform(0.3, 0.95)]))
    if rng.integers(0, 2):
        full["nan"] = kw["convert_zeros_to_nan"] = bool(rng.integers(0, 2))
    return kw, full


def staged(m, inst, o, classify):
    radar = inst.instrument_class.lower() == "radar"
    if radar:
        for conv in ([False, True] if m.process_conv else [False]):
            m = calc_radar_moments(inst, m, conv, OD_from_sfc=o["sfc"], hyd_types=o["hyds"], parallel=False, chunk=None,
                                   mie_for_ice=o["mie_c"] if conv else o["mie_s"], use_rad_logic=o["rad"],
                                   use_empiric_calc=o["emp"], calc_spectral_width=o["width"])
        m = calc_radar_Ze_min(inst, m, o["ref"])
        m = calc_total_reflectivity(m, detect_mask=True)
        if classify:
            m = radar_classify_phase(inst, m, mask_height_rng=o["rng"], convert_zeros_to_nan=o["nan"])
        return m
    for conv in ([False, True] if m.process_conv else [False]):
        m = calc_lidar_moments(inst, m, conv, OD_from_sfc=o["sfc"], hyd_types=o["hyds"], parallel=False, chunk=None,
                               eta=o["eta"], mie_for_ice=o["mie_c"] if conv else o["mie_s"], use_rad_logic=o["rad"],
                               use_empiric_calc=o["emp"])
    m = calc_total_alpha_beta(m, OD_from_sfc=o["sfc"], eta=o["eta"])
    m = calc_LDR_and_ext(m, ext_OD=o["ext"], OD_from_sfc=o["sfc"], hyd_types=o["hyds"])
    if classify:
        m = lidar_classify_phase(inst, m, convert_zeros_to_nan=o["nan"])
        m = lidar_emulate_cosp_phase(inst, m, eta=o["eta"], OD_from_sfc=o["sfc"], convert_zeros_to_nan=o["nan"],
                                     hyd_types=o["hyds"])
    return m


def setup(case, regional=False):
    rng = case.rng
    mode = ["bulk", "micro", "bulk", "emp"][case.index % 4]
    fams = [f for f in world.FAMILIES if not (f == "NSSL" and mode != "micro") and not (f == "P3" and mode == "emp")]
    fam = common.pick(rng, fams)
    name = common.pick(rng, (world.RADARS if rng.integers(0, 2) else world.LIDARS + ["HSRL"] * 3))
    inst = world.instrument(name)
    if rng.uniform() < 0.3:
        inst.OD_from_sfc = not inst.OD_from_sfc
    if inst.instrument_class.lower() == "lidar" and rng.uniform() < 0.3:
        inst.eta, inst.ext_OD = 0.6, 2.5
    radar = inst.instrument_class.lower() == "radar"
    N, H = int(rng.integers(1, 7)), int(rng.integers(3, 8))
    dims = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3)))
    uselon = bool(rng.integers(0, 2))
    if regional and dims[0] == 1 and (dims[1] == 1 or not uselon):
        dims = (2,) + dims[1:]
    T = dims[0] * dims[2] * (dims[1] if uselon else 1) if regional else int(rng.integers(1, 5))
    if not regional:
        N, T, H = common.stretch(case, N, T, H, p=0.03, cells=1000)
    m = world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)) and fam != "P3",
                         lut_inst=name if fam == "P3" else "KAZR", re_nan=False)
    if fam == "P3":
        m.ds["in_cld_Ni"] = m.ds["in_cld_Ni"]
    region = None
    if regional:
        region = world.regional(m, rng, *dims, use_lon=uselon)
    if mode == "micro":
        inst = world.coarsen(inst, 16)
    classify = (radar or inst.instrument_str == "HSRL") and bool(rng.uniform() < 0.7)
    case.info = dict(mode=mode, family=fam, instrument=name, N=N, T=T, H=H, conv=m.process_conv, classify=classify,
                     regional=regional)
    return m, inst, mode, N, classify, region


def generated(m, before):
    return {k: v for k, v in new_outputs(m, before).items() if "subcolumns" in k}


def calls(case):
    rng = case.rng
    m0, inst, mode, N, classify, _ = setup(case)
    kw, full = options(rng, m0, inst, mode)
    before = common.snapshot(m0.ds)
    what = f"{mode} {inst.instrument_str} N={N} {kw}"
    own, tables, asked = settings(m0), digest(inst), repr(kw)
    m = make_simulated_data(world.clone(m0), inst, N, do_classify=classify, **kw)
    common.inputs_untouched(case, before, m.ds, what)
    settings_untouched(case, own, m, what)
    tables_untouched(case, tables, inst, what)
    case.check(repr(kw) == asked, "settings-untouched", f"the caller's options were changed from {asked} to {kw!r}")
    got = new_outputs(m, before)
    ref = world.clone(m0)
    ref.ds["subcolumn"] = m.ds["subcolumn"]
    for k, (d, v) in generated(m, before).items():
        ref.ds[k] = (d, v.copy())
    if case.check(m.num_subcolumns == N, "outputs-set", f"{what}: {m.num_subcolumns} subcolumns instead of {N}"):
        ref = staged(ref, inst, full, classify)
        compare(case, "stages", got, new_outputs(ref, before), what, rtol=1e-12)
    # generation reached every class, with the chosen logic
    g = world.clone(m0)
    g = gen(g, N, full["rad"], dict(parallel=False))
    for k in sorted(set(new_outputs(g, before))):
        if "subcolumns" in k:
            a, b = common.sub(case, m, k).astype(float), common.sub(case, g, k).astype(float)
            case.equal("generator", a.sum(0), b.sum(0), rtol=1e-7, what=f"{what}: total of {k}")
    # the water of each cloud type and class follows from presence alone, except sub-grid variable cloud liquid
    case.check({k for k in got if "subcolumns" in k} == {k for k in new_outputs(g, before) if "subcolumns" in k},
               "outputs-set", f"{what}: generated fields differ from those of the generator stages")
    case.check(m.process_conv or not any("conv" in k for k in got), "outputs-set",
               f"{what}: convective outputs although the model has no convection")
    for key in list(kw) + ["classify"] * classify:
        case.state("option", key, kw.get(key) if isinstance(kw.get(key), bool) else "", inst.instrument_class, mode)
    # only the forward part, on what is there already
    again = make_simulated_data(world.clone(m), inst, common.pick(rng, [N, None]), do_classify=classify,
                                skip_subcol_gen=True, **kw)
    compare(case, "stages", new_outputs(again, before), got, what + " with skip_subcol_gen", rtol=1e-9)


def finalize(case):
    rng = case.rng
    m0, inst, mode, N, classify, _ = setup(case)
    kw, full = options(rng, m0, inst, mode)
    before = common.snapshot(m0.ds)
    m0 = make_simulated_data(m0, inst, N, subcol_gen_only=True, use_rad_logic=full["rad"], parallel=False)
    plain = make_simulated_data(world.clone(m0), inst, N, do_classify=classify, skip_subcol_gen=True, **kw)
    fin = make_simulated_data(world.clone(m0), inst, N, do_classify=classify, skip_subcol_gen=True,
                              finalize_fields=True, **kw)
    want = {k: (d, np.where(v == 0, np.nan, v) if "sub_col" in k else v)
            for k, (d, v) in new_outputs(plain, before).items()}
    compare(case, "finalize", new_outputs(fin, before), want, f"{mode} {inst.instrument_str} finalised", rtol=1e-12)


def regional(case):
    rng = case.rng
    m0, inst, mode, N, classify, region = setup(case, regional=True)
    t0 = m0.stacked_time_dim
    kw, full = options(rng, m0, inst, mode)
    what = f"{mode} {inst.instrument_str} regional {dict(region.sizes)}"
    only = make_simulated_data(world.clone(m0), inst, N, subcol_gen_only=True, use_rad_logic=full["rad"],
                               parallel=False, unstack_dims=True)
    case.check(only.stacked_time_dim is None and only.time_dim == t0, "unstack",
               f"{what}: still stacked after generation only")
    m0 = make_simulated_data(m0, inst, N, subcol_gen_only=True, use_rad_logic=full["rad"], parallel=False)
    case.check(m0.stacked_time_dim == t0, "unstack", f"{what}: generation only unstacked although not asked for")
    plain = make_simulated_data(world.clone(m0), inst, N, do_classify=classify, skip_subcol_gen=True, **kw)
    case.check(plain.stacked_time_dim == t0, "unstack", f"{what}: unstacked although not asked for")
    m = make_simulated_data(world.clone(m0), inst, N, do_classify=classify, skip_subcol_gen=True, unstack_dims=True,
                            **kw)
    case.check(m.stacked_time_dim is None and m.time_dim == t0, "unstack", f"{what}: still stacked")
    st = plain.time_dim
    idx = plain.ds.indexes[st]
    names = list(idx.names)
    want = {k: plain.ds[k] for k in plain.ds.data_vars if st in plain.ds[k].dims}
    pos = tuple(np.searchsorted(region[n].values, np.asarray(idx.get_level_values(n), region[n].dtype)) for n in names)
    for k, da in want.items():
        if da.dtype.kind not in "fiub":
            continue
        o = m.ds[k] if k in m.ds else case.get(m.ds, k)
        for d in names + (["subcolumn"] if "subcolumn" in da.dims else []):
            if d not in o.dims:
                o = o.expand_dims(d)
        rest = [d for d in da.dims if d != st]
        a = o.transpose(*names, *rest).values[pos]
        case.equal("unstack", a.astype(float), da.transpose(st, *rest).values.astype(float), rtol=0, what=f"{what} {k}")
    for n in names:
        case.check(n in m.ds.coords and np.array_equal(np.atleast_1d(m.ds[n].values), region[n].values), "unstack",
                   f"{what}: coordinate {n} changed")
    case.state("regional", len(names), mode, N == 1, region.sizes[t0] == 1)


def gen_only(case):
    rng = case.rng
    m0, inst, mode, N, classify, _ = setup(case)
    before = common.snapshot(m0.ds)
    rad = bool(rng.integers(0, 2))
    if rng.uniform() < 0.5:  # finalising belongs to the call, whether or not it simulates
        v = np.where(rng.uniform(size=m0.ds[m0.T_field].shape) < 0.4, 0., rng.normal(size=m0.ds[m0.T_field].shape))
        m1 = world.clone(m0)
        m1.ds["sub_col_extra"] = (m1.ds[m1.T_field].dims, v.copy())
        fin = bool(rng.integers(0, 2))
        m1 = make_simulated_data(m1, inst, N, subcol_gen_only=True, finalize_fields=fin, use_rad_logic=rad,
                                 parallel=False)
        case.equal("finalize", case.get(m1.ds, "sub_col_extra").values, np.where(v == 0, np.nan, v) if fin else v,
                   rtol=0, what=f"earlier field after generation only, finalize_fields={fin}")
    m = make_simulated_data(world.clone(m0), inst, N, do_classify=classify, subcol_gen_only=True, use_rad_logic=rad,
                            parallel=False)
    g = gen(world.clone(m0), N, rad, dict(parallel=False))
    a, b = new_outputs(m, before), new_outputs(g, before)
    case.check(set(a) == set(b), "gen-only", f"generation only produced {sorted(set(a) ^ set(b))[:5]} extra or missing")
    for k in sorted(set(a) & set(b)):
        if "subcolumns" in k:
            case.equal("generator", common.sub(case, m, k).astype(float).sum(0),
                       common.sub(case, g, k).astype(float).sum(0), rtol=1e-7, what=f"generation only: {k}")
    common.inputs_untouched(case, before, m.ds, "generation only")


def generation(case):
    """What the call generated obeys the rules of the generator stages it stands for (C01-C04), stage order included."""
    rng = case.rng
    N, T, H = int(rng.integers(2, 17)), int(rng.integers(2, 9)), int(rng.integers(4, 14))
    rad = bool(case.index % 2)
    m0 = world.make_model(rng, common.pick(rng, ["ModelE", "CESM", "Multi", "WRF", "DHARMA"]), N, T, H,
                          process_conv=bool(rng.integers(0, 2)), q_mode=common.pick(rng, ["pos", "hostile"]))
    if rng.uniform() < 0.3:
        m0.hyd_types = [str(h) for h in rng.permutation(m0.hyd_types)]
    par = common.pick(rng, common.PAR)
    m = make_simulated_data(m0, world.instrument("KAZR"), N, subcol_gen_only=True, use_rad_logic=rad,
                            finalize_fields=bool(rng.integers(0, 2)), do_classify=bool(rng.integers(0, 2)), **par)
    what = f"generation in one call, rad={rad} {par}"
    types = [h for h in m.hyd_types if h not in ("cl", "ci")]
    c02.judge(case, m, N, rad, what=what)
    for is_conv in ([False, True] if m.process_conv else [False]):
        c03.judge(case, m, types, is_conv, N, rad, what=what)
        for h in m.hyd_types:
            if is_conv:
                cnt = common.counts_from(common.fld(m, (m.conv_frac_names_for_rad if rad else m.conv_frac_names)[h]),
                                         common.fld(m, m.q_names_convective[h]), N, rad)
                if h in ("cl", "ci"):
                    case.equal("conv-occupancy", common.sub(case, m, f"conv_frac_subcolumns_{h}").astype(float),
                               (np.arange(N)[:, None, None] < cnt[None]).astype(float), what=f"{what} convective {h}")
            if is_conv or rad or h != "cl":
                c04.judge_homog(case, m, h, is_conv, rad, 1e-18, f"{what} {h} conv={is_conv}")
                continue
            occ = common.sub(case, m, "strat_frac_subcolumns_cl").astype(bool)
            q, f, qic = c04.fields(m, h, False, rad, 1e-18)
            got = common.sub(case, m, "strat_q_subcolumns_cl")
            case.equal("q-in-cloud", got.sum(axis=0), qic * occ.sum(axis=0), rtol=1e-7, atol=1e-20,
                       what=f"{what} cell sum of cloud liquid")
            many = (occ.sum(axis=0) >= 3) & (qic > 0)
            if many.sum() >= 5:
                varied = np.array([np.ptp(got[:, t, k][occ[:, t, k]]) > 1e-9 * qic[t, k] for t, k in np.argwhere(many)])
                case.check(varied.mean() > 0.3, "sub-grid", f"{what}: stratiform cloud liquid varies between subcolumns "
                           f"in only {varied.sum()} of {len(varied)} cells")
    case.state("generation", rad, m.process_conv, str(par))
    case.info = dict(N=N, T=T, H=H, rad=rad, conv=m.process_conv, par=str(par))


def parallel(case):
    """Serial requests run no scheduler task; parallel ones do, with no batch larger than the chunk."""
    rng = case.rng
    T = int(rng.integers(3, 7))
    m0 = world.make_model(rng, common.pick(rng, ["ModelE", "DHARMA"]), 3, T, 4, process_conv=bool(rng.integers(0, 2)))
    inst = world.coarsen(world.instrument(common.pick(rng, ["KAZR", "HSRL", "WACR", "CEIL"])), 24)
    sizes = []

    def get(dsk, keys, **kw):
        sizes.append(len(np.ravel(np.array(keys, dtype=object))) if not isinstance(keys, list) else len(keys))
        return dask.get(dsk, keys, **kw)
    for par in (dict(parallel=False), dict(parallel=False, chunk=2), dict(parallel=True, chunk=2), dict(parallel=True),
                {}):
        sizes.clear()
        with dask.config.set(scheduler=get):
            make_simulated_data(world.clone(m0), inst, 3, use_rad_logic=False, **par)
        if par.get("parallel", True):
            lim = par.get("chunk") or T
            case.check(sizes and max(sizes) <= lim, "parallel-routing", f"{par} on {T} columns ran batches {sizes[:9]}")
        else:
            case.check(not sizes, "parallel-routing", f"{par}: serial request used the parallel scheduler")
        case.state("par", str(par), inst.instrument_class)


def reject(case):
    rng = case.rng
    m = world.make_model(rng, "ModelE", 4, 2, 4, process_conv=bool(rng.integers(0, 2)))
    k = case.index % 9
    if k == 0:
        inst = world.instrument("KAZR")
        inst.instrument_class = common.pick(rng, ["sodar", "", "radiometer"])
        case.raises("reject", ValueError, make_simulated_data, m, inst, 4, parallel=False)
    elif k == 1 and m.process_conv:
        m.num_subcolumns = 5
        case.raises("reject", ValueError, make_simulated_data, m, world.instrument("KAZR"), 4, parallel=False)
    elif k == 2:
        n = common.pick(rng, [x for x in world.LIDARS if world._instrument(x).instrument_str != "HSRL"])
        case.raises("reject", ValueError, make_simulated_data, m, world.instrument(n), 4, do_classify=True,
                    parallel=False)
    elif k == 3:
        m.hyd_types = []
        case.raises("reject", ValueError, make_simulated_data, m, world.instrument("KAZR"), 4, parallel=False)
    elif k == 4:
        case.raises("reject", (KeyError, ValueError), make_simulated_data, m, world.instrument("HSRL"), 4,
                    skip_subcol_gen=True, parallel=False)
    elif k in (5, 6):       # a family of radiation tables nobody has
        m.rad_scheme_family = common.pick(rng, ["RRTM", "", "cesm"])
        inst = world.instrument(common.pick(rng, ["KAZR", "HSRL"]))
        case.raises("reject", ValueError, make_simulated_data, m, world.coarsen(inst, 16), 4, use_rad_logic=k == 5,
                    mie_for_ice=False, parallel=False)
    elif k == 7:            # reflectivity is for radars
        m = make_simulated_data(m, world.instrument("KAZR"), 4, subcol_gen_only=True, parallel=False)
        p, t, z = (m.ds[v].values for v in ("pres", "tair", "zhgt"))
        case.raises("reject", ValueError, calc_radar_empirical, world.instrument("HSRL"), m, False, p * 100, t - 273.15,
                    z, np.zeros_like(p))
    else:
        m.mcphys_scheme = "nonesuch"
        case.raises("reject", ValueError, make_simulated_data, m, world.coarsen(world.instrument("KAZR"), 16), 4,
                    use_rad_logic=False, parallel=False)


SCENARIOS = dict(generation=generation, calls=calls, finalize=finalize, regional=regional, gen_only=gen_only, parallel=parallel, reject=reject)
