"""C26: what the outputs say about themselves (units, names, datum, method, database, legends)."""
import copy
import re

import numpy as np

from emc2.simulator.attenuation import calc_radar_atm_attenuation, calc_radar_Ze_min
from emc2.simulator.classification import (lidar_classify_phase, lidar_emulate_cosp_phase, radar_classify_phase,
                                           calculate_phase_ratio)
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta, calc_LDR_and_ext
from emc2.simulator.main import make_simulated_data
from emc2.simulator.radar_moments import calc_radar_moments, calc_total_reflectivity
from .. import world, common

PROPERTY = "C26"
RULE = ("every output of real runs (one-call and stage by stage, radar and lidar, bulk / microphysics / empirical, "
        "every family, both datums, re-runs of the same model with other options) is read back with its attributes; "
        "the method and scattering database a label names are compared with the table that demonstrably feeds the "
        "output (the run is repeated with every table scaled by a distinct factor), the datum with the end at which "
        "the profile starts, units with the dimension of the quantity; distinct states are (family, instrument, "
        "method, database) combinations")
REQUIRED = {"units": 3000, "names": 3000, "datum": 300, "method": 500, "database": 300, "legend": 40,
            "phase-ratio-label": 20, "input-attrs": 500, "subcolumn-method": 300}


def preload(tier):
    for r in world.LIDARS + world.RADARS:
        world._instrument(r)


def plan(tier):
    n = 24 if tier == "quick" else 300
    return [("stages", 2 * n), ("onecall", n), ("tables", 3 * n), ("masks", n)]


# -- units ---------------------------------------------------------------------------------------------------------
BASE = {"m": ("m", 1.), "km": ("m", 1e3), "cm": ("m", 1e-2), "um": ("m", 1e-6), "s": ("s", 1.), "kg": ("kg", 1.),
        "g": ("kg", 1e-3), "sr": ("sr", 1.), "db": ("db", 1.), "dbz": ("dbz", 1.), "hz": ("s^-1", 1.)}
WORDS = {"meter": "m", "metre": "m", "meters": "m", "second": "s", "dimensionless": "1", "unitless": "1",
         "steradian": "sr"}


def parse(u):
    """Units text -> (scale, {base: exponent}); None if it is not a unit expression."""
    s = str(u).replace("$", "").replace("\\ ", " ").replace("~", " ").replace("\\,", " ").replace("**", "^")
    s = re.sub(r"\\(?:mathrm|rm|text)\b", " ", s)
    s = re.sub(r"\^\s*\{\s*\(?\s*([-+]?\d+)\s*\)?\s*\}", r"^\1", s)
    s = s.replace("{", " ").replace("}", " ").replace("*", " ").replace("·", " ")
    dims, scale, sign = {}, 1., 1
    for tok in re.findall(r"/|[^\s/]+", s):
        if tok == "/":
            sign = -1
            continue
        mm = re.fullmatch(r"([A-Za-z]+)\^?([-+]?\d+)?", tok)
        if not mm:
            if re.fullmatch(r"1", tok):
                continue
            return None
        name, e = WORDS.get(mm[1].lower(), mm[1].lower()), sign * int(mm[2] or 1)
        sign = 1
        if name == "1":
            continue
        if name not in BASE:
            return None
        b, f = BASE[name]
        scale *= f ** e
        if b:
            dims[b] = dims.get(b, 0) + e
    return scale, {k: v for k, v in dims.items() if v}


KIND = [   # (output name pattern, quantity words, dimension, whether a solid angle may be written)
    (r"sub_col_Ze_att_.*", ["reflectivity"], "dBZ"),
    (r"sub_col_Ze_.*", ["reflectivity"], "dBZ"),
    (r"Ze_min", ["reflectivity"], "dBZ"),
    (r"sub_col_Vd_.*", ["doppler", "velocity"], "m s-1"),
    (r"sub_col_sigma_d_.*", ["width"], "m s-1"),
    (r"hyd_ext_.*", ["transmittance"], "1"),
    (r"atm_ext", ["transmittance"], "1"),
    (r"kappa_o2", ["attenuation", "o2|oxygen"], "dB km-1"), (r"kappa_wv", ["attenuation", "vapou?r|h2o"], "dB km-1"),
    (r"kappa_att", ["attenuation", "o2|oxygen", "vapou?r|h2o"], "dB km-1"),
    (r"sub_col_beta_(p|att)_.*", ["backscatter"], "m-1"),
    (r"sub_col_alpha_p_.*", ["extinction"], "m-1"),
    (r"sub_col_OD_.*", ["optical depth|optical thickness"], "1"),
    (r"sub_col_LDR_.*", ["depolari"], "1"),
    (r"COSP_ATB.*", ["atb|attenuated"], "m-1"),
    (r"COSP_SR_.*", ["scattering ratio"], "1"),
    (r"tau", ["transmittance"], "1"), (r"u_atm", ["optical depth"], "1"), (r"n_s", ["refractive"], "1"),
    (r"N_s", ["number density"], "m-3"), (r"kappa", ["extinction"], "m2 kg-1"),
    (r"sigma_180", ["backscatter"], "m2"), (r"sigma", ["scattering"], "m2"), (r"sigma_180_vol", ["backscatter"], "m-1"),
    (r"beta", ["extinction"], "m-1"), (r"lambda", ["slope"], "m-1"), (r"mu", ["shape"], "1"),
    (r"(strat|conv)_q_subcolumns_.*", [], "kg kg-1"), (r"strat_n_subcolumns_.*", [], "cm-3"),
]
MASKS = [r"(strat|conv)_frac_subcolumns_.*", r"detect_mask", r"ext_mask", r".*phase_mask.*(?<!_fpr)(?<!_mpr)(?<!_sum)"]


def text(da, key):
    return str(da.attrs.get(key, "")).lower()


def judge_units(case, m, names, what):
    seen = 0
    for k in names:
        for pat, words, unit in KIND:
            if re.fullmatch(pat, k):
                a = m.ds[k].attrs
                case.see("units")
                got, want = parse(a.get("units", "missing")), parse(unit)
                sr = 0
                if got is not None:      # a backscatter may be written per steradian, nothing else
                    sr = got[1].pop("sr", 0)
                if sr not in ((0, -1) if "backscatter" in words or k.startswith("COSP_ATB") else (0,)):
                    case.fail("units", f"{what}: {k} says its units are {a.get('units')!r}")
                if got is None or got[1] != want[1] or not np.isclose(got[0], want[0]):
                    case.fail("units", f"{what}: {k} says its units are {a.get('units')!r}; the quantity is in {unit}")
                case.see("names")
                ln = text(m.ds[k], "long_name")
                for w in words:
                    if not re.search(w, ln):
                        case.fail("names", f"{what}: {k} is called {ln!r}, which does not mention {w!r}")
                seen += 1
                break
    return seen


# -- names ---------------------------------------------------------------------------------------------------------
def judge_names(case, m, names, hyds, what):
    allh = {"cl", "ci", "pl", "pi", "pir", "pid", "pif", "sn", "gr", "ha"}
    for k in names:
        mm = re.fullmatch(r"sub_col_(Ze|Vd|sigma_d|beta_p|alpha_p|OD|LDR|Ze_att|beta_att)_(?:(.+)_)?(strat|conv)", k)
        ln = text(m.ds[k], "long_name")
        if mm:
            case.see("names")
            want, other = ("stratiform|strat", "convective|conv") if mm[3] == "strat" else \
                ("convective|conv", "stratiform|strat")
            if not re.search(r"\b(%s)\b" % want, ln) or re.search(r"\b(%s)\b" % other, ln):
                case.fail("names", f"{what}: {k} is called {ln!r} (cloud type)")
            named = set(re.findall(r"[a-z]+", ln)) & allh
            if mm[2] in allh and named != {mm[2]}:
                case.fail("names", f"{what}: {k} is called {ln!r} (class)")
            if mm[2] in (None, "tot") and named:
                case.fail("names", f"{what}: {k} is called {ln!r}, but is a total over classes")
        mm = re.fullmatch(r"(strat|conv)_frac_subcolumns_(\w+)", k)
        if mm:
            case.see("names")
            liquid = mm[2] in ("cl", "pl")
            if (re.search(r"\bice\b", ln) and liquid) or (re.search(r"\bliquid\b", ln) and not liquid):
                case.fail("names", f"{what}: {k} is called {ln!r} (phase)")
            named = set(re.findall(r"[a-z]+", ln)) & allh
            if named and named != {mm[2]}:
                case.fail("names", f"{what}: {k} is called {ln!r} (class)")
            if ("precip" in ln) != (mm[2] in ("pl", "pi", "pir", "pid", "pif", "sn", "gr", "ha")) and "hydrometeor" not in ln:
                case.fail("names", f"{what}: {k} is called {ln!r} (cloud or precipitation)")
        if re.fullmatch(r"sub_col_(Ze|beta|alpha|OD|Ze_att|beta_att|LDR)(_p)?_tot", k):
            case.see("names")
            if "conv" not in ln or "strat" not in ln:
                case.fail("names", f"{what}: {k} is called {ln!r}; it is the sum of both cloud types")
        if k.startswith("sub_col_") and "att" in k.split("_"):
            case.see("names")
            if "attenuated" not in ln:
                case.fail("names", f"{what}: {k} is called {ln!r} but is attenuated")
        elif re.match(r"sub_col_(Ze|beta)_", k):
            case.see("names")
            if "attenuated" in ln:
                case.fail("names", f"{what}: {k} is called {ln!r} but is not attenuated")
        mm = re.fullmatch(r"(strat|conv)_.*phase_mask.*|.*phase_mask.*_all_hyd", k)
        if mm:
            case.see("names")
            s, c = "strat" in ln, "conv" in ln
            want = dict(strat=(True, False), conv=(False, True)).get(mm[1], (True, True))
            if (s, c) != want:
                case.fail("names", f"{what}: {k} is called {ln!r} (cloud type)")


def judge_datum(case, m, names, sfc, what):
    word, wrong = ("base", "top") if sfc else ("top", "base")
    for k in names:
        if re.fullmatch(r"(sub_col_OD_.*|hyd_ext_.*|atm_ext|ext_mask)", k):
            ln = text(m.ds[k], "long_name")
            case.see("datum")
            if not re.search(r"\b%s\b" % word, ln) or re.search(r"\blayer %s\b" % wrong, ln):
                case.fail("datum", f"{what}: {k} is called {ln!r} although the path starts at the "
                                   f"{'surface' if sfc else 'top'}")
            if k == "ext_mask":
                if ("from surface" in ln) != sfc or ("from toa" in ln) == sfc:
                    case.fail("datum", f"{what}: {k} is called {ln!r} (direction)")
            elif not k.startswith("sub_col_LDR"):
                v = m.ds[k].transpose(..., m.height_dim).values[..., 0 if sfc else -1]
                neutral = 0. if "OD" in k else 1.
                if not np.allclose(v[np.isfinite(v)], neutral):
                    case.fail("datum", f"{what}: {k} is labelled {ln!r} but its path does not start there")


def judge_inputs(case, before, m, what):
    for k, a in before.items():
        case.see("input-attrs")
        if k in m.ds.variables and not same_attrs(dict(m.ds[k].attrs), a):
            case.fail("input-attrs", f"{what}: attributes of input {k} became {m.ds[k].attrs}, were {a}")


def same_attrs(a, b):
    return set(a) == set(b) and all(str(a[k]) == str(b[k]) for k in a)


def attrs_of(m):
    return {k: dict(m.ds[k].attrs) for k in m.ds.variables}


# -- the table that feeds each output --------------------------------------------------------------------------------
FACTOR = {("single", "mie"): 2., ("single", "c6"): 3., ("single", "m-d"): 5., ("single", "p3"): 7.,
          ("bulk", "mie"): 11., ("bulk", "c6"): 13., ("bulk", "m-d"): 17., ("bulk", "p3"): 19.}


def scaled(inst):
    """The instrument with every ice table multiplied by its own factor."""
    i = copy.copy(inst)
    i.mie_table = {k: mul(v, FACTOR["single", "mie"]) if k in ("ci", "pi") else v for k, v in inst.mie_table.items()}
    st, bt = dict(inst.scat_table), dict(inst.bulk_table)
    st["E3_ice"] = mul(st["E3_ice"], FACTOR["single", "c6"])
    st["CESM_ice"] = mul(st["CESM_ice"], FACTOR["single", "m-d"])
    for t in (st, bt):
        if "p3_ice" in t:
            v = mul(t["p3_ice"], FACTOR["single", "p3"], r"(beta_p|alpha_p).*")
            v = mul(v, FACTOR["bulk", "p3"], r"Q_(back|ext)_bulk")
            t["p3_ice"] = mul(v, FACTOR["bulk", "mie"], r"Q_(back|ext)_Mie_bulk")
    for k in bt:
        if k.startswith("mie_ice_") and "P3" not in k:
            bt[k] = mul(bt[k], FACTOR["bulk", "mie"])
    bt["E3_ice"] = mul(bt["E3_ice"], FACTOR["bulk", "c6"])
    bt["CESM_ice"] = mul(bt["CESM_ice"], FACTOR["bulk", "m-d"])
    i.scat_table, i.bulk_table = st, bt
    return i


def mul(ds, f, pat=r"(beta_p|alpha_p|Q_back|Q_ext)"):
    ds = ds.copy()
    for k in ds.data_vars:
        if re.fullmatch(pat, k):
            ds[k] = ds[k] * f
    return ds


def run(inst, m, conv, mode, mie, sfc, hyds=None):
    f = calc_radar_moments if inst.instrument_class.lower() == "radar" else calc_lidar_moments
    return f(inst, m, conv, OD_from_sfc=sfc, hyd_types=hyds, parallel=False, mie_for_ice=mie,
             use_rad_logic=mode != "micro", use_empiric_calc=mode == "emp")


def ratio(a, b, name, k):
    a, b = a.ds[k].values, b.ds[k].values
    with np.errstate(all="ignore"):
        r = 10 ** ((b - a) / 10) if name == "Ze" else b / a
    r = r[np.isfinite(r) & (np.isfinite(a)) & (a != 0 if name != "Ze" else True)]
    if not r.size:
        return None
    return float(np.median(r)) if np.ptp(r) <= 1e-4 * abs(r).max() else np.nan


METHOD = {"bulk": r"bulk|radiation", "single": r"micro", "none": r"empiric"}
DB = {"mie": r"\bmie\b", "c6": r"\bc6\b", "m-d": r"^(?!.*\bp3\b).*m-d", "p3": r"\bp3\b", "none": r"empiric"}


def judge_labels(case, m, k, found, what):
    meth, db = text(m.ds[k], "Processing method"), text(m.ds[k], "Ice scattering database")
    kind, base = found
    case.see("method")
    others = [METHOD[x] for x in METHOD if x != kind]
    if not re.search(METHOD[kind], meth) or any(re.search(o, meth) for o in others):
        case.fail("method", f"{what}: {k} says it was made by {meth!r}, but its values come from "
                            f"{'no scattering table' if kind == 'none' else kind + ' scattering tables'}")
    case.see("database")
    if not re.search(DB[base], db) or any(re.search(DB[x], db) for x in DB if x != base):
        case.fail("database", f"{what}: {k} names ice database {db!r}, but its values come from {base!r}")


def setup(case, mode, fams=None, N=None):
    rng = case.rng
    fams = [f for f in fams or world.FAMILIES if not (f == "NSSL" and mode != "micro") and not (f == "P3" and mode == "emp")]
    fam = common.pick(rng, fams)
    name = common.pick(rng, (world.RADARS if rng.integers(0, 2) else world.LIDARS))
    inst = world.instrument(name)
    if mode == "micro":
        inst = world.coarsen(inst, 16)
    N, T, H = N or int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(3, 7))
    m = world.make_model(rng, fam, N, T, H, process_conv=bool(rng.integers(0, 2)) and fam != "P3",
                         lut_inst=name if fam == "P3" else "KAZR", q_mode="plain",
                         hybrid=int(rng.integers(0, 3)) if fam == "P3" else 0)
    case.info = dict(family=fam, instrument=name, mode=mode, conv=m.process_conv, N=N, T=T, H=H)
    return m, inst, N


def tables(case):
    rng = case.rng
    mode = ["bulk", "micro", "emp", "bulk", "micro"][case.index % 5]
    m, inst, N = setup(case, mode)
    radar = inst.instrument_class.lower() == "radar"
    world.put_subcolumns(m, rng, N, cover=0.8)
    mie, sfc = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    if m.rad_scheme_family == "P3" and m.p3_kws["use_hybrid_scat"]:
        mie = False     # what a sphere-based hybrid should be called is not documented
    before = attrs_of(m)
    history = []
    if rng.uniform() < 0.7:      # the same model was processed in another way before
        omode = common.pick(rng, [x for x in ("bulk", "micro", "emp") if x != mode
                                  and not (m.rad_scheme_family == "P3" and x == "emp")
                                  and not (m.mcphys_scheme.lower() == "nssl" and x != "micro")] or [mode])
        oinst = world.coarsen(inst, 16) if omode == "micro" and mode != "micro" else inst
        p3 = hasattr(m, "interpobj")
        save = {k: dict(v) for k, v in m.interpobj.items()} if p3 else None
        for conv in ([False, True] if m.process_conv else [False]):
            m = run(oinst, m, conv, omode, not mie, not sfc)
        if p3:
            m.interpobj = save
        history = [omode]
    a, b = world.clone(m), world.clone(m)
    convs = [False, True] if m.process_conv and m.mcphys_scheme.lower() != "nssl" else [False]
    for conv in convs:
        a = run(inst, a, conv, mode, mie, sfc)
        b = run(scaled(inst), b, conv, mode, mie, sfc)
    what = f"{case.info['family']} {case.info['instrument']} {mode} mie={mie} after {history}"
    inv = {v: k for k, v in FACTOR.items()}
    hydice = [h for h in m.hyd_types if h not in ("cl", "pl")]
    for conv in convs:
        c = "conv" if conv else "strat"
        found = set()
        for h in hydice:
            for q in (["Ze"] if radar else ["beta_p", "alpha_p"]):
                k = f"sub_col_{q}_{h}_{c}"
                case.get(a.ds, k)
                r = ratio(a, b, q, k)
                if r is None:
                    continue
                if np.isclose(r, 1., rtol=1e-3):
                    f = ("none", "none")
                else:
                    f = next((v for x, v in inv.items() if np.isclose(x, r, rtol=1e-3)), None)
                if f is None:
                    continue       # mixed sources: judged by the value checks of other properties
                found.add(f)
                judge_labels(case, a, k, f, what)
        if len(found) == 1:
            f = found.pop()
            case.state(case.info["family"], case.info["instrument"], *f)
            for k in (["sub_col_Ze_tot_", "sub_col_Ze_att_tot_", "hyd_ext_"] if radar else
                      ["sub_col_beta_p_tot_", "sub_col_alpha_p_tot_", "sub_col_OD_tot_", "sub_col_beta_att_tot_"]):
                judge_labels(case, a, k + c, f, what)
            if not radar:
                for h in m.hyd_types:
                    judge_labels(case, a, f"sub_col_OD_{h}_{c}", f, what)
            if radar and mode == "micro" and not conv:
                for k in ("sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"):   # moments of the same spectrum
                    judge_labels(case, a, k, f, what)
                for h in m.hyd_types:
                    for q in ("Vd", "sigma_d"):
                        k = f"sub_col_{q}_{h}_strat"
                        case.see("method")
                        if not re.search(METHOD["single"], text(a.ds[k], "Processing method")):
                            case.fail("method", f"{what}: {k} says it was made by "
                                                f"{a.ds[k].attrs.get('Processing method')!r}")
    new = [k for k in a.ds.variables if k not in before]
    written = [k for k in new if not re.search("subcolumns", k)]
    if mode != "micro" and history == ["micro"] and radar:   # left from the earlier microphysics run
        written = [k for k in written if not re.match(r"sub_col_(Vd|sigma_d)", k)]
    judge_units(case, a, written, what)
    judge_names(case, a, written, m.hyd_types, what)
    judge_datum(case, a, [k for k in written if re.search("_(%s)$" % "|".join("conv" if c else "strat" for c in convs), k)
                          or k == "atm_ext"], sfc, what)
    judge_inputs(case, before, a, what)
    if radar:
        gas = calc_radar_atm_attenuation(inst, world.clone(m))
        names = [k for k in ("kappa_o2", "kappa_wv", "kappa_att") if k in gas.ds.variables]
        case.check(len(names) == 3, "names", f"{what}: gaseous attenuation offers only {names}")
        judge_units(case, gas, names, what)
        for k, no in (("kappa_o2", "vapou?r|h2o"), ("kappa_wv", "o2\\b|oxygen")):
            if re.search(no, text(gas.ds[k], "long_name").replace("h2o", "") if k == "kappa_wv" else
                         text(gas.ds[k], "long_name")):
                case.fail("names", f"{what}: {k} is called {text(gas.ds[k], 'long_name')!r}")


def finish(case, m, inst, sfc, what, classify=True):
    radar = inst.instrument_class.lower() == "radar"
    if radar:
        m = calc_radar_Ze_min(inst, m, 1000.)
        m = calc_total_reflectivity(m, detect_mask=True)
        if classify:
            m = radar_classify_phase(inst, m)
    else:
        m = calc_total_alpha_beta(m, OD_from_sfc=sfc)
        m = calc_LDR_and_ext(m, OD_from_sfc=sfc)
        if classify and inst.beta_p_phase_thresh:
            m = lidar_classify_phase(inst, m)
        if classify and inst.instrument_str == "HSRL":
            m = lidar_emulate_cosp_phase(inst, m, OD_from_sfc=sfc, output_ATB=True)
    return m


def flags(case, m, what):
    for k, one, zero in (("detect_mask", "1 = radar signal below", "0 = signal detected"),
                         ("ext_mask", "2 = signal extinct", "0 = signal not extinct")):
        if k in m.ds.variables:
            case.see("legend")
            if one not in text(m.ds[k], "units") or zero not in text(m.ds[k], "units"):
                case.fail("legend", f"{what}: {k} explains its values as {m.ds[k].attrs.get('units')!r}")
    for k in m.ds.variables:
        if re.fullmatch(r"(strat|conv)_frac_subcolumns_.*", k) and "units" in m.ds[k].attrs:
            case.see("legend")
            u = text(m.ds[k], "units")
            if re.search(r"0\s*[=:]\s*yes|1\s*[=:]\s*no", u):
                case.fail("legend", f"{what}: {k} explains its values as {u!r}")
    if "detect_mask" in m.ds.variables:
        d = m.ds["detect_mask"].transpose("subcolumn", m.time_dim, m.height_dim).values.astype(int)
        ze = m.ds["sub_col_Ze_att_tot"].transpose("subcolumn", m.time_dim, m.height_dim).values
        zm = m.ds["Ze_min"].transpose(m.time_dim, m.height_dim).values[None]
        with np.errstate(all="ignore"):
            bad = ((d == 1) & (ze > zm)) | ((d == 0) & (ze < zm))
        if bad.any():
            case.fail("legend", f"{what}: detect_mask contradicts its own explanation in {int(bad.sum())} cells")
    if "ext_mask" in m.ds.variables:
        e = m.ds["ext_mask"].values
        if not np.isin(e, [0, 1, 2]).all():
            case.fail("legend", f"{what}: ext_mask holds values its explanation does not list")


def stages(case):
    rng = case.rng
    mode = ["bulk", "micro", "emp"][case.index % 3]
    m, inst, N = setup(case, mode, [f for f in world.FAMILIES if f != "NSSL"])
    world.put_subcolumns(m, rng, N, cover=0.8)
    before = attrs_of(m)
    for step in range(1 + int(rng.uniform() < 0.5)):
        sfc = bool(rng.integers(0, 2))
        mie = bool(rng.integers(0, 2))
        for conv in ([False, True] if m.process_conv else [False]):
            m = run(inst, m, conv, mode, mie, sfc)
        m = finish(case, m, inst, sfc, "")
        what = f"{case.info} step {step} sfc={sfc}"
        new = [k for k in m.ds.variables if k not in before]
        judge_units(case, m, new, what)
        judge_names(case, m, new, m.hyd_types, what)
        judge_datum(case, m, new, sfc, what)
        judge_inputs(case, before, m, what)
        flags(case, m, what)
        if not m.process_conv:
            for k in ("sub_col_beta_p_tot", "sub_col_alpha_p_tot", "sub_col_OD_tot"):
                if k in m.ds.variables and "Processing method" in m.ds[k].attrs:
                    for a in ("Processing method", "Ice scattering database"):
                        case.see("method")
                        if m.ds[k].attrs.get(a) != m.ds[k + "_strat"].attrs.get(a):
                            case.fail("method", f"{what}: {k} and {k}_strat name different {a}")
    case.state(case.info["family"], case.info["instrument"], mode, "stages")


def onecall(case):
    rng = case.rng
    mode = ["bulk", "micro", "emp"][case.index % 3]
    m, inst, N = setup(case, mode, [f for f in world.FAMILIES if f != "NSSL"])
    before = attrs_of(m)
    radar = inst.instrument_class.lower() == "radar"
    kw = dict(parallel=False, use_rad_logic=mode != "micro", use_empiric_calc=mode == "emp")
    sfc = inst.OD_from_sfc
    if rng.integers(0, 2):
        sfc = kw["OD_from_sfc"] = bool(rng.integers(0, 2))
    if rng.integers(0, 2):
        kw["convert_zeros_to_nan"] = True
    if radar and rng.integers(0, 2):
        z = m.ds[m.z_field].values
        kw["mask_height_rng"] = (float(np.quantile(z, 0.2)), float(np.quantile(z, 0.9)))
    m = make_simulated_data(m, inst, N, do_classify=radar or inst.instrument_str == "HSRL", **kw)
    what = f"{case.info} {kw}"
    new = [k for k in m.ds.variables if k not in before]
    judge_units(case, m, new, what)
    judge_names(case, m, new, m.hyd_types, what)
    judge_datum(case, m, new, sfc, what)
    judge_inputs(case, before, m, what)
    flags(case, m, what)
    legends(case, m, inst, what)
    for k in new:
        mm = re.fullmatch(r"(strat|conv)_(frac|q|n)_subcolumns_(.+)", k)
        if mm:
            case.see("subcolumn-method")
            got = text(m.ds[k], "Processing method")
            want, other = ("radiation", "micro") if mode != "micro" else ("micro", "radiation")
            if want not in got or other in got:
                case.fail("subcolumn-method", f"{what}: {k} says it follows {got!r}")
    case.state(case.info["family"], case.info["instrument"], mode, "onecall")


def legends(case, m, inst, what):
    for k in m.ds.variables:
        if "phase_mask" not in k or k.endswith(("_fpr", "_mpr", "_sum")):
            continue
        leg = [str(x).lower() for x in np.atleast_1d(m.ds[k].attrs.get("legend", []))]
        case.see("legend")
        v = m.ds[k].values
        if np.nanmax(np.where(np.isfinite(v), v, 0), initial=0) > len(leg):
            case.fail("legend", f"{what}: {k} holds values beyond its legend {leg}")
        if "COSP" in k:
            ok = len(leg) == 3 and "liq" in leg[0] and "ice" in leg[1] and "undef" in leg[2]
        elif inst.instrument_class.lower() == "radar":
            ok = len(leg) == 3 and "cloud" in leg[0] and "mix" in leg[1] and "precip" in leg[2]
        else:
            ok = all(leg[t["class_ind"] - 1] == t["class"].lower() for t in inst.beta_p_phase_thresh) and \
                len(leg) == len(inst.beta_p_phase_thresh)
        if not ok:
            case.fail("legend", f"{what}: {k} carries legend {leg}")


def masks(case):
    rng = case.rng
    m, inst, N = setup(case, "bulk", [f for f in world.FAMILIES if f != "NSSL"])
    inst = world.instrument(common.pick(rng, ["HSRL", "HSRL", "KAZR", "NEXRAD"]))
    if m.rad_scheme_family == "P3":
        inst = world.instrument("HSRL")
        m = world.make_model(rng, "P3", N, 2, 4, process_conv=False, lut_inst="HSRL", q_mode="plain")
    if inst.instrument_str == "HSRL" and rng.integers(0, 2):     # the threshold list may come in any order
        th = [dict(t) for t in inst.beta_p_phase_thresh]
        inst.beta_p_phase_thresh = [th[i] for i in rng.permutation(len(th))]
    world.put_subcolumns(m, rng, N, cover=0.8)
    sfc = bool(rng.integers(0, 2))
    for conv in ([False, True] if m.process_conv else [False]):
        m = run(inst, m, conv, "bulk", False, sfc)
    m = finish(case, m, inst, sfc, "")
    what = f"{case.info} masks"
    legends(case, m, inst, what)
    names = [k for k in m.ds.variables if "phase_mask" in k]
    k = common.pick(rng, names)
    top = 4 if inst.instrument_str == "HSRL" and "COSP" not in k else 3
    numer = sorted(int(x) for x in rng.choice(np.arange(1, top + 1), size=int(rng.integers(1, 3)), replace=False))
    numer = numer if len(numer) > 1 or rng.integers(0, 2) else numer[0]
    denom = [int(x) for x in range(1, top + 1)] if rng.integers(0, 2) else None
    if not (np.nan_to_num(m.ds[k].values) > 0).any():
        return
    m = calculate_phase_ratio(m, k, numer, mask_allhyd=denom)
    out = case.get(m.ds, k + "_fpr")
    case.see("phase-ratio-label")
    got_n = np.atleast_1d(out.attrs.get("hyd_numer_val", [])).tolist()
    got_d = np.atleast_1d(out.attrs.get("hyd_denom_val", [])).tolist()
    want_d = denom or list(range(1, int(np.nanmax(m.ds[k].values)) + 1))
    if got_n != np.atleast_1d(numer).tolist() or (denom and got_d != want_d) or \
            (not denom and not set(np.unique(np.nan_to_num(m.ds[k].values))) - {0} <= set(got_d)):
        case.fail("phase-ratio-label", f"{what}: {k}_fpr says {got_n} / {got_d}; asked for {numer} / {want_d}")
    ln = text(out, "long_name")
    if "frequency" not in ln or k.lower() not in ln:
        case.fail("phase-ratio-label", f"{what}: {k}_fpr is called {ln!r}")
    for sub in (True, False):
        m = calculate_phase_ratio(m, k, numer, mass_pr=True, mpr_subcolmod=sub)
    for o in (k + "_mpr", k + "_mpr_sum", "mpr_q"):
        case.see("phase-ratio-label")
        if "mass" not in text(case.get(m.ds, o), "long_name") or "frequency" in text(m.ds[o], "long_name"):
            case.fail("phase-ratio-label", f"{what}: {o} is called {text(m.ds[o], 'long_name')!r}")
    case.state("masks", inst.instrument_str, m.rad_scheme_family)


SCENARIOS = dict(stages=stages, onecall=onecall, tables=tables, masks=masks)
