"""C13: particle size distributions."""
import numpy as np
import xarray as xr
from scipy.special import gamma
from scipy.integrate import quad

from emc2.simulator.psd import calc_mu_lambda, calc_and_set_psd_params, calc_velocity_nssl
from .. import world, common, ref

PROPERTY = "C13"
RULE = ("every model family and class with random subcolumn mass and number (incl. zeros): the stored parameters are "
        "integrated numerically and must return number and mass; shape parameter against Martin et al. (1994) or the "
        "fixed value; P3 relations; NSSL fall speeds over sizes and densities; unknown schemes")
REQUIRED = {"moment-number": 3000, "moment-mass": 3000, "no-distribution": 300, "shape": 3000, "nssl": 2000,
            "reject": 4, "quadrature": 50, "p3": 200}
FAMS = ["ModelE", "CESM", "DHARMA", "Multi", "WRF", "NSSL", "CESMnofl", "P3"]


def plan(tier):
    n = 48 if tier == "quick" else 800
    return [("moments", n), ("martin", n // 4), ("p3", n // 4), ("nssl", n // 2), ("reject", 6)]


def psd_of(case, m, h, **kw):
    r = calc_and_set_psd_params(m, h, **kw)
    get = lambda k: (r[k].transpose("subcolumn", m.time_dim, m.height_dim) if "subcolumn" in r[k].dims
                     else r[k].transpose(m.time_dim, m.height_dim)).values
    return get("N_0"), get("lambda"), get("mu")


def moments(case, martin=False):
    rng = case.rng
    fam = FAMS[case.index % len(FAMS)] if not martin else ["CESM", "WRF", "CESMnofl"][case.index % 3]
    N, T, H = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 12))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, fam, N, T, H, process_conv=False)
    m = world.put_subcolumns(m, rng, N)
    for h in m.hyd_types:                            # traces of condensate still have a distribution
        q = m.ds[f"strat_q_subcolumns_{h}"]
        q.values[rng.uniform(size=q.shape) < 0.1] *= 10 ** rng.uniform(-12, -3)
    cloud = "strat"
    if not martin and rng.uniform() < 0.35:          # convective distributions (given their number) follow the same moments
        cloud = "conv"
        for h in m.hyd_types:
            for v in "qn":
                a = m.ds[f"strat_{v}_subcolumns_{h}"]
                m.ds[f"conv_{v}_subcolumns_{h}"] = (a.dims, np.roll(a.values, 1, axis=0) * (3. if v == "q" else .2))
    before = common.snapshot(m.ds)
    for h in m.hyd_types:
        if fam == "P3" and h == "ci":
            continue
        kw = {"is_conv": True} if cloud == "conv" else {}
        cd = None
        if not martin:
            # explicit or implied: everything but Martin's relation, which has its own scenario
            cd = False if (m.model_name not in ("ModelE", "DHARMA") or rng.uniform() < 0.5) else None
            if cd is not None:
                kw["calc_dispersion"] = cd
        elif rng.uniform() < 0.5:
            cd = kw["calc_dispersion"] = True
        b = (2, 15)
        if martin and rng.uniform() < 0.5:
            b = kw["dispersion_mu_bounds"] = (float(rng.uniform(0, 4)), float(rng.uniform(6, 20)))
        N0, lam, mu = psd_of(case, m, h, **kw)
        q, n = (m.ds[f"{cloud}_{v}_subcolumns_{h}"].values for v in "qn")
        ok = (q > 0) & (n > 0)
        what = f"{fam} {h} {kw}"
        num = N0 * gamma(mu + 1) / lam ** (mu + 1)
        mass = np.pi / 6 * ref.density(m, h) * N0 * gamma(mu + 4) / lam ** (mu + 4)
        case.equal("moment-number", num, n * 1e6, rtol=1e-8, where=ok, what=what + " number")
        case.equal("moment-mass", mass, q, rtol=1e-8, where=ok, what=what + " mass")
        bad = ~(q > 0)
        case.see("no-distribution", bad.sum())
        if np.isfinite(lam[bad]).any() or np.isfinite(N0[bad]).any():
            case.fail("no-distribution", f"{what}: a distribution exists where there is no mass")
        e = ref.psd(m, h, cd, b, cloud)[2]
        known = ref.psd(m, h, cd, b, cloud, n_scale=1e-6)[2]
        if martin and h == "cl" and not np.allclose(mu[ok], e[ok]) and np.allclose(mu[ok], known[ok], rtol=1e-10):
            case.see("shape", ok.sum())
            case.fail("shape", f"{what}: Martin et al. dispersion evaluated with the droplet number scaled by 1e-6",
                      key="martin-number-scaled")
        else:
            case.equal("shape", mu, e, rtol=1e-10, where=ok, what=what + " shape")
        for i in rng.choice(np.argwhere(ok), 2) if ok.any() else []:
            i = tuple(i)
            D = np.linspace(0, 60 / lam[i], 20001)
            nd = N0[i] * D ** mu[i] * np.exp(-lam[i] * D)
            case.equal("quadrature", np.trapz(nd, x=D), n[i] * 1e6, rtol=1e-3, what=what + " number by quadrature")
            rho = ref.density(m, h)
            rho = rho if np.ndim(rho) == 0 else rho[i[1:]]
            case.equal("quadrature", np.trapz(nd * np.pi / 6 * rho * D ** 3, x=D), q[i], rtol=1e-3,
                       what=what + " mass by quadrature")
        case.state(fam, h, cloud, m.mcphys_scheme, "martin" if martin and h == "cl" else "")
    common.inputs_untouched(case, before, m.ds, "psd")


def martin(case):
    moments(case, True)


def p3(case):
    from emc2.core.model import E3SMv3
    rng = case.rng
    T, H, N = int(rng.integers(1, 5)), int(rng.integers(2, 12)), int(rng.integers(1, 6))
    N, T, H = common.stretch(case, N, T, H)
    m = world.make_model(rng, "P3", N, T, H, process_conv=False)
    m = world.put_subcolumns(m, rng, N)
    e = [common.fld(m, k) for k in ("in_cld_Ni", "N0_norm_ice", "lambda_ice", "mu_ice")]
    N0, lam, mu = psd_of(case, m, "ci")
    case.equal("p3", N0, e[0] * e[1], rtol=1e-12, what="P3 ice intercept")
    case.equal("p3", lam, e[2], rtol=0, what="P3 ice slope")
    case.equal("p3", mu, e[3], rtol=0, what="P3 ice shape")
    # relation of shape and normalised intercept to slope
    l2 = 10 ** rng.uniform(2, 6, size=(T, H))
    d = xr.Dataset({"lambda_ice": (("time", "height"), l2)})

    class Stub:
        ds = d
    try:
        out = E3SMv3.calc_mu_n0_from_lambda(Stub, l2)
    except TypeError:
        out = E3SMv3.calc_mu_n0_from_lambda(l2)
    if isinstance(out, tuple) and len(out) == 2:
        mu_e = np.clip(0.076 * (l2 / 100) ** 0.8 - 2, 0, 6)
        case.equal("p3", out[0], mu_e, rtol=1e-10, what="P3 shape relation")
        case.equal("p3", out[1], l2 ** (mu_e + 1) / gamma(mu_e + 1), rtol=1e-8, what="P3 intercept relation")


def nssl(case):
    rng = case.rng
    D = 10 ** rng.uniform(-6, -1.5, size=int(rng.integers(1, 200)))
    for h in ("cl", "pl", "gr", "ha", "sn", "ci", "PL", "GR"):
        rho = float(rng.choice([100., 300., 500., 799., 799.5, 801., 900., rng.uniform(50, 950)]))
        d0 = D.copy()
        v = calc_velocity_nssl(D, rho, h)
        case.equal("nssl", v, ref.nssl_speed(D, rho, h.lower()), rtol=1e-10, what=f"NSSL {h} rho={rho}")
        case.check((D == d0).all(), "inputs-untouched", "sizes modified")
        case.state("nssl", h)
    rr = rng.uniform(100, 950, size=D.size)
    for h in ("gr", "ha"):
        case.equal("nssl", calc_velocity_nssl(D, rr, h), np.array([ref.nssl_speed(d, r, h) for d, r in zip(D, rr)]),
                   rtol=1e-10, what=f"NSSL {h}, array of densities")


def reject(case):
    m = world.make_model(case.rng, "ModelE", 4, 2, 4, process_conv=False)
    m = world.put_subcolumns(m, case.rng, 4)
    m.mcphys_scheme = ["Thompson", "kessler"][case.index % 2]
    for h in ("cl", "pl", "ci", "pi"):
        case.raises("reject", ValueError, calc_and_set_psd_params, m, h)


SCENARIOS = dict(moments=moments, martin=martin, p3=p3, nssl=nssl, reject=reject)
