"""C24: refractive indices, drop aspect ratio and Mie scattering properties against independent formulas."""
import numpy as np
import xarray as xr
from scipy.special import spherical_jn, spherical_yn

import emc2
from emc2.scattering import (brandes, calc_microwave_ref_index, calc_microwave_ref_index_ice, scat_properties_ice,
                             scat_properties_water)
from .. import common

PROPERTY = "C24"
RULE = ("the real helpers are run on random wavelengths, temperatures, pressures, densities and size grids (log, linear, "
        "unsorted, single, repeated sizes; arrays, lists, DataArrays); every returned efficiency, cross section and label "
        "is compared with an independent Bohren-Huffman Mie series evaluated at the requested sizes; the shipped Mie tables "
        "are recomputed; distinct states are (phase, grid kind, band) triples")
REQUIRED = {"mie": 20000, "cross-section": 20000, "bounds": 20000, "ref-index": 2000, "brandes": 2000, "labels": 500,
            "rayleigh": 200, "shipped": 3000, "inputs-kept": 100}


def plan(tier):
    n = 4 if tier == "quick" else 20
    return [("water", 250 * n), ("ice", 250 * n), ("index", 40 * n), ("aspect", 20 * n), ("rayleigh", 30 * n), ("shipped", 10),
            ("crosscheck", 20 * n)]


def mie(m, x):
    """Bohren & Huffman: extinction, scattering, radar backscatter efficiencies and asymmetry of a sphere."""
    nmax = int(np.ceil(x + 4.05 * x ** (1 / 3) + 8))
    n = np.arange(1, nmax + 1)
    mx = m * x
    big = int(max(nmax, abs(mx)) + 60)
    D = np.zeros(big + 1, complex)
    for k in range(big, 0, -1):
        D[k - 1] = k / mx - 1 / (D[k] + k / mx)
    D = D[1:nmax + 1]
    psi, psi1 = x * spherical_jn(n, x), x * spherical_jn(n - 1, x)
    xi, xi1 = psi + 1j * x * spherical_yn(n, x), psi1 + 1j * x * spherical_yn(n - 1, x)
    a = ((D / m + n / x) * psi - psi1) / ((D / m + n / x) * xi - xi1)
    b = ((m * D + n / x) * psi - psi1) / ((m * D + n / x) * xi - xi1)
    ext = 2 / x ** 2 * np.sum((2 * n + 1) * (a + b).real)
    sca = 2 / x ** 2 * np.sum((2 * n + 1) * (abs(a) ** 2 + abs(b) ** 2))
    back = abs(np.sum((2 * n + 1) * (-1.) ** n * (a - b))) ** 2 / x ** 2
    g = 4 / x ** 2 / sca * (np.sum((n * (n + 2) / (n + 1))[:-1] * (a[:-1] * a[1:].conj() + b[:-1] * b[1:].conj()).real)
                            + np.sum((2 * n + 1) / (n * (n + 1)) * (a * b.conj()).real))
    return ext, sca, back, g


def water_index(lam_cm, T):
    """Meissner & Wentz (2004) double-Debye fit for pure water."""
    f = 29.9792458 / lam_cm
    es = (3.70886e4 - 82.168 * T) / (421.854 + T)
    e1 = 5.7230 + 2.2379e-2 * T - 7.1237e-4 * T * T
    f1 = (45 + T) / (5.0478 - 7.0315e-2 * T + 6.0059e-4 * T * T)
    ei = 3.6143 + 2.8841e-2 * T
    f2 = (45 + T) / (.13652 + 1.4825e-3 * T + 2.4166e-4 * T * T)
    return np.conj(np.sqrt((es - e1) / (1 + 1j * f / f1) + (e1 - ei) / (1 + 1j * f / f2) + ei))


def ice_index(rho):
    return np.sqrt(1 + 2 * rho + 1j * 8e-4 * (.52 * rho + .62 * rho ** 2))


def grid(case):
    rng = case.rng
    kind = common.pick(rng, ["log", "linear", "unsorted", "single", "repeated", "two"])
    n = int(rng.integers(3, 40))
    lo, hi = sorted(10 ** rng.uniform(0, 4, size=2))
    if kind == "log":
        d = np.geomspace(lo, hi, n)
    elif kind == "linear":
        d = np.linspace(lo, hi, n)
    elif kind == "unsorted":
        d = 10 ** rng.uniform(0, 4, n)
    elif kind == "single":
        d = np.array([hi])
    elif kind == "two":
        d = np.array([hi, lo])
    else:
        d = np.repeat(10 ** rng.uniform(0, 4, n), 2)
    form = common.pick(rng, ["array", "dataarray", "index"])
    arg = d if form == "array" else xr.DataArray(d, dims="index") if form == "dataarray" else \
        xr.DataArray(d, dims="p_diam", coords={"p_diam": d})
    return kind, d, arg


LABEL = {"alpha_p": ("xtinction", "meters^2"), "beta_p": ("ack", "meters^2"), "scat_p": ("cattering", "meters^2"),
         "p_diam": ("iameter", "meters"), "wavelength": ("avelength", "microns"), "ext_eff": ("xtinction", "1"),
         "scat_eff": ("cattering", "1"), "backscat_eff": ("ack", None), "size_parameter": ("ize parameter", "1")}


def compare(case, out, d, m, lam, nmed, monitor="mie", rtol=2e-5):
    g = {k: np.asarray(out[k].values, float) for k in out.variables if out[k].dtype.kind == "f"}
    n = len(d)
    ref = np.array([mie(m / nmed, np.pi * x * 1e-4 / lam * nmed) for x in d])
    x = np.pi * d * 1e-4 / lam
    small = x * nmed <= 0.0501                                  # where the Rayleigh limit may be used
    limits = []
    for nm in (nmed, nmed ** 2):                                # PyMieScatt divides by the medium's index twice there
        K2, xe = (m / nm) ** 2, x * nm
        K2 = (K2 - 1) / (K2 + 2)
        sca = 8 / 3 * xe ** 4 * abs(K2) ** 2
        limits.append(np.stack([4 * xe * K2.imag + sca, sca, 1.5 * sca], axis=1))
    lo, hi = np.minimum(*limits) * .999, np.maximum(*limits) * 1.001
    for j, k in enumerate(("ext_eff", "scat_eff", "backscat_eff")):
        case.see(monitor, n)
        if g[k].shape != (n,):
            case.fail(monitor, f"{k} has shape {g[k].shape} for {n} sizes")
            return
        bad = ~(np.abs(g[k] - ref[:, j]) <= rtol * np.abs(ref[:, j]))
        bad &= ~(small & (g[k] >= lo[:, j]) & (g[k] <= hi[:, j]))
        if j == 2:                                              # nulls of the backscatter are ill conditioned
            bad &= ref[:, 2] > 1e-3 * ref[:, 1]
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            case.fail(monitor, f"{k} of a {d[i]} um sphere (m={m:.5f}, wavelength {lam} cm): {g[k][i]}, Mie theory {ref[i, j]}"
                               f" ({int(bad.sum())} of {n} sizes)")
    big = x > 0.0502
    case.see(monitor, int(big.sum()))
    if (np.abs(g["g"] - ref[:, 3]) > 1e-3)[big].any():
        case.fail(monitor, "asymmetry parameter differs from Mie theory")
    case.equal(monitor, g["qabs"], g["ext_eff"] - g["scat_eff"], rtol=1e-9, atol=1e-14, what="absorption efficiency")
    case.equal(monitor, g["qpr"], g["ext_eff"] - g["g"] * g["scat_eff"], rtol=1e-6, atol=1e-12,
               what="radiation pressure efficiency", where=x > .0502)
    case.equal(monitor, g["qratio"], g["backscat_eff"] / g["scat_eff"], rtol=1e-6, what="backscatter/scattering ratio")
    area = np.pi / 4 * (d * 1e-6) ** 2
    for c, e in (("alpha_p", "ext_eff"), ("scat_p", "scat_eff"), ("beta_p", "backscat_eff")):
        case.equal("cross-section", g[c], g[e] * area, rtol=1e-9, what=f"{c} = {e} x area")
    case.equal("cross-section", g["p_diam"], d * 1e-6, rtol=1e-9, what="stored sizes")
    case.equal("cross-section", g["wavelength"], lam * 1e4, rtol=1e-9, what="stored wavelength")
    case.equal("cross-section", g["size_parameter"], x, rtol=1e-3, what="size parameter")
    case.equal("cross-section", g["compre_real"], m.real, rtol=1e-3, what="stored refractive index (real)")
    case.equal("cross-section", g["compre_im"], m.imag, rtol=1e-3, what="stored refractive index (imaginary)")
    for c in ("alpha_p", "scat_p", "beta_p"):
        case.see("bounds", n)
        if not (g[c] >= 0).all() or not np.isfinite(g[c]).all():
            case.fail("bounds", f"{c} is negative or not finite")
    case.see("bounds", n)
    if not (g["scat_p"] <= g["alpha_p"] * (1 + 1e-9)).all():
        case.fail("bounds", "scattering exceeds extinction")
    case.check(len({out[k].dims for k in LABEL if k in out.variables}) == 1, "labels",
               "properties are not variables along one dimension")
    for k, (word, unit) in LABEL.items():
        a = out[k].attrs
        case.check(word in a.get("long_name", word), "labels", f"{k} is described as {a.get('long_name')!r}")
        case.check(unit is None or a.get("units") in (unit, None), "labels", f"{k} is labelled {a.get('units')!r}")
    case.check("xtinction" not in out["beta_p"].attrs.get("long_name", "") and
               "ack" not in out["alpha_p"].attrs.get("long_name", "") and
               "ack" not in out["scat_p"].attrs.get("long_name", ""), "labels", "cross sections carry each other's label")


def med(p, T):
    return 1 + 1e-6 * 77.6 * p / (T + 273.15)


def water(case):
    rng = case.rng
    lam = 10 ** rng.uniform(-1, 1.3)
    T, p = rng.uniform(-20, 35), rng.uniform(200, 1050)
    kind, d, arg = grid(case)
    d0 = d.copy()
    mode = int(rng.integers(0, 3))
    if mode == 0:
        out, T, p = scat_properties_water(arg, lam), 0., 1013.
    elif mode == 1:
        out, p = scat_properties_water(arg, lam, T), 1013.
    else:
        out = scat_properties_water(arg, lam, temperature=T, pressure=p)
    case.check(np.array_equal(np.asarray(arg), d0), "inputs-kept", "the sizes handed in were modified")
    compare(case, out, d0, water_index(lam, T), lam, med(p, T))
    case.state("water", kind, int(np.log10(lam) * 3), mode)


def ice(case):
    rng = case.rng
    lam = 10 ** rng.uniform(-1, 1.3)
    T, p, rho = rng.uniform(-60, 0), rng.uniform(200, 1050), rng.uniform(.05, .917)
    kind, d, arg = grid(case)
    d0 = d.copy()
    mode = int(rng.integers(0, 3))
    if mode == 0:
        out, T, p, rho = scat_properties_ice(arg, lam), 0., 1013., .5
    elif mode == 1:
        out, p, rho = scat_properties_ice(arg, lam, T), 1013., .5
    else:
        out = scat_properties_ice(arg, lam, temperature=T, pressure=p, rho_d=rho)
    case.check(np.array_equal(np.asarray(arg), d0), "inputs-kept", "the sizes handed in were modified")
    compare(case, out, d0, ice_index(rho), lam, med(p, T))
    case.state("ice", kind, int(np.log10(lam) * 3), mode)


def index(case):
    rng = case.rng
    n = 40
    lam, T, rho = 10 ** rng.uniform(-1, 1.5, n), rng.uniform(-25, 40, n), rng.uniform(.01, .917, n)
    for i in range(n):
        m, e = calc_microwave_ref_index(lam[i], T[i]), water_index(lam[i], T[i])
        case.check(abs(m - e) < 1e-9 * abs(e), "ref-index", f"water at {lam[i]} cm, {T[i]} C: {m}, documented {e}")
        m, e = calc_microwave_ref_index_ice(lam[i], T[i], rho[i]), ice_index(rho[i])
        case.check(abs(m - e) < 1e-9 * abs(e), "ref-index", f"ice of {rho[i]} g cm-3: {m}, documented {e}")
    case.equal("ref-index", np.abs(calc_microwave_ref_index(lam, T) - water_index(lam, T)), 0., atol=1e-9, what="array input")
    case.check(abs(calc_microwave_ref_index(lam[0]) - water_index(lam[0], 0.)) < 1e-9, "ref-index", "default temperature")
    case.check(abs(calc_microwave_ref_index_ice(lam[0]) - ice_index(.5)) < 1e-9, "ref-index", "default density")
    # known values: 10 cm water at 20 C ~ 8.9 + 0.66j (Ray/Liebe), 3.2 cm at 0 C ~ 7.1 + 2.9j
    for l, t, e in ((10., 20., 8.88 + .64j), (3.21, 0., 7.14 + 2.89j)):
        case.check(abs(calc_microwave_ref_index(l, t) - e) < .3, "ref-index", f"water at {l} cm, {t} C")
    case.state("index", case.index % 4)


def aspect(case):
    D = case.rng.uniform(0, 9, size=(int(case.rng.integers(1, 12)), 30))
    e = np.polynomial.polynomial.polyval(D, [.9951, .0251, -.03644, .005303, -.0002492])
    case.equal("brandes", brandes(D), e, rtol=1e-12, what="axis ratio")
    case.equal("brandes", [brandes(float(x)) for x in D[0]], e[0], rtol=1e-12, what="axis ratio of one size")
    case.state("aspect", D.shape)


def rayleigh(case):
    """Small spheres: extinction = 4x Im K + 8/3 x^4 |K|^2, backscatter = 4 x^4 |K|^2."""
    rng = case.rng
    lam = 10 ** rng.uniform(0, 1.3)
    d = np.sort(rng.uniform(1e-4, 3e-3, 12)) * lam * 1e4 / np.pi
    for f, m in ((scat_properties_water, water_index(lam, 0.)), (scat_properties_ice, ice_index(.5))):
        out = f(d, lam)
        x, K = np.pi * d * 1e-4 / lam, (m ** 2 - 1) / (m ** 2 + 2)
        case.equal("rayleigh", out["backscat_eff"].values, 4 * x ** 4 * abs(K) ** 2, rtol=.02, what="Rayleigh backscatter")
        case.equal("rayleigh", out["scat_eff"].values, 8 / 3 * x ** 4 * abs(K) ** 2, rtol=.02, what="Rayleigh scattering")
        case.equal("rayleigh", out["ext_eff"].values, 4 * x * K.imag + 8 / 3 * x ** 4 * abs(K) ** 2, rtol=.02,
                   what="Rayleigh extinction")
    case.state("rayleigh", int(np.log10(lam) * 10))


def shipped(case):
    """The helpers reproduce the shape of the liquid tables of every radar."""
    name = ["KAZR", "WACR", "XSACR", "CSAPR", "NEXRAD"][case.index // 2]
    cls = getattr(emc2.core.instruments, name)
    inst = cls("sgp") if name in ("KAZR", "WACR") else cls()
    liq = case.index % 2 == 0
    t = inst.mie_table["cl" if liq else "ci"]
    f = scat_properties_water if liq else scat_properties_ice
    out = f(t["p_diam"] * 1e6, inst.wavelength * 1e-4, -20. if liq else 0., **({} if liq else {"rho_d": .55}))
    for k in ("alpha_p", "beta_p", "scat_p"):
        a, b = out[k].values, t[k].values
        case.see("shipped", a.size)
        case.check(a.shape == b.shape and np.corrcoef(a, b)[0, 1] > .9, "shipped",
                   f"{name} {'liquid' if liq else 'ice'}: {k} does not follow the shipped table")
    case.state("shipped", name, liq)


def crosscheck(case):
    """The result for a size depends on nothing but that size."""
    rng = case.rng
    d = 10 ** rng.uniform(0.5, 4, 12)
    lam = 10 ** rng.uniform(-.5, 1)
    f = scat_properties_water if case.index % 2 else scat_properties_ice
    a = f(d, lam, -5.)
    perm = rng.permutation(12)
    b, c = f(d[perm], lam, -5.), f(d[:1], lam, -5.)
    for k in ("alpha_p", "beta_p", "scat_p", "p_diam", "ext_eff"):
        case.equal("mie", b[k].values, a[k].values[perm], rtol=1e-12, what=f"{k} of permuted sizes")
        case.equal("mie", c[k].values, a[k].values[:1], rtol=1e-12, what=f"{k} of one size")
    case.state("cross", case.index % 2)


SCENARIOS = dict(water=water, ice=ice, index=index, aspect=aspect, rayleigh=rayleigh, shipped=shipped, crosscheck=crosscheck)
