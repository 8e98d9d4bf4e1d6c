"""C21 - physics: units, compounds, emission lines, materials, beam profiles, propagation filters."""
import matplotlib

matplotlib.use("Agg")
import contextlib
import copy
import io

import matplotlib.pyplot as plt
import numpy as np
import xraylib as xl

from corrct import physics as ph
from corrct.physics import attenuation, materials, phase, units, xraylib_helper, xrf
from rtm.core import Check

check = Check(
    "C21",
    "Random energies, wavelengths and units, random compounds (formulas and NIST names, given or default densities), elements, lines and shells, random material volumes (2D and 3D), detectors, "
    "beam profiles and propagation filters (odd/even shapes, stacks). Oracles: CODATA constants, elemental xraylib data, linear superposition, direct integration, explicit Fourier filters.",
    scale=(10, 1),
)
FORMULAS = ["H2O", "CaCO3", "Fe2O3", "SiO2", "CaO", "Fe", "Al2O3", "C5H8O2", "PbSO4", "NaCl", "Cu", "ZnS"]
NIST = ["Ferric Oxide", "Calcium Oxide", "Calcium Carbonate", "Water, Liquid", "Air, Dry (near sea level)", "Silicon Dioxide"]
SYMBOLS = ["Na", "Si", "Ca", "Fe", "Cu", "Zn", "Pb", "Au", "Ba", "W"]


def fails(fun, exc=ValueError):
    try:
        fun()
    except exc:
        return True
    return False


def quiet(fun, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fun(*a, **k)
    return r, out.getvalue()


@check.family("units", 40, 800, ["wavelength", "energy", "inverse", "factors", "form"])
def unit_conversion(c):
    rng = c.rng
    h, e, cc = 6.62607015e-34, 1.602176634e-19, 299792458.0
    ul = {"km": 1e3, "m": 1.0, "cm": 1e-2, "mm": 1e-3, "um": 1e-6, "nm": 1e-9, "a": 1e-10}
    ue = {"GeV": 1e9, "MeV": 1e6, "keV": 1e3, "eV": 1.0, "meV": 1e-3, "ueV": 1e-6}
    wl, en = str(rng.choice(list(ul))), str(rng.choice(list(ue)))
    arr = bool(rng.random() < 0.5)
    E = 10 ** rng.uniform(-2, 3, 4 if arr else None)
    E = E if arr else float(E)
    c.describe(length=wl, energy=en, array=arr)
    w = ph.convert_energy_to_wlength(E, wl, en)
    c.close(w, h * cc / (np.array(E) * ue[en] * e) / ul[wl], "wavelength", "wavelength of an energy", rtol=1e-7)
    c.close(ph.convert_wlength_to_energy(E, wl, en), h * cc / (np.array(E) * ul[wl]) / e / ue[en], "energy", "energy of a wavelength", rtol=1e-7)
    c.close(ph.convert_wlength_to_energy(w, wl, en), E, "inverse", "energy -> wavelength -> energy", rtol=1e-10)
    c.close(units.energy_to_wlength(E), h * cc / (np.array(E) * 1e3 * e), "wavelength", "default units", rtol=1e-7)
    c.expect(np.ndim(w) == np.ndim(E), "form", f"{np.ndim(w)} dimensions")
    a, b, d = (str(x) for x in rng.choice(list(ul), 3))
    C = units.ConversionMetric.convert
    c.close(C(a, b), ul[a] / ul[b], "factors", f"{a} to {b}", rtol=1e-10)
    c.close(C(a, b) * C(b, d), C(a, d), "factors", "composition", rtol=1e-10)
    a, b = (str(x) for x in rng.choice(list(ue), 2))
    c.close(units.ConversionEnergy.convert(a, b), ue[a] / ue[b], "factors", f"{a} to {b}", rtol=1e-10)
    for K in (units.ConversionMetric, units.ConversionEnergy):
        c.expect({v: k for k, v in K.str_to_order.items()} == K.order_to_str, "factors", "tables of orders")


def compound(c):
    rng = c.rng
    if rng.random() < 0.7:
        return str(rng.choice(FORMULAS))
    return str(rng.choice(NIST))


def cross_section(cmp, E):
    return sum(f * xl.CS_Total(el, E) for el, f in zip(cmp["Elements"], cmp["massFractions"]))


@check.family("compounds", 40, 800, ["elements", "density", "cross-section", "coefficient", "untouched", "fallback", "numbers"])
def compounds(c):
    rng = c.rng
    name = compound(c)
    dens = None if rng.random() < 0.5 else float(rng.uniform(0.5, 12))
    E = float(rng.uniform(3, 80))
    pix = float(rng.uniform(0.1, 50))
    c.describe(name=name, density=dens, energy=E)
    cmp = ph.get_compound(name) if dens is None else ph.get_compound(name, dens)
    try:
        ref = xl.CompoundParser(name)
    except ValueError:
        ref = xl.GetCompoundDataNISTByName(name)
    c.expect(tuple(cmp["Elements"]) == tuple(ref["Elements"]) and cmp["name"] == name, "elements", f"{cmp}")
    c.close(cmp["massFractions"], ref["massFractions"], "elements", "mass fractions", rtol=1e-10)
    c.expect(ph.get_compound(name, 0.0)["density"] == 0.0, "density", "vanishing density")
    exp = dens if dens is not None else sum(xl.ElementDensity(el) * f for el, f in zip(ref["Elements"], ref["massFractions"]))
    c.close(cmp["density"], exp, "density", "density", rtol=1e-10)
    cs = xraylib_helper.get_compound_cross_section(cmp, E)
    c.close(cs, cross_section(cmp, E), "cross-section", "cross section", rtol=1e-3)
    other = dict(cmp, name="??" + name)
    c.close(xraylib_helper.get_compound_cross_section(other, E), cross_section(cmp, E), "fallback", "cross section of a custom mixture", rtol=1e-6)
    keep = copy.deepcopy(cmp)
    arg = name if dens is None and rng.random() < 0.5 else cmp
    L = attenuation.get_linear_attenuation_coefficient
    c.close(L(arg, E, pix), pix * 1e-4 * exp * cs, "coefficient", "attenuation per pixel", rtol=1e-6)
    d2 = float(rng.uniform(0.5, 12))
    c.close(L(arg, E, pix, density=d2), pix * 1e-4 * d2 * cs, "coefficient", "attenuation per pixel at another density", rtol=1e-6)
    c.close(L(arg, E, pix), pix * 1e-4 * exp * cs, "untouched", "attenuation after one at another density", rtol=1e-6)
    c.expect(cmp == keep, "untouched", f"compound: {cmp}")
    d3 = float(rng.uniform(0.5, 12)) if rng.random() < 0.5 else None
    n = xl.Refractive_Index(name, E, exp if d3 is None else d3) if d3 or dens is None else None
    if n is not None:
        db = phase.get_delta_beta(name, E) if d3 is None else phase.get_delta_beta(name, E, density=d3)
        c.close(db, (1 - n.real) / n.imag, "coefficient", "delta over beta", rtol=1e-6)
    s = str(rng.choice(SYMBOLS))
    z = xl.SymbolToAtomicNumber(s)
    c.expect(ph.get_element_number(s) == z and ph.get_element_number(z) == z, "numbers", s)
    c.expect(xraylib_helper.get_element_number_and_symbol(s) == (s, z) == xraylib_helper.get_element_number_and_symbol(z), "numbers", s)


@check.family("lines", 60, 1200, ["selection", "energies", "rates", "average", "forms", "refused"])
def lines(c):
    rng = c.rng
    all_names = [f.name for f in ph.FluoLinesSiegbahn.lines]
    c.expect(len(set(all_names)) == len(all_names), "selection", "repeated lines")
    for f in ph.FluoLinesSiegbahn.lines:
        c.expect(f.indx == getattr(xl, f.name + "_LINE"), "selection", f"{f}")
    q = str(rng.choice(["K", "L", "M", "KA", "KB", "LA", "LB", "LG", "MA", *all_names]))
    ask = q.lower() if rng.random() < 0.3 else q
    sel = ph.FluoLinesSiegbahn.get_lines(ask)
    want = [n for n in all_names if n.startswith(q)] if q not in all_names else [q]
    c.expect([f.name for f in sel] == want, "selection", f"lines of {ask}: {[f.name for f in sel]}")
    odd = str(rng.choice(["A", "B", "A1", "B1", "G", "X", "1", "N", "KC", "LX", "KA9"]))
    c.expect(len(ph.FluoLinesSiegbahn.get_lines(odd)) == 0, "selection", f"lines of {odd}")
    s = str(rng.choice(SYMBOLS))
    el = s if rng.random() < 0.5 else xl.SymbolToAtomicNumber(s)
    z = xl.SymbolToAtomicNumber(s)
    c.describe(lines=ask, element=el)

    def get(f, n):
        try:
            return f(z, getattr(xl, n + "_LINE"))
        except ValueError:
            return 0.0

    en, ra = np.array([get(xl.LineEnergy, n) for n in want]), np.array([get(xl.RadRate, n) for n in want])
    form = [ask, sel, tuple(sel)][int(rng.integers(3))]
    v = bool(rng.random() < 0.2)
    got = quiet(xrf.get_energy, el, form, verbose=v)[0]
    c.close(got, en, "energies", "energies of the lines", rtol=1e-6)
    c.close(quiet(xrf.get_radiation_rate, el, form, verbose=v)[0], ra, "rates", "radiation rates", rtol=1e-6)
    if ra.sum() > 0:
        av = quiet(xrf.get_energy, el, form, compute_average=True, verbose=v)[0]
        c.close(av, (en * ra).sum() / ra.sum(), "average", "average energy", rtol=1e-5)
        c.expect(type(av) is float, "average", f"{type(av)}")
        use = en[ra > 0]
        c.expect(use.min() * (1 - 1e-6) <= av <= use.max() * (1 + 1e-6), "average", f"{av} out of {use}")
    c.monitors["average"] += 1
    i = int(rng.integers(len(sel)))
    c.close(xrf.get_energy(el, sel[i]), [en[i]], "forms", "energy of a single line", rtol=1e-6)
    c.close(xrf.get_radiation_rate(el, sel[i]), [ra[i]], "forms", "rate of a single line", rtol=1e-6)
    c.expect(fails(lambda: xrf.get_energy(el, [])) and fails(lambda: xrf.get_radiation_rate(el, [])), "refused", "no lines")


@check.family("detector", 40, 800, ["solid-angle", "range", "array", "parallax", "refused"])
def detector(c):
    rng = c.rng
    S, D = float(rng.uniform(0, 50)), float(rng.uniform(5, 100))
    c.describe(surface=S, distance=D)
    a = float(rng.uniform(0.2, 3))
    d = xrf.DetectorXRF(S, D, a)
    c.close(d.solid_angle_sr, S / (4 * np.pi * D**2), "solid-angle", "covered fraction", rtol=1e-10)
    k = float(rng.uniform(1.2, 3))
    c.close(xrf.DetectorXRF(S, D * k, a).solid_angle_sr * k**2, d.solid_angle_sr, "solid-angle", "inverse square law", rtol=1e-10)
    lo, hi = d.angle_range_rad
    c.close([lo, hi], [-np.arctan(np.sqrt(S) / 2 / D), np.arctan(np.sqrt(S) / 2 / D)], "range", "angles", rtol=1e-10, atol=1e-15)
    arr = D + rng.uniform(0, 3, 4)
    try:
        m = xrf.DetectorXRF(S, arr.copy(), a)
        c.close(m.solid_angle_sr, [xrf.DetectorXRF(S, float(x), a).solid_angle_sr for x in arr], "array", "covered fractions of several distances", rtol=1e-10)
        c.close(m.angle_range_rad[1], [xrf.DetectorXRF(S, float(x), a).angle_range_rad[1] for x in arr], "array", "angles", rtol=1e-10)
    except ValueError as exc:
        c.violate("array", f"several distances: {exc}")
    c.expect(fails(lambda: xrf.DetectorXRF(-1.0 - S, D)) and fails(lambda: xrf.DetectorXRF(S, 0.0)) and fails(lambda: xrf.DetectorXRF(S, -D)), "refused", "invalid detector")
    bad = arr.copy()
    bad[int(rng.integers(4))] = -1.0
    c.expect(fails(lambda: xrf.DetectorXRF(S, bad)), "refused", "a negative distance")
    # parallax warning: variation of the covered fraction over the sample
    n = int(rng.integers(3, 20))
    vox = 10 ** float(rng.uniform(-4, -0.5))
    half = n * vox / 2 * 10
    if half < D * 0.9:
        f = xrf.DetectorXRF(S, D - half).solid_angle_sr - xrf.DetectorXRF(S, D + half).solid_angle_sr
        if abs(f - 1e-2) > 1e-4:
            vol = materials.VolumeMaterial([np.ones((n, n), np.float32)], ["Fe"], vox)
            out = quiet(vol.get_fluo_production, "Fe", 20.0, "KA", detector=d if rng.random() < 0.5 else xrf.DetectorXRF(S, max(1, D)))[1]
            c.expect(("parallax" in out) == (f >= 1e-2), "parallax", f"variation of the covered fraction {f}: {out!r}")
    # ... of the given distances, when each voxel has its own
    far = xrf.DetectorXRF(S, D * rng.uniform(1.0, 2.0, (n, n)))
    f = float(np.ptp(far.solid_angle_sr))
    if abs(f - 1e-2) > 1e-4:
        vol = materials.VolumeMaterial([np.ones((n, n), np.float32)], ["Fe"], vox)
        out = quiet(vol.get_fluo_production, "Fe", 20.0, "KA", detector=far)[1]
        c.expect(("parallax" in out) == (f >= 1e-2), "parallax", f"difference of the covered fractions {f}: {out!r}")
    c.monitors["parallax"] += 1


@check.family("material", 60, 1200, ["attenuation", "phase", "mass-fraction", "fluorescence", "compton", "superposition", "detector", "untouched", "refused"])
def material(c):
    rng = c.rng
    nd = int(rng.integers(2, 4))
    shape = tuple(int(x) for x in rng.integers(1, 6, nd))
    n = int(rng.integers(1, 4))
    mode = int(rng.integers(3))
    fr = [rng.random(shape) < 0.5 if mode == 0 else rng.random(shape).astype([np.float32, np.float64][mode - 1]) for _ in range(n)]
    names = [compound(c) for _ in range(n)]
    dens = [None if rng.random() < 0.6 else float(rng.uniform(0.5, 9)) for _ in range(n)]
    comp = [nm if d is None and rng.random() < 0.6 else ph.get_compound(nm, d) for nm, d in zip(names, dens)]
    cmps = [ph.get_compound(x) if isinstance(x, str) else copy.deepcopy(x) for x in comp]
    for m, k in zip(comp, cmps):
        if not isinstance(m, str) and rng.random() < 0.4:  # the elements of a custom mixture come in any order
            order = rng.permutation(len(m["Elements"]))
            for q in (m, k):
                q["Elements"] = [q["Elements"][i] for i in order]
                q["massFractions"] = [q["massFractions"][i] for i in order]
            c.event("reordered-mixture")
    vox = 10 ** float(rng.uniform(-5, -1))
    E = float(rng.uniform(8, 60))
    dt = None if rng.random() < 0.6 else [np.float32, np.float64][int(rng.integers(2))]
    c.describe(shape=shape, materials=names, energy=E, voxel=vox, fractions=str(fr[0].dtype), dtype=str(dt))
    keep = [f.copy() for f in fr], copy.deepcopy(comp)
    kw = {} if dt is None else dict(dtype=dt)
    vol, _ = quiet(ph.VolumeMaterial, fr if rng.random() < 0.5 else tuple(fr), comp, vox, verbose=bool(rng.random() < 0.2), **kw)
    exp_dt = np.dtype(dt or (np.float32 if mode == 0 else fr[0].dtype))
    F = [f.astype(float) for f in fr]
    run = lambda f, *a, **k: quiet(f, *a, **k)[0]
    att = run(vol.get_attenuation, E)
    ref = sum(f * m["density"] * cross_section(m, E) for f, m in zip(F, cmps)) * vox
    c.close(att, ref, "attenuation", "attenuation", rtol=2e-3)
    c.expect(att.dtype == exp_dt and att.shape == shape, "attenuation", f"{att.dtype} {att.shape}")
    hc = 1.2398419843320026e-7
    ps = run(vol.get_phase_shift, E)
    dl = [1 - xl.Refractive_Index_Re(m["name"], E, m["density"]) for m in cmps]
    c.close(ps, -sum(f * d for f, d in zip(F, dl)) * vox * 2 * np.pi * E / hc, "phase", "phase shift", rtol=1e-5)
    s = str(rng.choice(["Ca", "Fe", "O", "Pb", "Cu", "C", "S", "Si"]))
    if rng.random() < 0.6:
        s = xl.AtomicNumberToSymbol(int(rng.choice(cmps[int(rng.integers(n))]["Elements"])))
    z = xl.SymbolToAtomicNumber(s)
    el = s if rng.random() < 0.5 else z
    mf = sum(f * m["density"] * sum(w for e, w in zip(m["Elements"], m["massFractions"]) if e == z) for f, m in zip(F, cmps))
    c.close(run(vol.get_element_mass_fraction, el), mf, "mass-fraction", f"mass of {s}", rtol=1e-5)
    det = None if rng.random() < 0.5 else xrf.DetectorXRF(float(rng.uniform(1, 30)), float(rng.uniform(20, 60)), float(rng.uniform(0.5, 2.5)))
    kd = {} if det is None else dict(detector=det)
    k = 1.0 if det is None else det.surface_mm2 / (4 * np.pi * det.distance_mm**2)
    if z > 12:
        q = str(rng.choice(["KA", "KB", "K", "KA1", "LA", "L"] if z > 60 else ["KA", "KB", "K", "KA1"]))
        sel = ph.FluoLinesSiegbahn.get_lines(q)
        form = [q, sel, sel[0]][int(rng.integers(3))]
        used = [sel[0]] if form is sel[0] else sel
        y = 0.0
        for f in used:
            with contextlib.suppress(ValueError):
                y += xl.CS_FluorLine_Kissel(z, f.indx, E)
        rr = xrf.get_radiation_rate(z, used)
        if rr.sum() > 0:
            en, pr = run(vol.get_fluo_production, el, E, form, **kd)
            c.close(pr, mf * y * vox * k, "fluorescence", f"production of {s} {q}", rtol=1e-4)
            c.close(en, float((xrf.get_energy(z, used) * rr).sum() / rr.sum()), "fluorescence", "energy of the line", rtol=1e-5)
            c.expect(type(en) is float and pr.shape == shape, "fluorescence", f"{type(en)} {pr.shape}")
            if z >= 20:
                c.expect(en < E or not np.any(pr), "fluorescence", f"emission at {en} above {E}")
    c.monitors["fluorescence"] += 1
    ang = None if det is not None and rng.random() < 0.5 else float(rng.uniform(0.1, 3.0))
    t = det.angle_rad if ang is None else ang
    en, pr = run(vol.get_compton_scattering, E, **({} if ang is None else dict(angle_rad=ang)), **kd)
    c.close(en, E / (1 + E / 510.998928 * (1 - np.cos(t))), "compton", "energy of Compton photons", rtol=1e-4)
    dcs = [sum(w * xl.DCS_Compt(e, E, t) for e, w in zip(m["Elements"], m["massFractions"])) for m in cmps]
    c.close(pr, sum(f * m["density"] * d for f, m, d in zip(F, cmps, dcs)) * vox * k, "compton", "Compton production", rtol=2e-3)
    # custom mixtures: unknown names, whose elements are known
    cus = [dict(m, name="??" + m["name"]) for m in cmps]
    vc, _ = quiet(ph.VolumeMaterial, fr, cus, vox, **kw)
    c.close(run(vc.get_attenuation, E), ref, "attenuation", "attenuation of custom mixtures", rtol=1e-5)
    en2, pr = run(vc.get_compton_scattering, E, **({} if ang is None else dict(angle_rad=ang)), **kd)
    c.close(pr, sum(f * m["density"] * d for f, m, d in zip(F, cmps, dcs)) * vox * k, "compton", "Compton production of custom mixtures", rtol=1e-5)
    c.expect(en2 == en, "compton", "energy of Compton photons of custom mixtures")
    c.monitors["detector"] += 1
    if det is not None and z > 12:
        a, b = run(vol.get_fluo_production, z, E, "KA", detector=det)[1], run(vol.get_fluo_production, z, E, "KA")[1]
        c.close(a, b * k, "detector", "detector coverage", rtol=1e-5)
    if n > 1:
        parts = [run(ph.VolumeMaterial([F[i]], [comp[i]], vox).get_attenuation, E) for i in range(n)]
        c.close(att, sum(parts), "superposition", "sum of the attenuation of each material", rtol=1e-5)
    c.monitors["superposition"] += 1
    for a, b in zip(fr, keep[0]):
        c.same(a, b, "untouched", "fractions")
    c.expect(comp == keep[1], "untouched", "compositions")
    V = ph.VolumeMaterial
    c.expect(fails(lambda: V(fr, comp + ["Fe"], vox)) and fails(lambda: V([], [], vox)), "refused", "number of materials")
    c.expect(fails(lambda: V(fr + [np.ones(tuple(x + 1 for x in shape))], comp + ["Fe"], vox)) and fails(lambda: V(fr + [np.ones((*shape, 1))], comp + ["Fe"], vox)), "refused", "shapes")
    c.expect(fails(lambda: vol.get_compton_scattering(E)), "refused", "neither angle nor detector")


@check.family("beam", 30, 600, ["sum", "symmetric", "shape", "integral", "narrow", "refused", "plot"])
def beam(c):
    rng = c.rng
    p = int(rng.integers(0, 4))
    # sampling of 0.1 um which has points at the boundaries of the voxels
    vox = 0.2 * int(rng.integers(5, 40))
    if round(vox * (2 * p + 1) * 10) % 2:
        vox *= 2
    fw = float(rng.uniform(0.4, 2.5)) * vox
    shp = str(rng.choice(["gaussian", "lorentzian", "sech**2", "Gaussian"]))
    fw = max(fw, 0.8)
    c.describe(voxel=vox, fwhm=fw, pixels=p, shape=shp)
    y = ph.pencil_beam_profile(vox, fw, p, beam_shape=shp)
    c.expect(y.shape == (2 * p + 1,) and np.all(y >= 0), "shape", f"{y}")
    c.close(y.sum(), 1.0, "sum", "total", rtol=1e-10)
    c.close(y, y[::-1], "symmetric", "reversed profile", rtol=1e-6, atol=1e-12)
    c.expect(np.all(np.diff(y[p:]) <= 1e-12), "symmetric", f"profile increases away from the center: {y}")
    h = fw / 2
    f = {"g": lambda x: np.exp(-np.log(2) * (x / h) ** 2), "l": lambda x: 1 / (1 + (x / h) ** 2), "s": lambda x: 1 / np.cosh(x * np.arccosh(np.sqrt(2)) / h) ** 2}[shp[0].lower()]
    L = (2 * p + 1) * vox / 2
    m = 40 * (2 * p + 1) * 10
    x = (np.arange(m) + 0.5) / m * 2 * L - L
    dx = x[1] - x[0]
    # beam over the integration length, within the extent
    t = np.linspace(-vox / 2, vox / 2, 201)
    w = np.ones(201)
    w[[0, -1]] = 0.5
    d = x[:, None] - t
    bl = (f(d) * (np.abs(d) <= L) * w).sum(1)
    ref = bl.reshape(2 * p + 1, -1).sum(1)
    ref /= ref.sum()
    c.close(y, ref, "integral", "integral of the beam over each pixel", rtol=0, atol=3e-3 + 5e-3 / vox)
    if p:
        z = ph.pencil_beam_profile(20.0, 0.3, p, beam_shape="gaussian")
        c.expect(z[p] > 0.97, "narrow", f"narrow beam: {z}")
        w1, w2 = ph.pencil_beam_profile(vox, fw, p, beam_shape=shp)[p], ph.pencil_beam_profile(vox, fw * 1.5, p, beam_shape=shp)[p]
        c.expect(w2 <= w1 + 1e-9, "narrow", "larger beams concentrate more")
    c.monitors["narrow"] += 1
    c.expect(fails(lambda: ph.pencil_beam_profile(vox, fw, p, beam_shape="square")), "refused", "unknown shape")
    if c.idx % 10 == 0:
        c.same(ph.pencil_beam_profile(vox, fw, p, beam_shape=shp, verbose=True), y, "plot", "profile")
        plt.close("all")
    c.monitors["plot"] += 1


def response(kind, x, db):
    return np.cos(x) + db * np.sin(x) if kind == "ctf" else 1 + db * x


@check.family("propagation", 50, 1000, ["fourier", "direct", "rfft", "apply", "flat", "invert", "linear", "stack", "untouched", "refused"])
def propagation(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(2, 14, nd))
    pix, dist = float(rng.uniform(0.2, 5)), float(10 ** rng.uniform(2, 5))
    wl, db = float(10 ** rng.uniform(-5, -3.5)), float(rng.uniform(0.5, 300))
    kind = str(rng.choice(["ctf", "tie", "CTF"]))
    c.describe(shape=shape, pixel=pix, distance=dist, wavelength=wl, delta_beta=db, kind=kind)
    args = dict(pix_size_um=pix, dist_um=dist, wlength_um=wl, delta_beta=db)
    k2 = np.zeros(shape)
    for i, n in enumerate(shape):
        k = np.array([(j if j < (n + 1) // 2 else j - n) for j in range(n)]) / (n * pix)
        k2 = k2 + (k**2).reshape([-1 if j == i else 1 for j in range(nd)])
    ref = response(kind.lower(), np.pi * wl * dist * k2, db)
    sc = np.abs(ref).max()
    tol = 1e-5 * (1 + np.pi * wl * dist * k2.max())
    F, D = phase.get_propagation_filter(shape, filter_type=kind, dtype=np.float64, **args)
    c.close(F, ref, "fourier", "Fourier response", rtol=0, atol=1e-8 * sc * (1 + np.pi * wl * dist * k2.max()))
    c.close(D, np.fft.fftshift(np.fft.ifftn(ref).real), "direct", "direct-space response", rtol=0, atol=1e-8 * sc * (1 + np.pi * wl * dist * k2.max()))
    Fr, Dr = phase.get_propagation_filter(np.array(shape), filter_type=kind, use_rfft=True, dtype=np.float64, **args)
    c.close(Fr, ref[..., : shape[-1] // 2 + 1], "rfft", "half response", rtol=0, atol=1e-8 * sc * (1 + np.pi * wl * dist * k2.max()))
    c.close(Dr, D, "rfft", "direct-space response with rfft", rtol=0, atol=1e-8 * sc * (1 + np.pi * wl * dist * k2.max()))
    f32 = phase.get_propagation_filter(shape, filter_type=kind, **args)[0]
    c.expect(f32.dtype == np.float32, "fourier", f"{f32.dtype}")
    c.expect(fails(lambda: phase.get_propagation_filter(shape, filter_type="other", **args)), "refused", "unknown filter")
    # application: deconvolution of the response, with replicated borders
    st = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
    sh = tuple(int(x) for x in rng.integers(2, 14, 2))
    x = rng.standard_normal((*st, *sh))
    if rng.random() < 0.4:
        x = x.astype(np.float32)
    x0 = x.copy()
    if kind.lower() == "ctf":
        args["dist_um"] = min(dist, 1.2 / (np.pi * wl * (0.5 / pix) ** 2 * 2))
    kw = {} if kind == "tie" and rng.random() < 0.5 else dict(filter_type=kind)
    apply = lambda v: phase.apply_propagation_filter(v, **args, **kw)
    got = apply(x)

    def direct(im):
        h, w = im.shape
        p = np.pad(im.astype(float), [(h, h), (w, w)], mode="edge")[h - (h - h // 2) : 2 * h + h // 2, w - (w - w // 2) : 2 * w + w // 2]
        kk = np.array([(j if j < h else j - 2 * h) for j in range(2 * h)])[:, None] / (2 * h * pix), np.array([(j if j < w else j - 2 * w) for j in range(2 * w)])[None] / (2 * w * pix)
        r = response(kind.lower(), np.pi * wl * args["dist_um"] * (kk[0] ** 2 + kk[1] ** 2), db)
        q = np.fft.ifft2(np.fft.fft2(p) / r).real
        return q[h - h // 2 : 2 * h - h // 2, w - w // 2 : 2 * w - w // 2]

    refa = np.array([direct(i) for i in x0.reshape(-1, *sh)]).reshape(x0.shape)
    c.close(got, refa, "apply", "filtered image", rtol=0, atol=2e-5 * max(1, np.abs(refa).max()))
    c.expect(got.shape == x.shape, "apply", f"{got.shape}")
    flat = np.full(sh, 3.0)
    c.close(apply(flat), flat, "flat", "flat image", rtol=1e-5)
    if st:
        i = tuple(int(rng.integers(n)) for n in st)
        c.close(got[i], apply(x0[i]), "stack", "image of the stack alone", rtol=0, atol=1e-5 * max(1, np.abs(refa).max()))
    c.monitors["stack"] += 1
    y = rng.standard_normal(x.shape)
    a = float(rng.uniform(-2, 2))
    c.close(apply(a * x0 + y), a * got + apply(y), "linear", "linear combination", rtol=0, atol=3e-5 * max(1, np.abs(refa).max()) * 3)
    # propagation of an object which is constant at the borders is inverted
    o = np.zeros((24, 26))
    o[10:14, 11:15] = rng.uniform(0.5, 1, (4, 4))
    big = np.zeros((48, 52))
    big[12:36, 13:39] = o
    g = np.array([(j if j < 24 else j - 48) for j in range(48)])[:, None] / (48 * pix), np.array([(j if j < 26 else j - 52) for j in range(52)])[None] / (52 * pix)
    r = response(kind.lower(), np.pi * wl * args["dist_um"] * (g[0] ** 2 + g[1] ** 2), db)
    prop = np.fft.ifft2(np.fft.fft2(big) * r).real
    ext = np.abs(np.r_[prop[:12].ravel(), prop[36:].ravel(), prop[:, :13].ravel(), prop[:, 39:].ravel(), prop[12, 13:39], prop[35, 13:39], prop[12:36, 13], prop[12:36, 38]]).max()
    if ext < 1e-3 * np.abs(prop).max():
        back = apply(prop[12:36, 13:39])
        c.close(back, o, "invert", "phase retrieval of the propagated object", rtol=0, atol=0.05)
    c.monitors["invert"] += 1
    c.same(x, x0, "untouched", "images")


@check.family("curves", 8, 60, ["delta-beta", "responses", "plots", "untouched"])
def curves(c):
    rng = c.rng
    names = [compound(c) for _ in range(int(rng.integers(1, 3)))]
    rg = (float(rng.uniform(5, 10)), float(rng.uniform(20, 50)), int(rng.integers(2, 6)))
    c.describe(compounds=names, energies=rg)
    cur = phase.get_delta_beta_curves(names, rg, plot=bool(rng.random() < 0.5))
    c.expect(len(cur) == len(names), "delta-beta", f"{len(cur)} curves")
    for k, nm in zip(cur, names):
        c.close(k, [phase.get_delta_beta(nm, e) for e in np.linspace(*rg)], "delta-beta", "curve", rtol=1e-8)
    n = int(rng.integers(3, 40))
    args = dict(pix_size_um=float(rng.uniform(0.5, 3)), dist_um=1e4, wlength_um=1e-4, delta_beta=float(rng.uniform(1, 100)))
    for dom in ("fourier", "Direct"):
        _, ax = phase.plot_filter_responses(n, domain=dom, **args)
        for l, kind in zip(ax.get_lines(), ("tie", "ctf")):
            F, D = phase.get_propagation_filter((n,), filter_type=kind, use_rfft=True, dtype=np.float64, **args)
            c.close(l.get_ydata(), F if dom == "fourier" else D, "responses", f"{kind} in {dom} space", rtol=0, atol=1e-6 * np.abs(F).max())
            xs = np.fft.rfftfreq(n, args["pix_size_um"]) if dom == "fourier" else (np.arange(n) - n // 2) * args["pix_size_um"]
            c.close(l.get_xdata(), xs, "responses", f"abscissas in {dom} space", rtol=1e-6, atol=1e-9)
    c.expect(fails(lambda: phase.plot_filter_responses(n, domain="other", **args)), "responses", "unknown domain accepted")
    phase.get_propagation_filter((n, n + 1), plot_result=True, **args)
    cmp = [ph.get_compound(x, 2.0) for x in names]
    keep = copy.deepcopy(cmp)
    T = (0.0, float(rng.uniform(5, 50)), int(rng.integers(3, 9)))
    plt.close("all")
    attenuation.plot_transmittance_decay(cmp if rng.random() < 0.5 else cmp[0], 15.0, T)
    for l, m in zip([q for q in plt.gcf().axes[0].get_lines()], cmp):
        c.close(l.get_ydata(), np.exp(-np.linspace(*T) * 1e-4 * 2.0 * cross_section(m, 15.0)), "plots", "transmittance", rtol=2e-3)
        c.close(l.get_xdata(), np.linspace(*T), "plots", "thickness", rtol=1e-6)
    plt.close("all")
    shp = str(rng.choice(["gaussian", "lorentzian", "sech**2"]))
    fw, E, th = float(rng.uniform(0.01, 0.2)), float(rng.uniform(8, 20)), float(rng.uniform(1, 40))
    _, out = quiet(attenuation.plot_emission_line_attenuation, cmp[0], th, E, fw, line_shape=shp, num_points=51)
    ls = plt.gcf().axes[0].get_lines()[0]
    e, y = ls.get_xdata(), ls.get_ydata()
    c.close(e[25], E, "plots", "center of the line", rtol=1e-8)
    c.close(y[25], 1.0, "plots", "height of the line", rtol=1e-8)
    c.expect(abs(np.interp(E + fw / 2, e, y) - 0.5) < 0.06, "plots", "half maximum of the line")
    at = plt.gcf().axes[1].get_lines()
    ref = np.array([np.exp(-th * 1e-4 * 2.0 * cross_section(cmp[0], q)) for q in e])
    c.close(at[0].get_ydata(), ref, "plots", "transmission over the line", rtol=2e-3)
    c.close(at[1].get_ydata(), ref * y, "plots", "transmitted line", rtol=2e-3)
    c.expect(cmp == keep, "untouched", "compounds")
    plt.close("all")


@check.family("phantoms", 10, 100, ["emission", "attenuation", "energy", "count", "untouched"])
def phantoms(c):
    from corrct import testing

    rng = c.rng
    sh = (int(rng.integers(3, 8)), int(rng.integers(3, 8)))
    lev = rng.choice([0.0, 0.15, 0.3, 0.8], sh).astype(np.float32)
    E, vox = float(rng.uniform(12, 40)), float(rng.uniform(0.1, 3))
    c.describe(shape=sh, energy=E, voxel=vox)
    keep = lev.copy()
    cm = [ph.get_compound(n) for n in ("Air, Dry (near sea level)", "Ferric Oxide", "Calcium Oxide", "Calcium Carbonate")]
    masks = [lev == 0, lev == np.float32(0.8), lev == np.float32(0.3), lev == np.float32(0.15)]

    def att(e, v):
        return sum(m * k["density"] * cross_section(k, e) for m, k in zip(masks, cm)) * v * 1e-4

    def prod(s, q, v):
        z = xl.SymbolToAtomicNumber(s)
        y = 0.0
        for f in ph.FluoLinesSiegbahn.get_lines(q):
            with contextlib.suppress(ValueError):
                y += xl.CS_FluorLine_Kissel(z, f.indx, E)
        return sum(m * k["density"] * w * y for m, k in zip(masks, cm) for e, w in zip(k["Elements"], k["massFractions"]) if e == z) * v * 1e-4

    s, q = [("Ca", "KA"), ("Fe", "KA"), ("Ca", "KB"), ("Fe", "K")][int(rng.integers(4))]
    (y, ain, aout), _ = quiet(testing.phantom_assign_concentration, lev, s, q, E, vox)
    c.close(y, prod(s, q, vox) * np.ones(sh), "emission", f"{s} {q}", rtol=1e-4)
    c.close(ain, att(E, vox), "attenuation", "incident", rtol=2e-3)
    c.close(aout, att(xrf.get_energy(s, q, compute_average=True), vox), "attenuation", "emitted", rtol=2e-3)
    ang = None if rng.random() < 0.4 else float(rng.uniform(0.3, 2.5))
    els = [("Ca", "Fe"), ("Fe",), ("Fe", "Ca")][int(rng.integers(3))]
    ln = "KA" if rng.random() < 0.5 else [str(rng.choice(["KA", "KB"])) for _ in els]
    (ys, ain, aouts), _ = quiet(testing.phantom_assign_concentration_multi, lev, els, ln, E, ang)
    c.expect(len(ys) == len(aouts) == len(els) + (ang is not None), "count", f"{len(ys)} volumes")
    c.close(ain, att(E, 0.5), "attenuation", "incident", rtol=2e-3)
    for i, s in enumerate(els):
        q = ln if isinstance(ln, str) else ln[i]
        c.close(ys[i], prod(s, q, 0.5) * np.ones(sh), "emission", f"{s} {q}", rtol=1e-4)
        c.close(aouts[i], att(xrf.get_energy(s, q, compute_average=True), 0.5), "attenuation", f"emitted {s} {q}", rtol=2e-3)
    if ang is not None:
        dcs = sum(m * k["density"] * sum(w * xl.DCS_Compt(e, E, ang) for e, w in zip(k["Elements"], k["massFractions"])) for m, k in zip(masks, cm))
        c.close(ys[-1], dcs * 0.5e-4, "emission", "Compton", rtol=2e-3)
        c.close(aouts[-1], att(E / (1 + E / 510.998928 * (1 - np.cos(ang))), 0.5), "attenuation", "Compton", rtol=2e-3)
    # xraylib has no cross section in the exact forward direction: refused, instead of a missing volume
    try:
        ys, _, _ = quiet(testing.phantom_assign_concentration_multi, lev, els, ln, E, 0.0)[0]
        c.expect(np.shape(ys[-1]) == sh, "energy", "missing volume of the forward Compton scattering")
    except ValueError:
        c.monitors["energy"] += 1
    c.same(lev, keep, "untouched", "phantom")


if __name__ == "__main__":
    raise SystemExit(check.main())
