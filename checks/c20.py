"""C20 - noise statistics (variances, weights) and denoising."""
import matplotlib

matplotlib.use("Agg")
import numpy as np

from corrct import data_terms as dt
from corrct import denoisers as dn
from corrct import operators as ops
from corrct import param_tuning as pt
from corrct import processing as pr
from corrct import regularizers as rg
from corrct import solvers as S
from corrct import testing
from corrct.processing import noise
from rtm.core import Check

check = Check(
    "C20",
    "Random intensities (with zeros and negative read-out values), reference intensities and variances, masks, percentiles; Monte-Carlo realisations; random images, point-spread functions "
    "and pixel weights, single and multiple regularisation weights. Oracles: propagation of uncertainties, empirical variances, explicit solver calls. Non-trivial when intensities vary.",
    scale=(5, 1),
)
EPS = float(np.finfo(np.float32).eps)


def counts(c, lo=20.0, hi=1000.0, zeros=False):
    rng = c.rng
    shape = tuple(int(x) for x in rng.integers(1, 7, int(rng.integers(1, 4))))
    x = rng.uniform(lo, hi, shape)
    return x


@check.family("variance", 50, 1000, ["poisson", "ratio", "transmission", "normalized", "untouched"])
def variance(c):
    rng = c.rng
    I = counts(c)
    neg = rng.random() < 0.3
    if neg:
        I = I * rng.choice([1, -1], I.shape)
    I0 = rng.uniform(500, 2000, I.shape)
    ref = int(rng.integers(3))
    if ref == 1:
        I0 = I0[-1:] if I0.ndim > 1 else I0[:1]
    elif ref == 2:
        I0 = np.array(float(I0.flat[0]))
    v0 = None if rng.random() < 0.5 else rng.uniform(100, 3000, I0.shape)
    c.describe(shape=I.shape, ref=I0.shape, var_I0=v0 is not None, negative=neg)
    k = [I.copy(), I0.copy(), None if v0 is None else v0.copy()]
    c.close(pr.compute_variance_poisson(I), np.abs(I), "poisson", "Poisson variance", rtol=1e-12)
    P = np.maximum(I, EPS)
    w = np.abs(I0) if v0 is None else v0
    kw = {} if v0 is None else dict(var_I0=v0)
    got = pr.compute_variance_poisson(I, I0, normalized=False, **kw)
    c.close(got, np.abs(I) / I0**2 + P**2 * w / I0**4, "ratio", "variance of I / I0", rtol=1e-10)
    c.close(pr.compute_variance_poisson(I, I0, **kw), got * I0.mean(), "normalized", "ratio, normalised by the mean reference", rtol=1e-10)
    if not neg:
        got = pr.compute_variance_transmission(I, I0, normalized=False, **kw)
        c.close(got, 1 / I + w / I0**2, "transmission", "variance of -log(I / I0)", rtol=1e-10)
        c.close(pr.compute_variance_transmission(I, I0, **kw), got * I0.mean(), "normalized", "-log, normalised by the mean reference", rtol=1e-10)
    for a, b, n in zip((I, I0, v0), k, ("signal", "reference", "variance")):
        if a is not None:
            c.same(a, b, "untouched", n)
    c.monitors["transmission"] += 1


@check.family("monte-carlo", 12, 120, ["ratio", "transmission"])
def monte_carlo(c):
    rng = c.rng
    I, I0 = float(rng.uniform(200, 2000)), float(rng.uniform(2000, 9000))
    n = 40000
    a, b = rng.poisson(I, n), rng.poisson(I0, n)
    g = rng.random() < 0.5
    s = 0.0
    if g:
        s = float(rng.uniform(20, 100))
        b = b + s * rng.standard_normal(n)
    c.describe(I=I, I0=I0, readout=s)
    kw = dict(var_I0=np.array([I0 + s**2]), normalized=False)
    v = float(pr.compute_variance_poisson(np.array([I]), np.array([I0]), **kw)[0])
    c.close(np.var(a / b), v, "ratio", "empirical variance of I / I0", rtol=0.06)
    v = float(pr.compute_variance_transmission(np.array([I]), np.array([I0]), **kw)[0])
    c.close(np.var(-np.log(a / b)), v, "transmission", "empirical variance of -log(I / I0)", rtol=0.06)


@check.family("weight", 80, 1600, ["definition", "antitone", "mask", "normalized", "finite", "untouched"])
def weight(c):
    rng = c.rng
    shape = tuple(int(x) for x in rng.integers(1, 7, int(rng.integers(1, 4))))
    v = rng.uniform(0.01, 10, shape) ** 2
    if rng.random() < 0.3:
        v.flat[int(rng.integers(v.size))] = 0.0
    if rng.random() < 0.2:
        v = v * rng.choice([1, -1], shape)
    if rng.random() < 0.3:
        v = v.astype(np.float32)
    if not np.any(v):
        v.flat[0] = 1.0
    m = None
    if rng.random() < 0.5:
        m = rng.random(shape) < 0.7
        m.flat[int(np.argmax(np.abs(v)))] = True
        m = [m, m.astype(np.float32), m.astype(np.uint8), m.astype(int)][int(rng.integers(4))]
    kw = dict(mask=m, normalized=bool(rng.random() < 0.5), use_std=bool(rng.random() < 0.4), semilog=bool(rng.random() < 0.4))
    p = [0.001, 0.0, 0.05, 0.3, 1.0][int(rng.integers(5))]
    c.describe(shape=shape, percentile=p, **{k: (x if k != "mask" else None if x is None else str(x.dtype)) for k, x in kw.items()})
    v0, m0 = v.copy(), None if m is None else m.copy()
    if p != 0.001 or rng.random() < 0.5:
        kw["percentile"] = p
    w = pr.compute_variance_weight(v, **kw)
    a = np.abs(v0)
    vals = np.sort(a[m0 > 0] if m is not None else a.ravel()).astype(float)
    cum = np.cumsum(vals) / vals.sum()
    # smallest variance which is kept: the first one where the cumulative fraction reaches the percentile (ties of rounding: either neighbour)
    refs = []
    for tol in (-1e-6, 0, 1e-6):
        i = min(int(np.sum(cum < p + tol)), len(vals) - 1)
        mn = max(vals[i], EPS, vals[vals > 0].min())
        x = np.maximum(a, mn)
        if kw["normalized"]:
            x = x / mn
        if kw["use_std"]:
            x = np.sqrt(x)
        if kw["semilog"]:
            x = np.log(x + (0 if kw["normalized"] else 1)) + 1
        refs.append(1 / x * (1 if m is None else (m0 > 0)))
    c.expect(w.shape == v.shape and any(np.allclose(w, r, rtol=2e-5, atol=0) for r in refs), "definition", "weights")
    c.finite(w, "finite", "weights")
    c.expect(np.all(w >= 0), "finite", "negative weights")
    if m is not None:
        c.expect(not np.any(w[m0 == 0]), "mask", "weights outside of the mask")
        c.expect(np.all(w[m0 > 0] > 0), "mask", "no weight inside the mask")
    c.monitors["mask"] += 1
    o = np.argsort(a[m0 > 0] if m is not None else a.ravel())
    ws = (w[m0 > 0] if m is not None else w.ravel())[o]
    c.expect(np.all(np.diff(ws) <= 1e-6 * ws.max()), "antitone", "larger variances have larger weights")
    if kw["normalized"]:
        c.expect(abs(ws.max() - 1) < 1e-5, "normalized", f"largest weight {ws.max()}")
        k = 10.0 ** int(rng.integers(-2, 3))
        if not np.any(v0 == 0) and v0.dtype == np.float64 and p != 1.0:
            w2 = pr.compute_variance_weight(v0 * k, **kw)
            c.expect(np.allclose(w2, w, rtol=1e-5) or any(np.allclose(w2, r, rtol=1e-5) for r in refs), "normalized", f"normalised weights depend on the scale {k}")
    c.monitors["normalized"] += 1
    c.same(v, v0, "untouched", "variance")
    if m is not None:
        c.same(m, m0, "untouched", "mask")


def regs():
    return [
        None,
        lambda w: rg.Regularizer_TV2D(w),
        lambda w: rg.Regularizer_l1(w),
        lambda w: rg.Regularizer_l1swl(w, "haar", 1),
        lambda w: rg.Regularizer_Grad(w, ndims=2),
    ]


def problem(c):
    rng = c.rng
    shape = tuple(int(x) for x in rng.choice([16, 24, 17, 32], 2))
    x = np.zeros(shape, np.float32)
    x[3:-4, 4:-3] = 1
    x[6:9, 6:10] += 1
    y = (x + 0.2 * rng.standard_normal(shape)).astype(np.float32)
    psf = None
    if rng.random() < 0.4:
        psf = np.abs(rng.standard_normal((3, 3))).astype(np.float32) + 0.2
        psf /= psf.sum()
    w = rng.uniform(0.2, 1.5, shape).astype(np.float32) if rng.random() < 0.4 else None
    r = int(rng.integers(len(regs())))
    ll = float(rng.choice([0.0, 0.1])) if rng.random() < 0.4 else None
    its = int(rng.integers(20, 80))
    c.describe(shape=shape, psf=psf is not None, weights=w is not None, reg=r, lower=ll, iterations=its)
    return x, y, psf, w, regs()[r], ll, its


def solve(y, lam, psf, w, reg, ll, its, **kw):
    op = ops.TransformIdentity(y.shape) if psf is None else ops.TransformConvolution(y.shape, psf)
    term = dt.DataFidelity_l2() if w is None else dt.DataFidelity_wl2(w)
    r = rg.Regularizer_l1dwl(lam, "bior4.4", 3) if reg is None else reg(lam)
    return S.PDHG(data_term=term, regularizer=r, data_term_test=term)(op, y, its, x0=kw.pop("x0", y.copy()), lower_limit=ll, **kw)


@check.family("denoise", 24, 300, ["solution", "bounds", "untouched", "identity"])
def denoise(c):
    x, y, psf, w, reg, ll, its = problem(c)
    lam = float(c.rng.uniform(0.01, 0.5))
    keep = [y.copy(), None if psf is None else psf.copy(), None if w is None else w.copy()]
    kw = {} if reg is None else dict(regularizer=reg)
    form = [lam, np.array(lam), [lam]][int(c.rng.integers(3))] if reg is None else lam
    got = dn.denoise_image(y, form, psf=psf, pix_weights=w, iterations=its, lower_limit=ll, verbose=False, **kw)
    ref, _ = solve(keep[0], lam, keep[1], keep[2], reg, ll, its)
    c.close(got, ref, "solution", "denoised image", rtol=1e-4)
    c.expect(isinstance(got, np.ndarray) and got.shape == y.shape, "solution", f"{type(got)}")
    if ll is not None:
        c.expect(got.min() >= ll - 1e-6, "bounds", f"minimum {got.min()} below {ll}")
    c.monitors["bounds"] += 1
    if psf is None and ll is None:
        z = dn.denoise_image(y, 1e-9, pix_weights=w, iterations=60, verbose=False, **kw)
        c.close(z, y, "identity", "denoising without regularisation", rtol=0, atol=2e-3 * np.abs(y).max())
    c.monitors["identity"] += 1
    for a, b, n in zip((y, psf, w), keep, ("image", "psf", "weights")):
        if a is not None:
            c.same(a, b, "untouched", n)


@check.family("cross-validation", 6, 60, ["weight", "solution", "untouched"])
def cross_validation(c):
    import scipy.signal as sps

    x, y, psf, w, reg, ll, its = problem(c)
    its = min(its, 40)
    lams = np.geomspace(1e-2, 1.0, int(c.rng.integers(3, 6)))
    y0 = y.copy()
    kw = {} if reg is None else dict(regularizer=reg)
    arg = lams if c.rng.random() < 0.5 else list(lams)
    seed = int(c.rng.integers(2**31))
    np.random.seed(seed)
    got, lam = dn.denoise_image(y, arg, psf=psf, pix_weights=w, iterations=its, lower_limit=ll, verbose=False, **kw)
    np.random.seed(seed)
    cv = pt.CrossValidation(y.shape, verbose=False, num_averages=3)
    masks = cv.data_cv_masks
    med = sps.medfilt2d(y0, kernel_size=11)
    loss = np.zeros((len(lams), len(masks)))
    for j, m in enumerate(masks):
        for i, l in enumerate(lams):
            s = y0.copy()
            s[m > 0.5] = med[m > 0.5]
            rec, info = solve(y0, l, psf, w, reg, ll, its, x0=s, b_test_mask=m)
            loss[i, j] = info.residuals_cv_rel[info.iterations - 1]
    best, _ = cv.fit_loss_min(lams, loss.mean(1))
    best = float(best)
    c.describe(num_weights=len(lams), chosen=float(lam))
    c.close(np.log10(lam), np.log10(best), "weight", "weight of the minimum of the cross-validation loss", rtol=0, atol=2e-2)
    c.expect(lams[0] * 0.999 <= lam <= lams[-1] * 1.001, "weight", f"{lam} out of the range")
    c.expect(type(lam) is float, "weight", f"{type(lam)}")
    ref, _ = solve(y0, lam, psf, w, reg, ll, its)
    c.close(got, ref, "solution", "image denoised with the chosen weight", rtol=1e-4)
    c.same(y, y0, "untouched", "image")


@check.family("simulation", 24, 300, ["clean", "noise", "background", "photons", "untouched"])
def simulation(c):
    rng = c.rng
    shape = (int(rng.integers(20, 40)), int(rng.integers(20, 40)))
    x = rng.uniform(0.5, 2.0, shape)
    if rng.random() < 0.5:
        x = x.astype(np.float32)
    n = float(rng.uniform(50, 500)) if rng.random() < 0.7 else int(rng.integers(50, 500))
    eff = 1.0 if rng.random() < 0.5 else float(rng.uniform(0.2, 1))
    bg = None if rng.random() < 0.5 else float(rng.uniform(0.2, 2))
    bs = None if rng.random() < 0.5 else float(rng.uniform(0.01, 0.05))
    po = bool(rng.random() < 0.5)
    ro = None if rng.random() < 0.5 else float(rng.uniform(1, 10))
    dtype = [np.float32, np.float64][int(rng.integers(2))]
    x0 = x.copy()
    c.describe(shape=shape, photons=n, efficiency=eff, background=bg, std=bs, poisson=po, readout=ro, dtype=str(dtype))
    np.random.seed(int(rng.integers(2**31)))
    noisy, clean, back = testing.add_noise(x, n, add_poisson=po, readout_noise_std=ro, background_avg=bg, background_std=bs, detection_efficiency=eff, dtype=dtype)
    c.close(clean, x0.astype(float) * n * eff, "clean", "clean image", rtol=1e-5)
    c.expect(noisy.dtype == dtype and clean.dtype == dtype, "clean", f"{noisy.dtype} {clean.dtype}")
    c.expect(isinstance(back, float), "background", f"{type(back)}")
    N = x.size
    if bg is None:
        c.expect(back == 0, "background", f"background {back} without any")
    else:
        s = bg * 0.05 if bs is None else bs
        c.expect(abs(back - n * eff * bg) < n * eff * (7 * s / np.sqrt(N) + 1e-4 * (bg + 2)), "background", f"background {back}, expected {n * eff * bg}")
    v = 0.0
    if bg is not None:
        v = v + (n * eff * (bg * 0.05 if bs is None else bs)) ** 2
    if po:
        v = v + clean.astype(float) + (0 if bg is None else n * eff * bg)
    if ro is not None:
        v = v + ro**2
    d = noisy.astype(float) - clean - (0 if bg is None else n * eff * bg)
    if np.any(v):
        z = d / np.sqrt(v)
        c.expect(abs(z.mean()) < 7 / np.sqrt(N), "noise", f"mean of the normalised noise {z.mean()}")
        c.expect(abs(z.var() - 1) < 7 * np.sqrt(3 / N), "noise", f"variance of the normalised noise {z.var()}")
        # the noise of different pixels is independent
        c.expect(abs(np.mean(z[1:] * z[:-1])) < 7 / np.sqrt(N) and abs(np.mean(z[:, 1:] * z[:, :-1])) < 7 / np.sqrt(N), "noise", "correlated noise")
    else:
        c.same(noisy, clean, "noise", "image without noise")
    if po and ro is None:
        c.expect(np.all(noisy == np.round(noisy)) and noisy.min() >= 0, "photons", "photon counts are not natural numbers")
    c.monitors["photons"] += 1
    c.same(x, x0, "untouched", "image")
    e, f = rng.standard_normal(shape), rng.standard_normal(shape)
    e *= rng.random(shape) < 0.6
    p, q = testing.compute_error_power(e, f)
    c.close([p, q], [np.sqrt((e**2).mean()), np.sqrt(((e - f) ** 2).mean())], "clean", "error power", rtol=1e-10)
    k, t = int(rng.integers(1, 6)), int(rng.integers(1, 300))
    g = testing.roundup_to_pow2(t, k)
    c.expect(g == -(-t // 2**k) * 2**k, "clean", f"{t} rounded up to {g} for 2**{k}")


@check.family("simulated-sinogram", 20, 600, ["emission", "transmission", "angles", "phantom", "untouched"])
def simulated_sinogram(c):
    rng = c.rng
    n, na = int(rng.integers(12, 20)), int(rng.integers(2, 7))
    ph = np.zeros((n, n), np.float32)
    ph[3:-4, 4:-3] = rng.uniform(0.5, 1, (n - 7, n - 7))
    a0, a1 = float(rng.uniform(-40, 40)), float(rng.uniform(90, 200))
    t, fl = float(rng.uniform(0.1, 3)), float(rng.uniform(1e3, 1e6))
    psf = None
    if rng.random() < 0.5:
        psf = np.abs(rng.standard_normal(3)).astype(np.float32) + 0.1
        psf /= psf.sum()
    att = [None, None]
    if rng.random() < 0.6:
        att = [None if rng.random() < 0.3 else (ph * 0.02 * rng.uniform(0.3, 1)).astype(np.float32) for _ in range(2)]
    det = float(rng.uniform(0.5, 2.5))
    c.describe(size=n, angles=na, psf=psf is not None, att=[a is not None for a in att])
    a = np.deg2rad(a0 + (a1 - a0) * np.arange(na) / na)
    p0 = ph.copy()
    s, ang, exp, bg = testing.create_sino(ph, na, a0, a1, t, fl, detectors_pos_rad=det, vol_att_in=att[0], vol_att_out=att[1], psf=psf)
    from corrct import projectors as P

    sa = (2.4 / 2 / 16 / 2) ** 2
    if att[0] is None and att[1] is None:
        with P.ProjectorUncorrected(ph.shape, a) as p:
            ref = p.fp(p0)
        if psf is not None:
            q = np.array([np.convolve(np.pad(r, 1, mode="edge"), psf, mode="valid") for r in ref])
            q2 = np.array([np.convolve(np.pad(r, 1), psf, mode="valid") for r in ref])
            ref = q if np.abs(s / (t * fl * sa) - q).max() < np.abs(s / (t * fl * sa) - q2).max() else q2
    else:
        with P.ProjectorAttenuationXRF(ph.shape, a, att_in=att[0], att_out=att[1], angles_detectors_rad=det, psf=psf) as p:
            ref = p.fp(p0)
    c.close(s, ref * (t * fl * sa), "emission", "sinogram", rtol=1e-4, atol=1e-4 * np.abs(ref).max() * t * fl * sa)
    c.close(ang, a, "angles", "angles", rtol=1e-10)
    c.close(exp, p0 * (t * fl * sa), "phantom", "expected production", rtol=1e-4)
    c.expect(bg == 0, "phantom", f"background {bg}")
    s, f, ang, v = testing.create_sino_transmission(ph * 0.1, na, a0, a1, t, fl, psf=psf)
    c.close(ang, a, "angles", "angles of transmission", rtol=1e-10)
    with P.ProjectorUncorrected(ph.shape, a, psf=psf) as p:
        ref = p.fp(p0 * np.float32(0.1))
    c.close(f, np.full(s.shape, t * fl), "transmission", "flat field", rtol=1e-5)
    c.close(-np.log(s / f), ref, "transmission", "-log of the transmission", rtol=1e-4, atol=1e-4 * ref.max())
    c.close(v, p0 * np.float32(0.1), "phantom", "phantom", rtol=1e-6)
    # noisy acquisitions: photon noise follows the readings (the flat field included), read-out noise is on all of them
    po = bool(rng.random() < 0.6)
    ro = None if po and rng.random() < 0.4 else float(rng.uniform(5, 60))
    na = 24
    np.random.seed(int(rng.integers(2**31)))
    args = (na, a0, a1, t, fl / t)
    es, _, _, _ = testing.create_sino(ph, *args, psf=psf)
    ts, tf, _, _ = testing.create_sino_transmission(ph * 0.1, *args, psf=psf)
    b = float(rng.uniform(0.05, 0.3)) if rng.random() < 0.5 else None
    bs = None if b is None or rng.random() < 0.5 else b * float(rng.uniform(0.02, 0.1))
    g = fl * sa
    en, _, _, back = testing.create_sino(ph, *args, psf=psf, background_avg=b, background_std=bs, add_poisson=po, readout_noise_std=ro)
    tn, fn, _, _ = testing.create_sino_transmission(ph * 0.1, *args, psf=psf, add_poisson=po, readout_noise_std=ro)
    for name, clean, noisy in (("emission", es, en), ("transmission", ts, tn), ("transmission", tf, fn)):
        d = noisy.astype(float) - clean
        clean = clean.astype(float)
        v = np.zeros(clean.shape) + (0 if ro is None else ro**2)
        if name == "emission" and b is not None:
            d -= g * b
            clean = clean + g * b
            v += (g * (b * 0.05 if bs is None else bs)) ** 2
            c.expect(abs(back - g * b) < g * 7 * (b * 0.05 if bs is None else bs) / np.sqrt(clean.size) + g * 1e-3 * (b + 1), "emission", f"background {back}, expected {g * b}")
        if po:
            v += clean
        ok = v > (20 if ro is None else 0)  # enough photons for the normal limit
        if ok.sum() < 30:
            c.event("too few photons")
            continue
        z = d[ok] / np.sqrt(v[ok])
        c.expect(abs(z.mean()) < 7 / np.sqrt(z.size), name, f"mean of the normalised noise {z.mean()}")
        c.expect(abs(z.var() - 1) < 8 * np.sqrt(3 / z.size), name, f"variance of the normalised noise {z.var()} ({z.size} readings)")
    d1, d2 = tn - ts, fn - tf
    c.expect(not np.array_equal(d1, d2), "transmission", "the flat field has the noise of the readings")
    c.same(ph, p0, "untouched", "phantom")


if __name__ == "__main__":
    raise SystemExit(check.main())
