"""C18 - pre-processing: padding, flat-field, -log, rotations, shifts, binning, backgrounds, destriping, eigen-flats."""
import matplotlib

matplotlib.use("Agg")
import numpy as np
import pywt

from corrct.processing import pre
from rtm.core import Check

check = Check(
    "C18",
    "Random sinograms and projection stacks ([V]WU, odd/even/tiny sizes, integer and float types), parameters drawn over their documented domains; oracles: direct (loop) definitions, "
    "bilinear and Fourier interpolation, least squares polynomials, explicit wavelet filtering. Non-trivial when the data are not constant.",
    scale=(30, 1),
)


def fails(fun, exc=ValueError):
    try:
        fun()
    except exc:
        return True
    return False


def stack(c, lo=2, hi=9, dims=(2, 3), dtypes=(np.float32, np.float64)):
    rng = c.rng
    nd = int(rng.choice(dims))
    shape = tuple(int(x) for x in rng.integers(lo, hi, nd))
    dt = np.dtype(dtypes[int(rng.integers(len(dtypes)))])
    x = rng.uniform(0, 100, shape)
    x = (np.round(x) if dt.kind in "iu" else x).astype(dt)
    c.describe(shape=shape, dtype=str(dt))
    return x


@check.family("pad", 40, 800, ["content", "original", "untouched"])
def pad(c):
    rng = c.rng
    x = stack(c, dtypes=(np.float32, np.float64, np.int32))
    ax = int(rng.integers(-x.ndim, x.ndim))
    n = x.shape[ax]
    w = [int(rng.integers(0, 2 * n)), tuple(int(v) for v in rng.integers(0, 2 * n, 2)), rng.integers(0, 2 * n, 2)][int(rng.integers(3))]
    w2 = (w, w) if isinstance(w, int) else tuple(int(v) for v in w)
    mode = str(rng.choice(["edge", "EDGE", "constant", "default"]))
    c.describe(axis=ax, width=w2, mode=mode)
    x0 = x.copy()
    kw = {} if mode == "default" else dict(mode=mode)
    if ax == -1 and rng.random() < 0.5:
        y = pre.pad_sinogram(x, w, **kw)
    else:
        y = pre.pad_sinogram(x, w, pad_axis=ax, **kw)
    i = np.arange(-w2[0], n + w2[1])
    ref = np.take(x0, np.clip(i, 0, n - 1), axis=ax)
    if mode == "constant":
        sh = np.ones(x.ndim, int)
        sh[ax] = -1
        ref = ref * ((i >= 0) & (i < n)).reshape(sh).astype(x.dtype)
    c.same(y, ref, "content", "padded data")
    c.same(np.take(y, np.arange(w2[0], w2[0] + n), axis=ax), x0, "original", "original data inside the padded one")
    c.same(x, x0, "untouched", "argument")


@check.family("flatfield", 60, 1200, ["transmission", "linearized", "limit", "untouched", "dtype"])
def flatfield(c):
    rng = c.rng
    nw, nv, nu = (int(x) for x in rng.integers(1, 7, 3))
    raw = rng.random() < 0.4
    dt = [np.float32, np.float64][int(rng.integers(2))]
    flat = rng.uniform(500, 1000, (nv, nu))
    dark = rng.uniform(5, 60, (nv, nu))
    flats = flat if rng.random() < 0.4 else flat + rng.uniform(-20, 20, (int(rng.integers(1, 5)), nv, nu))
    dk = int(rng.integers(4))
    darks = [None, dark, dark[None] + rng.uniform(-4, 4, (int(rng.integers(1, 5)), nv, nu)), dark[None]][dk]
    mu = rng.uniform(-0.05, 3, (nw, nv, nu))
    fm = flats.mean(0) if flats.ndim == 3 else flats
    dm = 0.0 if darks is None else darks.mean(0) if darks.ndim == 3 else darks
    projs = np.exp(-mu) * (fm - dm) + dm
    if raw:
        projs, flats = np.round(projs).astype(np.uint16), np.round(flats).astype(np.uint16)
        darks = None if darks is None else np.round(darks).astype(np.uint16)
    crop = None
    if rng.random() < 0.5:
        v0, u0 = int(rng.integers(0, nv)), int(rng.integers(0, nu))
        crop = [v0, u0, int(rng.integers(v0 + 1, nv + 1)), int(rng.integers(u0 + 1, nu + 1))]
        crop = crop if rng.random() < 0.5 else np.array(crop)
    cap = float(np.round(rng.uniform(0.3, 1.05), 2)) if rng.random() < 0.4 else None
    c.describe(shape=(nw, nv, nu), flats=flats.ndim, darks=None if darks is None else darks.shape, raw=raw, crop=crop, cap=cap, dtype=str(np.dtype(dt)))
    keep = [projs.copy(), flats.copy(), None if darks is None else darks.copy()]
    kw = {} if dt is np.float32 and rng.random() < 0.5 else dict(dtype=dt)
    got = pre.apply_flat_field(projs, flats, darks, crop=crop, cap_intensity=cap, **kw)
    p, f = keep[0].astype(float), keep[1].astype(float)
    d = 0.0 if darks is None else keep[2].astype(float)
    f = f.mean(0) if f.ndim == 3 else f
    d = d.mean(0) if np.ndim(d) == 3 else d
    ref = (p - d) / (f - d)
    if crop is not None:
        ref = ref[:, crop[0] : crop[2], crop[1] : crop[3]]
    if cap is not None:
        ref = np.minimum(ref, cap)
    c.close(got, ref, "transmission", "flat-field corrected projections", rtol=5e-6 if dt is np.float32 else 1e-11, scale=2 + np.abs(ref).max())
    c.expect(got.dtype == dt, "dtype", f"{got.dtype} instead of {dt}")
    for a, b, name in zip((projs, flats, darks), keep, ("projections", "flats", "darks")):
        if a is not None:
            c.same(a, b, "untouched", name)
    if np.all(ref > 0.02):
        g0 = got.copy()
        lim = [None, 0.0, float(np.round(rng.uniform(-0.1, 1), 2))][int(rng.integers(3))]
        lin = pre.apply_minus_log(got) if lim is None else pre.apply_minus_log(got, lower_limit=lim)
        want = -np.log(ref)
        if lim is not None:
            want = np.maximum(want, lim)
            c.expect(lin.min() >= lim - 1e-6, "limit", f"{lin.min()} below the limit {lim}")
        c.close(lin, want, "linearized", "-log of the transmission", rtol=1e-9, atol=3e-4 if dt is np.float32 else 1e-9)
        c.same(got, g0, "untouched", "transmission")
    c.close(pre.apply_minus_log(np.exp(-mu)), mu, "linearized", "-log(exp(-x))", rtol=1e-12, atol=1e-12)
    c.expect(pre.apply_minus_log(np.exp(-mu), 0.5).min() >= 0.5, "limit", "lower limit")


def bilinear(img, ys, xs):
    h, w = img.shape
    y0, x0 = np.floor(ys).astype(int), np.floor(xs).astype(int)
    fy, fx = ys - y0, xs - x0
    g = lambda a, b: img[np.clip(a, 0, h - 1), np.clip(b, 0, w - 1)]  # noqa: E731
    return (1 - fy) * ((1 - fx) * g(y0, x0) + fx * g(y0, x0 + 1)) + fy * ((1 - fx) * g(y0 + 1, x0) + fx * g(y0 + 1, x0 + 1))


@check.family("rotate", 40, 800, ["interior", "exact", "independent", "untouched"])
def rotate(c):
    rng = c.rng
    x = stack(c, 3, 12, dims=(3,), dtypes=(np.float32, np.float64, np.uint16, np.int32))
    nv, nw, nu = x.shape
    ang = float(np.round(rng.uniform(-180, 180), 2))
    x0 = x.copy()
    c.describe(angle=ang)
    y = pre.rotate_proj_stack(x, ang)
    c.expect(y.shape == x.shape and y.dtype == x.dtype, "exact", f"{y.shape} {y.dtype}")
    a = np.deg2rad(ang)
    vv, uu = np.meshgrid(np.arange(nv) - (nv - 1) / 2, np.arange(nu) - (nu - 1) / 2, indexing="ij")
    # clockwise rotation on screen (v downwards): output point p comes from R(-a) p
    us = np.cos(a) * uu + np.sin(a) * vv + (nu - 1) / 2
    vs = -np.sin(a) * uu + np.cos(a) * vv + (nv - 1) / 2
    inside = (us > 0) & (us < nu - 1) & (vs > 0) & (vs < nv - 1)
    tol = 1.01 if x.dtype.kind in "iu" else 2e-3
    for w in range(nw):
        ref = bilinear(x0[:, w].astype(float), vs, us)
        c.close(y[:, w][inside].astype(float), ref[inside], "interior", f"projection {w}", rtol=0, atol=tol)
    for q, f in [(0.0, lambda i: i), (180.0, lambda i: i[::-1, ::-1]), (-180.0, lambda i: i[::-1, ::-1])]:
        z = pre.rotate_proj_stack(x, q)
        for w in range(nw):
            # the outermost pixels can fall outside by rounding errors
            c.close(z[1:-1, w, 1:-1].astype(float), f(x0[:, w])[1:-1, 1:-1].astype(float), "exact", f"rotation by {q}", rtol=0, atol=tol)
    if nv == nu:
        z = pre.rotate_proj_stack(x, 90.0)
        for w in range(nw):
            c.close(z[1:-1, w, 1:-1].astype(float), np.rot90(x0[:, w], -1)[1:-1, 1:-1].astype(float), "exact", "rotation by 90 degrees", rtol=0, atol=tol)
    k = int(rng.integers(nw))
    c.close(pre.rotate_proj_stack(x[:, k : k + 1], ang), y[:, k : k + 1], "independent", "projection rotated alone", rtol=1e-6)
    c.same(x, x0, "untouched", "argument")


@check.family("shift", 60, 1200, ["integer", "linear", "fourier", "independent", "composition", "untouched"])
def shift(c):
    rng = c.rng
    x = stack(c, 3, 12, dtypes=(np.float64, np.float32))
    nd = x.ndim
    nw = x.shape[-2]
    x0 = x.copy()
    ishape = tuple(np.delete(x.shape, nd - 2))
    tol = 2e-4 if x.dtype == np.float32 else 1e-9

    def sh(intg=False, amp=2.5):
        s = rng.uniform(-amp, amp, (nd - 1, nw))
        s = np.round(s) if intg else np.round(s, 2)
        return s if nd == 3 else s[0]

    img = lambda w: x0[..., w, :].astype(float)  # noqa: E731
    s = sh(True)
    c.describe(shifts=s)
    y, yf = pre.shift_proj_stack(x, s), pre.shift_proj_stack(x, s, use_fft=True)
    for w in range(nw):
        sw = np.atleast_1d(s[..., w]).astype(int)
        idx = np.meshgrid(*[np.clip(np.arange(n) - d, 0, n - 1) for n, d in zip(ishape, sw)], indexing="ij")
        c.close(y[..., w, :], img(w)[tuple(idx)], "integer", f"integer shifts {sw}", rtol=tol)
        c.close(yf[..., w, :], np.roll(img(w), sw, tuple(range(nd - 1))), "integer", f"integer (Fourier, circular) shifts {sw}", rtol=tol)
    s = sh()
    y = pre.shift_proj_stack(x, s)
    for w in range(nw):
        ref = img(w)
        for ax, d in enumerate(np.atleast_1d(s[..., w])):
            n = ref.shape[ax]
            p = np.clip(np.arange(n) - d, 0, n - 1)
            l = np.minimum(np.floor(p).astype(int), max(n - 2, 0))
            f = (p - l).reshape([-1 if a == ax else 1 for a in range(ref.ndim)])
            ref = np.take(ref, l, ax) * (1 - f) + np.take(ref, np.minimum(l + 1, n - 1), ax) * f
        c.close(y[..., w, :], ref, "linear", f"linear interpolation of the shift {s[..., w]}", rtol=tol)
    # band-limited data: Fourier shifts are exact
    xb = np.zeros(x.shape)
    terms = []
    for w in range(nw):
        for _ in range(3):
            k = [int(rng.integers(-((n - 1) // 2), (n - 1) // 2 + 1)) for n in ishape]
            terms.append((w, k, rng.uniform(0.5, 2), rng.uniform(0, 6.28)))

    def synth(d):
        o = np.zeros(x.shape)
        g = np.meshgrid(*[np.arange(n) for n in ishape], indexing="ij")
        for w, k, am, ph in terms:
            arg = ph
            for ax, n in enumerate(ishape):
                arg = arg + 2 * np.pi * k[ax] * (g[ax] - np.atleast_1d(d[..., w])[ax]) / n
            o[..., w, :] += am * np.cos(arg)
        return o

    xb = synth(s * 0).astype(x.dtype)
    got = pre.shift_proj_stack(xb, s, use_fft=True)
    c.close(got, synth(s), "fourier", "Fourier shift of band-limited projections", rtol=tol, scale=6.0)
    s2 = sh()
    c.close(pre.shift_proj_stack(got, s2, use_fft=True), synth(s + s2), "composition", "two successive Fourier shifts", rtol=2 * tol, scale=6.0)
    k = int(rng.integers(nw))
    for fft in (False, True):
        c.close(pre.shift_proj_stack(x[..., k : k + 1, :], s[..., k : k + 1], use_fft=fft), pre.shift_proj_stack(x, s, use_fft=fft)[..., k : k + 1, :], "independent", "projection shifted alone", rtol=1e-6)
    c.same(x, x0, "untouched", "argument")


@check.family("bin", 60, 1200, ["mean", "crop", "fractional", "untouched"])
def binning(c):
    rng = c.rng
    nd = int(rng.integers(2, 5))
    b = int(rng.integers(1, 5))
    axes = (-2, -1) if rng.random() < 0.5 else tuple(int(a) - nd for a in rng.permutation(nd)[: int(rng.integers(1, nd + 1))])
    exact = rng.random() < 0.5
    shape = [int(rng.integers(1, 5)) for _ in range(nd)]
    for a in axes:
        shape[a] = shape[a] * b + (0 if exact else int(rng.integers(0, b)))
    dt = [np.float32, np.float64, np.uint16, np.int64][int(rng.integers(4))]
    x = rng.uniform(0, 1000, shape)
    x = np.round(x).astype(dt) if np.dtype(dt).kind in "iu" else x.astype(dt)
    x0 = x.copy()
    arg = b if rng.random() < 0.6 else np.int64(b)
    c.describe(shape=shape, binning=b, numpy_int=not isinstance(arg, int), axes=axes, exact=exact, dtype=str(np.dtype(dt)))
    verbose = dict(verbose=False) if rng.random() < 0.7 else {}
    kw = {} if axes == (-2, -1) and rng.random() < 0.5 else dict(axes=axes)
    ref = x0.astype(float)
    for a in axes:
        e = shape[a] % b
        if e:
            ref = np.take(ref, np.arange(e - e // 2, shape[a] - e // 2), axis=a)
    for a in axes:
        a = a % nd
        sh = list(ref.shape)
        ref = ref.reshape(sh[:a] + [sh[a] // b, b] + sh[a + 1 :]).mean(axis=a + 1)
    got = pre.bin_imgs(x, arg, auto_crop=True, **kw, **verbose)
    c.close(got, ref, "crop" if not exact else "mean", "binned (and cropped) images", rtol=1e-5 if dt is np.float32 else 1e-11)
    if exact:
        c.close(pre.bin_imgs(x, arg, **kw, **verbose), ref, "mean", "binned images", rtol=1e-5 if dt is np.float32 else 1e-11)
    c.same(x, x0, "untouched", "argument")
    # fractional binning: sizes, range and constants
    fb = float(np.round(rng.uniform(1.1, 3), 2))
    hw = tuple(int(v) for v in rng.integers(6, 15, 2))
    st = [(), (2,), (2, 3)][int(rng.integers(3))]
    z = rng.uniform(0, 1000, st + hw)
    z = np.round(z).astype(dt) if np.dtype(dt).kind in "iu" else z.astype(dt)
    got = pre.bin_imgs(z, fb, verbose=False)
    c.expect(got.shape == st + tuple(int(np.round(n / fb)) for n in hw), "fractional", f"shape {got.shape} from {hw} / {fb}")
    c.expect(got.min() >= z.min() - 1e-3 and got.max() <= z.max() + 1e-3, "fractional", f"range [{got.min()}, {got.max()}] exceeds [{z.min()}, {z.max()}]")
    c.expect(abs(got.mean() - z.mean()) < 250, "fractional", f"mean {got.mean()} instead of {z.mean()}")
    perm = rng.permutation(z.ndim)
    pos = [int(np.flatnonzero(perm == a)[0]) - (z.ndim if rng.random() < 0.5 else 0) for a in (z.ndim - 2, z.ndim - 1)]
    c.describe(fractional_axes=pos)
    c.close(pre.bin_imgs(z.transpose(perm), fb, axes=pos, verbose=False), got.transpose(perm), "fractional", f"axes {pos} of {z.transpose(perm).shape}", rtol=1e-6)
    k = np.full(st + hw, 7, dtype=dt)
    c.close(pre.bin_imgs(k, fb, verbose=False), np.full(got.shape, 7.0), "fractional", "constant images", rtol=1e-5)


@check.family("margin", 50, 1000, ["mean", "polynomial", "shape", "refused", "untouched"])
def margin(c):
    rng = c.rng
    x = stack(c, 2, 10, dtypes=(np.float64, np.float32))
    nu = x.shape[-1]
    m = [int(rng.integers(0, nu + 1)), int(rng.integers(0, nu + 1))]
    while sum(m) > nu or sum(m) == 0:
        m = [int(rng.integers(0, nu + 1)), int(rng.integers(0, nu + 1))]
    if rng.random() < 0.3:
        m = [max(1, nu // 2 - 1)] * 2
    arg = m[0] if m[0] == m[1] and rng.random() < 0.7 else [m, tuple(m), np.array(m)][int(rng.integers(3))]
    c.describe(margin=m, scalar=isinstance(arg, int))
    x0 = x.copy()
    bg = pre.background_from_margin(x, arg)
    vals = np.concatenate([x0[..., : m[0]], x0[..., nu - m[1] :]], axis=-1).astype(float)
    ref = vals.mean(axis=-1, keepdims=True)
    if x.ndim == 3:
        ref = ref.mean(axis=0, keepdims=True)
    try:
        full = np.broadcast_to(bg, x.shape)
        c.close(full, np.broadcast_to(ref, x.shape), "mean", "constant background", rtol=1e-5)
        c.expect(bg.shape[-2:] == x.shape[-2:], "shape", f"{bg.shape} for {x.shape}")
    except ValueError:
        c.expect(False, "shape", f"background {bg.shape} does not match the data {x.shape}")
    # polynomials that are exactly representable
    order = int(rng.integers(1, 4))
    coef = rng.uniform(-1, 1, (x.shape[-2], order + 1))
    t = np.linspace(-1, 1, nu)
    curve = 5 + np.stack([np.polyval(k, t) for k in coef])
    data = np.array(np.broadcast_to(curve, x.shape)).astype(x.dtype)
    if x.ndim == 3:
        data = data + (np.arange(x.shape[0]) - (x.shape[0] - 1) / 2)[:, None, None].astype(x.dtype)
    if min(m) > 0 and sum(m) > order:
        inner = slice(m[0], nu - m[1])
        data[..., inner] += rng.uniform(1, 5, data[..., inner].shape).astype(x.dtype)
        bg = pre.background_from_margin(data, arg, poly_order=order)
        c.expect(bg.shape == x.shape, "shape", f"{bg.shape} for {x.shape}")
        c.close(bg, np.broadcast_to(curve, x.shape), "polynomial", f"order {order}", rtol=2e-3 if x.dtype == np.float32 else 1e-10, scale=10)
    elif min(m) == 0:
        bg = pre.background_from_margin(x, arg, poly_order=order)
        c.close(np.broadcast_to(bg, x.shape), np.broadcast_to(ref, x.shape), "polynomial", "order reduced to 0 with a single margin", rtol=1e-5)
    c.expect(fails(lambda: pre.background_from_margin(x, nu)), "refused", "margins larger than the image accepted")
    c.expect(fails(lambda: pre.background_from_margin(x, np.ones((2, 2), int)), NotImplementedError), "refused", "per-line margins accepted")
    c.same(x, x0, "untouched", "argument")


def snip_ref(img, dims, its, window):
    h = window // 2
    b = img.astype(float).copy()
    nd = img.ndim
    offs = [o for o in np.ndindex(*[window] * dims)]
    ring = [o for o in offs if any(v in (0, window - 1) for v in o)]
    for _ in range(its):
        acc = np.zeros_like(b)
        for o in ring:
            t = b
            for k, v in enumerate(o):
                ax = nd - dims + k
                t = np.take(t, np.clip(np.arange(b.shape[ax]) + v - h, 0, b.shape[ax] - 1), axis=ax)
            acc += t
        b = np.minimum(acc / len(ring), b)
    return b


@check.family("snip", 40, 800, ["definition", "below", "affine", "composition", "stack", "refused", "untouched"])
def snip(c):
    rng = c.rng
    x = stack(c, 3, 10, dims=(1, 2, 3), dtypes=(np.float64, np.float32))
    dims = int(rng.integers(1, x.ndim + 1))
    w = int(rng.choice([3, 3, 5]))
    its = int(rng.integers(0, 8))
    tol = 1e-4 if x.dtype == np.float32 else 1e-10
    c.describe(dims=dims, window=w, iterations=its)
    x0 = x.copy()
    kd = None if dims == x.ndim and rng.random() < 0.5 else dims
    y = pre.snip(x, kd, its, w)
    c.close(y, snip_ref(x0, dims, its, w), "definition", "SNIP", rtol=tol)
    c.expect(np.all(y <= x0), "below", "the background exceeds the data")
    c.close(pre.snip(pre.snip(x, kd, its, w), kd, 3, w), pre.snip(x, kd, its + 3, w), "composition", "iterations", rtol=tol)
    a, b = x.dtype.type(rng.uniform(0.5, 3)), x.dtype.type(rng.uniform(-20, 20))
    c.close(pre.snip(a * x + b, kd, its, w), a * y + b, "affine", "scaled and offset data", rtol=10 * tol)
    c.expect(fails(lambda: pre.snip(x, x.ndim + 1)) and fails(lambda: pre.snip(x, 0)), "refused", "kernel dimensions out of range")
    d = stack(c, 3, 8, dims=(2, 3, 4), dtypes=(np.float64,))
    d0 = d.copy()
    n = int(rng.integers(1, 7))
    bg = pre.background_from_snip(d, n) if rng.random() < 0.5 or n != 6 else pre.background_from_snip(d)
    for i in range(d.shape[-2]):
        im = d0[..., i, :]
        ref = snip_ref(im, im.ndim, n, 3) if im.ndim < 3 else np.stack([snip_ref(s, 2, n, 3) for s in im])
        c.close(bg[..., i, :], ref, "stack", f"projection {i} of {d.ndim}-dimensional data", rtol=1e-10)
    k = np.full_like(d, 3.0)
    c.close(pre.background_from_snip(k, 3, smooth_std=1.0), k, "stack", "background of constant data", rtol=1e-9)
    c.same(x, x0, "untouched", "argument of snip")
    c.same(d, d0, "untouched", "argument of background_from_snip")


@check.family("destripe", 40, 800, ["filter", "stripes", "constant", "linear", "shape", "default-axes", "untouched"])
def destripe(c):
    rng = c.rng
    nd = int(rng.integers(2, 4))
    shape = [int(rng.integers(3, 20)) for _ in range(nd)]
    level = int(rng.integers(1, 3))
    wl = str(rng.choice(["bior2.2", "haar", "db2"]))
    sigma = float(rng.choice([0.005, 0.02, 0.1]))
    aax = -2 if rng.random() < 0.6 else int(rng.integers(-nd, nd))
    rest = [a for a in range(nd) if a != aax % nd]
    oth = None if rng.random() < 0.5 else [a if rng.random() < 0.5 else a - nd for a in rest[-int(rng.integers(1, nd)) :]]
    axes = rest if oth is None else [a % nd for a in oth]
    x = rng.uniform(-1, 1, shape)
    x0 = x.copy()
    kw = dict(sigma=sigma, level=level, wavelet=wl, angle_axis=aax, other_axes=oth)
    c.describe(shape=shape, **kw)
    y = pre.destripe_wlf_vwu(x, **kw)
    if not c.expect(y.shape == x.shape, "shape", f"{y.shape} from {x.shape}"):
        return

    def low(z):
        """Approximation part: all details set to zero."""
        p = 2**level
        pad = [(0, 0)] * nd
        for a in axes:
            d = -shape[a] % p
            pad[a] = (d - d // 2, d // 2)
        zp = np.pad(z, pad, mode="edge")
        cf = pywt.swtn(zp, wl, level=level, axes=axes)
        cf = [{k: (v if k == "a" * len(axes) else np.zeros_like(v)) for k, v in l.items()} for l in cf]
        r = pywt.iswtn(cf, wl, axes=axes)
        return r[tuple(slice(pad[i][0], r.shape[i] - pad[i][1]) for i in range(nd))]

    n = shape[aax]
    l = low(x0)
    f = np.abs(np.fft.fftfreq(n))
    filt = (1 - np.exp(-(f**2) / (2 * sigma**2))).reshape([-1 if a == aax % nd else 1 for a in range(nd)])
    ref = l + np.real(np.fft.ifft(np.fft.fft(x0 - l, axis=aax) * filt, axis=aax))
    c.close(y, ref, "filter", "wavelet-Fourier filter", rtol=1e-8, scale=2)
    s = rng.uniform(-1, 1, [1 if a == aax % nd else shape[a] for a in range(nd)])
    ys = pre.destripe_wlf_vwu(np.array(np.broadcast_to(s, shape)), **kw)
    c.close(ys, low(np.array(np.broadcast_to(s, shape))), "stripes", "stripes keep only their approximation part", rtol=1e-8, scale=1)
    c.close(y.mean(axis=aax), l.mean(axis=aax), "stripes", "angular average of the destriped data", rtol=1e-8, scale=1)
    k = np.full(shape, 3.7)
    c.close(pre.destripe_wlf_vwu(k, **kw), k, "constant", "constant data", rtol=1e-8)
    x2 = rng.uniform(-1, 1, shape)
    c.close(pre.destripe_wlf_vwu(2 * x - 3 * x2, **kw), 2 * y - 3 * pre.destripe_wlf_vwu(x2, **kw), "linear", "linearity", rtol=1e-8, scale=5)
    if oth is None:
        kw["other_axes"] = rest
        c.close(pre.destripe_wlf_vwu(x, **kw), y, "default-axes", "default axes are all the others", rtol=1e-10, scale=1)
    c.same(x, x0, "untouched", "argument")


@check.family("eigen-flats", 30, 600, ["product", "shape", "rank", "plot", "untouched"])
def eigen_flats(c):
    rng = c.rng
    nv, nu = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    lead = [(int(rng.integers(2, 7)),), (2, int(rng.integers(1, 4)))][int(rng.integers(2))]
    tr = rng.uniform(50, 100, lead + (nv, nu))
    fl = rng.uniform(90, 110, (int(rng.integers(1, 4)), nv, nu)) if rng.random() < 0.6 else None
    dk = [None, rng.uniform(1, 5, (nv, nu)), rng.uniform(1, 5, (3, nv, nu)), rng.uniform(1, 5, (2, 3, nv, nu))][int(rng.integers(4))]
    c.describe(trans=tr.shape, flats=None if fl is None else fl.shape, darks=None if dk is None else dk.shape)
    k = [tr.copy(), None if fl is None else fl.copy(), None if dk is None else dk.copy()]
    plot = bool(rng.random() < 0.1)
    p, f = pre.compute_eigen_flats(tr, fl, dk, plot=plot)
    if plot:
        import matplotlib.pyplot as plt

        c.expect(len(plt.get_fignums()) == 1, "plot", "no figure")
        plt.close("all")
    else:
        c.monitors["plot"] += 1
    c.expect(p.shape == tr.shape and f.shape == tr.shape, "shape", f"{p.shape} {f.shape} from {tr.shape}")
    d = 0 if dk is None else k[2].reshape(-1, nv, nu).mean(0)
    c.close(p * f, k[0] - d, "product", "sample times flats", rtol=1e-9)
    # eigen-flats: best rank-one approximation of the logarithm of all the images
    L = np.log(np.concatenate([k[0].reshape(-1, nv * nu)] + ([] if fl is None else [k[1].reshape(-1, nv * nu)])) - np.ravel(d))
    _, sv, vh = np.linalg.svd(L, full_matrices=False)
    best = np.outer(L @ vh[0], vh[0])[: int(np.prod(lead))]
    c.close(np.log(f).reshape(best.shape), best, "rank", "rank-one part of the log-images", rtol=1e-7)
    for a, b, name in zip((tr, fl, dk), k, ("transmissions", "flats", "darks")):
        if a is not None:
            c.same(a, b, "untouched", name)


if __name__ == "__main__":
    raise SystemExit(check.main())
