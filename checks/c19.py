"""C19 - masks, profiles, correlations, resolution estimates and image quality measures."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from corrct import operators as ops
from corrct import struct_illum as si
from corrct.processing import misc, post
from corrct.projectors import ProjectorMatrix
from rtm.core import Check

check = Check(
    "C19",
    "Random shapes (1-3 dims, odd/even/tiny), axes, offsets, tapers, super-samplings, images and stacks, curves with known crossings, noisy realisations; oracles: loop definitions of "
    "masks, azimuthal averages, correlations and ring correlations, closed-form least squares. Non-trivial when the arrays have more than one distinct value.",
    scale=(10, 1),
)


def fails(fun, exc=ValueError):
    try:
        fun()
    except exc:
        return True
    return False


def grid(shape, ss=1, origin=None):
    o = np.zeros(len(shape)) if origin is None else origin
    ax = [(np.arange(n * ss) - (n * ss - 1) / 2) / ss + o[i] for i, n in enumerate(shape)]
    return np.stack(np.meshgrid(*ax, indexing="ij"))


@check.family("mask", 80, 1600, ["content", "range", "shape", "refused", "finite"])
def mask(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(1 if rng.random() < 0.2 else 2, 10, nd))
    off = 0.0 if rng.random() < 0.3 else float(np.round(rng.uniform(-2, 1.5), 2))
    ss = 1 if rng.random() < 0.6 else int(rng.integers(2, 4))
    norm = float(rng.choice([2, 2, 1, np.inf]))
    cb = None
    if rng.random() < 0.5:
        cb = sorted(int(a) for a in rng.permutation(nd)[: int(rng.integers(1, nd + 1))])
        cb = cb if rng.random() < 0.5 else [a - nd for a in cb]
    org = np.round(rng.uniform(-2, 2, nd), 2) if rng.random() < 0.4 else None
    tap = None if rng.random() < 0.5 else str(rng.choice(["cos", "COS"]))
    tgt = ["edge", "diagonal", "Edge", float(np.round(rng.uniform(-2, 3), 2)), off][int(rng.integers(5))]
    sq = bool(rng.random() < 0.5)
    dt = [np.float32, np.float64][int(rng.integers(2))]
    kw = dict(radius_offset=off, coords_ball=cb, ball_norm=norm, vol_origin_zxy=org, taper_func=tap, taper_target=tgt, super_sampling=ss, squeeze=sq, dtype=dt)
    c.describe(shape=shape, **{k: v for k, v in kw.items() if k != "dtype"}, dtype=str(np.dtype(dt)))
    got = misc.circular_mask(shape, **kw)
    g = grid(shape, ss, org)
    axes = list(range(nd))[-2:] if cb is None else [a % nd for a in cb]
    p = np.abs(g[axes])
    d = p.sum(0) if norm == 1 else p.max(0) if norm == np.inf else np.sqrt((p**2).sum(0))
    half = min(shape[a] for a in axes) / 2
    rad = half + off
    tie = np.abs(d - rad) < 1e-5
    if tap is None:
        m = (d <= rad).astype(float)
    else:
        cut = half + max(tgt, off) if not isinstance(tgt, str) else half * (np.sqrt(2) if tgt == "diagonal" else 1)
        tie |= np.abs(d - cut) < 1e-5
        w = cut - rad
        with np.errstate(all="ignore"):
            m = (np.cos(np.clip((d - rad) / w, 0, 1) * np.pi) + 1) / 2 if w > 1e-9 else np.ones_like(d)
        m = m * (d < cut)

    def down(a):
        for i in range(nd):
            a = a.reshape(a.shape[:i] + (shape[i], ss) + a.shape[i + 1 :]).mean(i + 1)
        return a

    m, t = down(m), down(tie.astype(float))
    c.expect(got.shape == (np.squeeze(m).shape if sq else m.shape) and got.dtype == dt, "shape", f"{got.shape} {got.dtype}")
    c.finite(got, "finite", "mask")
    c.expect(got.min() >= 0 and got.max() <= 1 + 1e-6, "range", f"[{got.min()}, {got.max()}]")
    if got.size == m.size:
        err = np.abs(got.reshape(m.shape) - m)
        c.expect(np.all(err <= t + 2e-5), "content", f"mask differs by {np.max(err - t)}")
    c.expect(fails(lambda: misc.circular_mask(shape, taper_func="linear")), "refused", "unknown taper")
    c.expect(fails(lambda: misc.circular_mask(shape, taper_func=3)), "refused", "taper of the wrong type")
    c.expect(fails(lambda: misc.circular_mask(shape, taper_func="cos", taper_target="corner")), "refused", "unknown taper target")
    c.expect(fails(lambda: misc.circular_mask(shape, vol_origin_zxy=[0.0] * (nd + 1))), "refused", "mismatching origin")


@check.family("ball", 40, 800, ["content", "volume", "symmetry", "shape"])
def ball(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(2, 10, nd))
    ss = int(rng.choice([1, 3, 5]))
    r = float(np.round(rng.uniform(0.3, min(shape) / 2), 3)) + 0.0007
    fun = None if rng.random() < 0.6 else (lambda q: np.exp(-q))
    dt = [np.float32, np.float64][int(rng.integers(2))]
    kw = dict(super_sampling=ss) if ss != 5 or rng.random() < 0.5 else {}
    c.describe(shape=shape, radius=r, ss=ss, func=fun is not None)
    got = np.asarray(misc.ball(list(shape), r, dtype=dt, func=fun, **kw))
    # centre of the ball: centre of the voxel shape // 2; subvoxels wrap around
    ax = []
    for n in shape:
        k = np.arange(n * ss) - (ss - 1) // 2 - (n // 2) * ss
        k = (k + (n * ss) // 2) % (n * ss) - (n * ss) // 2
        ax.append(k / ss)
    d = np.sqrt((np.stack(np.meshgrid(*ax, indexing="ij")) ** 2).sum(0))
    m = (d < r) * (1.0 if fun is None else np.exp(-d))
    for i in range(nd):
        m = m.reshape(m.shape[:i] + (shape[i], ss) + m.shape[i + 1 :]).mean(i + 1)
    c.expect(got.shape == shape and got.dtype == dt, "shape", f"{got.shape} {got.dtype}")
    c.close(got, m, "content", "ball", rtol=0, atol=1e-5)
    if all(n % 2 for n in shape):
        c.close(got[tuple([slice(None, None, -1)] * nd)], got, "symmetry", "mirrored ball", atol=1e-6)
    else:
        c.monitors["symmetry"] += 1
    if fun is None and ss > 1 and min(shape) > 4 and r > 1.5:
        v = {1: 2 * r, 2: np.pi * r**2, 3: 4 / 3 * np.pi * r**3}[nd]
        c.expect(abs(got.sum() - v) < 0.25 * v, "volume", f"{got.sum()} instead of {v}")
    else:
        c.monitors["volume"] += 1


def azim(img, domain):
    """Loop definition for one image: each pixel shares its value between the two closest integer radii."""
    ax = [np.fft.fftfreq(n, 1 / n) if domain != "direct" else np.arange(n) - (n - 1) / 2 for n in img.shape]
    out = {}
    for i in np.ndindex(*img.shape):
        r = np.sqrt(sum(ax[k][j] ** 2 for k, j in enumerate(i)))
        l = int(np.floor(r))
        out[l] = out.get(l, 0) + (l + 1 - r) * img[i]
        out[l + 1] = out.get(l + 1, 0) + (r - l) * img[i]
    a = np.zeros(max(out) + 1)
    for k, v in out.items():
        a[k] = v
    return a


@check.family("azimuthal", 50, 1000, ["definition", "conservation", "stack", "refused", "untouched"])
def azimuthal(c):
    rng = c.rng
    nd = int(rng.integers(1, 5))
    shape = tuple(int(x) for x in rng.integers(1 if rng.random() < 0.2 else 2, 8 if nd < 3 else 6, nd))
    n = int(rng.integers(1, min(nd, 3) + 1))
    axes = [int(a) for a in rng.permutation(nd)[:n]]
    axes = axes if rng.random() < 0.5 else [a - nd for a in axes]
    if rng.random() < 0.3:
        axes = tuple(axes)
    dom = str(rng.choice(["direct", "fourier", "Fourier"]))
    x = rng.uniform(-1, 1, shape)
    x0 = x.copy()
    c.describe(shape=shape, axes=axes, domain=dom)
    got = misc.azimuthal_integration(x, axes, dom) if not (nd >= 2 and set(axes) == {-2, -1} and rng.random() < 0.5) else misc.azimuthal_integration(x, domain=dom)
    rest = [a for a in range(nd) if a not in [b % nd for b in axes]]
    t = np.transpose(x0, rest + [a % nd for a in axes])
    lead = t.shape[: len(rest)]
    ref = np.stack([azim(im, dom) for im in t.reshape((-1,) + t.shape[len(rest) :])]).reshape(lead + (-1,))
    c.close(got, ref, "definition", "azimuthal integral", rtol=0, atol=1e-10)
    if got.shape == ref.shape:
        c.close(got.sum(-1), t.sum(tuple(range(len(rest), nd))), "conservation", "total", rtol=0, atol=1e-9)
    if rest:
        k = [int(rng.integers(s)) for s in lead]
        sl = t[tuple(k)]
        c.close(misc.azimuthal_integration(np.array(sl), tuple(range(-n, 0)), dom), got[tuple(k)], "stack", "one image of the stack", atol=1e-10)
    else:
        c.monitors["stack"] += 1
    c.expect(fails(lambda: misc.azimuthal_integration(x, tuple(range(nd + 1)))), "refused", "too many axes")
    c.same(x, x0, "untouched", "argument")


@check.family("crossing", 80, 1600, ["point", "none", "limits", "refused", "untouched", "type"])
def crossing(c):
    """Piecewise-linear curves: the first (last) point where the sign of the difference changes."""
    rng = c.rng
    n = int(rng.integers(2, 15))
    y1 = np.round(rng.uniform(-1, 1, n), 3)
    scalar = rng.random() < 0.5
    y2 = float(np.round(rng.uniform(-0.8, 0.8), 3)) if scalar else np.round(rng.uniform(-1, 1, n), 3)
    if rng.random() < 0.3:
        y1 = np.sort(y1)[:: 1 if rng.random() < 0.5 else -1].copy()
    form = int(rng.integers(3))
    a1 = [y1, y1[None, :], y1[:, None]][form]
    a2 = y2 if scalar else [y2, y2[:, None], y2[None]][form]
    if scalar and rng.random() < 0.3:
        a2 = np.array([y2])
    lims = None
    if rng.random() < 0.5:
        lo, hi = sorted(int(v) for v in rng.integers(0, n + 1, 2))
        lims = [(lo, None), (None, hi), (lo, hi)][int(rng.integers(3))]
    pos = str(rng.choice(["first", "last", "LAST", "default"]))
    c.describe(n=n, scalar=scalar, lims=lims, position=pos)
    b1, b2 = np.array(a1), np.array(a2)
    kw = {} if pos == "default" else dict(position=pos)
    got = misc.lines_intersection(a1, a2, x_lims=lims, **kw)
    d = y1 - y2
    cand = [i for i in range(n - 1) if (d[i] >= 0) != (d[i + 1] >= 0)]
    if lims is not None:
        cand = [i for i in cand if i >= (lims[0] or 0) and (lims[1] is None or i < lims[1])]
    if not cand:
        c.expect(got is None, "none", f"found {got} with no crossing")
        c.monitors["type"] += 1
    elif c.expect(got is not None, "point", "no crossing found"):
        i = cand[-1] if pos.lower() == "last" else cand[0]
        t = d[i] / (d[i] - d[i + 1])
        c.close([got[0], got[1]], [i + t, y1[i] + t * (y1[i + 1] - y1[i])], "point", f"crossing after sample {i}", atol=1e-9)
        c.expect(all(type(v) is float for v in got), "type", f"{[type(v) for v in got]}")
        if lims is not None:
            c.expect(got[0] >= (lims[0] or 0) and (lims[1] is None or got[0] <= lims[1]), "limits", f"{got[0]} out of {lims}")
    c.monitors["limits"] += 1
    c.monitors["none"] += 1
    c.expect(fails(lambda: misc.lines_intersection(np.array([0.0, 1.0]), 0.5, position="middle")), "refused", "unknown position")
    c.expect(fails(lambda: misc.lines_intersection(y1, y2, x_lims=(None, None))), "refused", "both limits None")
    c.same(np.asarray(a1), b1, "untouched", "first line")
    c.same(np.asarray(a2), b2, "untouched", "second line")


def xcorr(a, b):
    """Full cross-correlation, zero lag at index 0 (circular layout of 2n-1)."""
    out = np.zeros([2 * n - 1 for n in a.shape])
    ov = {}
    for lag in np.ndindex(*out.shape):
        s = [l if l < n else l - (2 * n - 1) for l, n in zip(lag, a.shape)]
        sa = tuple(slice(max(0, k), n + min(0, k)) for k, n in zip(s, a.shape))
        sb = tuple(slice(max(0, -k), n + min(0, -k)) for k, n in zip(s, a.shape))
        out[lag] = np.sum(a[sa] * b[sb])
        ov[lag] = (sa, sb)
    return out, ov


@check.family("ncc", 50, 1000, ["full", "same", "peak", "stack", "template", "profile", "untouched", "plot", "lag"])
def ncc(c):
    rng = c.rng
    nd = int(rng.integers(1, 3))
    shape = tuple(int(x) for x in rng.integers(2, 7, nd))
    a = rng.uniform(-1, 1, shape).astype(np.float32)
    auto = rng.random() < 0.4
    b = a if auto else rng.uniform(-1, 1, shape).astype(np.float32)
    axes = tuple(range(-nd, 0))
    a0, b0 = a.copy(), b.copy()
    c.describe(shape=shape, auto=auto)
    A, B = a0.astype(float), b0.astype(float)
    plot = bool(c.idx % 12 == 0)
    kw = dict(axes=axes, plot=plot)
    arg = None if auto else b
    cc, prof = misc.norm_cross_corr(a, arg, **kw)
    if plot:
        c.expect(len(plt.get_fignums()) == 1, "plot", "no figure")
        plt.close("all")
    c.monitors["plot"] += 1
    full, ov = xcorr(A, B)
    nrm = np.linalg.norm(A) * np.linalg.norm(B)
    c.close(cc, full / nrm, "full", "normalised cross-correlation", rtol=0, atol=1e-5)
    one = misc.norm_cross_corr(a, arg, axes=axes, compute_profile=False)
    c.close(one, cc, "full", "without profile", rtol=0, atol=1e-6)
    pr = azim(cc, "fourier") / azim(np.ones_like(cc), "fourier")
    c.close(prof, pr[: min(shape)], "profile", "azimuthal average", rtol=0, atol=1e-5)
    c.close(misc.norm_cross_corr(a, **kw)[0].flat[0] if not plot else 1.0, 1.0, "peak", "auto-correlation at zero lag", rtol=1e-5)
    plt.close("all")
    same = misc.norm_cross_corr(a, arg, axes=axes, mode_full=False, compute_profile=False)
    c.expect(same.shape == shape, "same", f"{same.shape}")
    if same.shape == shape:
        sh = np.fft.ifftshift(np.fft.fftshift(full)[tuple(slice((n - 1) // 2, (n - 1) // 2 + n) for n in shape)])
        c.close(same, sh / nrm, "same", "same-size cross-correlation", rtol=0, atol=1e-5)
    # template matching: Pearson correlation over the window, with zero padding
    tm = misc.norm_cross_corr(a, arg, axes=axes, t_match=True, compute_profile=False)
    N = A.size
    for lag, (sa, sb) in ov.items():
        w = np.zeros_like(A)
        w[sa] = B[sb]
        den = (A.std() * np.sqrt(N)) * np.sqrt(max(np.sum(w**2) - w.sum() ** 2 / N, 0))
        if den > 0.05 * N * A.std():
            c.close(tm[lag], np.sum((A - A.mean()) * (w - w.mean())) / den, "template", f"lag {lag}", rtol=0, atol=2e-3)
    # a shifted image peaks at the shift
    big = np.zeros([n + 6 for n in shape], np.float32)
    big[tuple(slice(3, 3 + n) for n in shape)] = a + 2
    s = [int(v) for v in rng.integers(-3, 4, nd)]
    mv = np.roll(big, s, tuple(range(nd)))
    lagged = misc.norm_cross_corr(mv, big, axes=axes, compute_profile=False)
    pk = np.unravel_index(np.argmax(lagged), lagged.shape)
    c.expect([p if p < n else p - m for p, n, m in zip(pk, big.shape, lagged.shape)] == s, "lag", f"peak at {pk} for a shift {s}")
    # stacks
    k = int(rng.integers(2, 5))
    st = rng.uniform(-1, 1, (k,) + shape).astype(np.float32)
    s2 = rng.uniform(-1, 1, (k,) + shape).astype(np.float32)
    got, gp = misc.norm_cross_corr(st, s2, axes=axes, plot=False)
    n2 = np.linalg.norm(st.astype(float)) * np.linalg.norm(s2.astype(float))
    for i in range(k):
        f, _ = xcorr(st[i].astype(float), s2[i].astype(float))
        r = got[i] / (f.flat[0] / n2) if abs(f.flat[0]) > 1e-3 else None
        # the normalisation is common to an image: compare up to the factor at zero lag
        if r is not None:
            c.close(got[i] * (f.flat[0] / got[i].flat[0]), f, "stack", f"image {i} of the stack", rtol=1e-3, scale=np.abs(f).max() * max(1, np.abs(f).max() / abs(f.flat[0])))
    c.same(a, a0, "untouched", "first image")
    c.same(b, b0, "untouched", "second image")


@check.family("resolution", 20, 400, ["hwhm", "range", "untouched"])
def resolution(c):
    """Mask resolution: half width at half maximum of the auto-correlation."""
    rng = c.rng
    n, k = int(rng.integers(6, 16)), int(rng.integers(1, 5))
    sz = int(rng.integers(1, 4))
    m = rng.uniform(0, 1, (k, n, n))
    m = np.kron(m[:, : n // sz + 1, : n // sz + 1], np.ones((1, sz, sz)))[:, :n, :n]
    m0 = m.copy()
    c.describe(n=n, masks=k, feature=sz)
    mean, mn = si.estimate_resolution(m if rng.random() < 0.5 or k < 2 else m.reshape((1, k, n, n)), verbose=False, plot_result=bool(rng.random() < 0.2))
    plt.close("all")
    res = []
    for a in m0 - m0.mean((1, 2), keepdims=True):
        f, _ = xcorr(a.astype(np.float32).astype(float), a)
        p = (azim(f, "fourier") / azim(np.ones_like(f), "fourier"))[:n] / f.flat[0]
        i = next((j for j in range(n - 1) if (p[j] >= 0.5) != (p[j + 1] >= 0.5)), None)
        res.append(0 if i is None else i + (p[i] - 0.5) / (p[i] - p[i + 1]))
    c.close([mean, mn], [np.mean(res), np.min(res)], "hwhm", "mean and minimum of the HWHM", atol=2e-3)
    c.expect(0 <= mn <= mean + 1e-12, "range", f"{mn} {mean}")
    c.same(m, m0, "untouched", "masks")


@check.family("com", 30, 600, ["definition", "shift", "scaling", "untouched"])
def com(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(1, 8, nd))
    x = rng.uniform(0.01, 1, shape)
    axes = None
    if rng.random() < 0.6:
        axes = [int(a) for a in rng.permutation(nd)[: int(rng.integers(1, nd + 1))]]
        axes = axes if rng.random() < 0.5 else [a - nd for a in axes]
        if len(axes) == 1 and rng.random() < 0.5:
            axes = axes[0]
    c.describe(shape=shape, axes=axes)
    x0 = x.copy()
    got = post.com(x, axes)
    al = list(range(nd)) if axes is None else [a % nd for a in np.atleast_1d(axes)]
    g = grid(shape)
    c.close(got, [np.sum(g[a] * x0) / x0.sum() for a in al], "definition", "centre of mass", atol=1e-10)
    c.close(post.com(-2.5 * x, axes), got, "scaling", "scaled (negative) volume", atol=1e-10)
    p = np.pad(x, 3)
    s = [int(v) for v in rng.integers(-3, 4, nd)]
    c.close(post.com(np.roll(p, s, tuple(range(nd))), axes), got + np.array(s)[al], "shift", "shifted volume", atol=1e-9)
    c.same(x, x0, "untouched", "argument")


def hann5(n):
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1))
    return w / w.sum()


def smooth(y, n):
    if n is None or n <= 1:
        return y
    w = hann5(n)
    p = np.concatenate([[y[0]] * (n // 2), y, [y[-1]] * (n // 2)])
    return np.array([np.dot(w, p[i : i + n]) for i in range(len(y))])


def taper(shape, axes, ratio):
    if ratio is None:
        return np.ones(shape)
    size = ratio * np.mean([shape[a] for a in axes])
    d = np.sqrt((grid(shape)[[a % len(shape) for a in axes]] ** 2).sum(0))
    half = min(shape[a] for a in axes) / 2
    if size <= 0:
        return (d < half).astype(float)
    return (np.cos(np.clip((d - (half - size)) / size, 0, 1) * np.pi) + 1) / 2 * (d < half)


def sq_config(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(5, 14 if n < 3 else 9, n))
    st = int(rng.integers(2, 4)) if rng.random() < 0.4 and n < 3 else 0
    full = ((st,) if st else ()) + shape
    axes = tuple(range(-n, 0))
    axes = None if not st and rng.random() < 0.5 else list(axes) if rng.random() < 0.5 else axes
    sm = [None, 1, 3, 5][int(rng.integers(4))]
    tr = [None, 0.05, 0.2, 0.0][int(rng.integers(4))]
    c.describe(shape=full, axes=axes, smooth=sm, taper=tr)
    return full, shape, st, axes, sm, tr


@check.family("spectrum", 40, 800, ["definition", "scaling", "stack", "untouched", "white"])
def spectrum(c):
    rng = c.rng
    full, shape, st, axes, sm, tr = sq_config(c)
    x = rng.standard_normal(full)
    x0 = x.copy()
    pw = int(rng.integers(1, 3))
    kw = dict(axes=axes, smooth=sm, taper_ratio=tr, power=pw)
    got = post.power_spectrum(x, **kw)
    n = len(shape)
    T = taper(full, tuple(range(-n, 0)), tr)
    cut = min(shape) // 2
    ims = (x0 * T).reshape((-1,) + shape)
    ref = []
    for im in ims:
        f = np.abs(np.fft.fftn(im)) ** pw
        ps = azim(f, "fourier") / np.maximum(azim(np.ones(shape), "fourier"), 1e-300)
        ref.append(smooth(ps / np.sqrt(min(shape) ** n) ** pw, sm)[:cut])
    ref = np.stack(ref) if st else ref[0]
    c.close(got, ref, "definition", "power spectrum", rtol=1e-4)
    a = float(rng.uniform(-3, 3))
    c.close(post.power_spectrum(a * x, **kw), abs(a) ** pw * got, "scaling", "scaled signal", rtol=1e-4)
    if st:
        one = post.power_spectrum(x[0], smooth=sm, taper_ratio=tr, power=pw)
        c.close(one, got[0], "stack", "one signal of the stack", rtol=1e-5)
    c.monitors["stack"] += 1
    w = rng.standard_normal((48, 48)) * 2
    ps = post.power_spectrum(w, taper_ratio=None)
    c.expect(np.all(np.abs(ps[5:] / 4 - 1) < 0.9) and abs(ps[5:].mean() / 4 - 1) < 0.3, "white", "white noise of standard deviation 2")
    c.same(x, x0, "untouched", "argument")


@check.family("frc", 60, 1200, ["definition", "threshold", "self", "symmetry", "scaling", "range", "stack", "axes", "resolution", "refused", "untouched"])
def frc(c):
    rng = c.rng
    full, shape, st, axes, sm, tr = sq_config(c)
    n = len(shape)
    a = rng.standard_normal(full)
    kind = str(rng.choice(["noise", "background", "smooth"]))
    if kind == "smooth":  # natural images: a spectrum that spans several orders of magnitude
        f2 = sum(k**2 for k in np.meshgrid(*[np.fft.fftfreq(s) * s for s in shape], indexing="ij"))
        a = np.fft.ifftn(np.fft.fftn(a, axes=tuple(range(-n, 0))) / (1 + f2) ** 1.5, axes=tuple(range(-n, 0))).real
    b = a + rng.uniform(0, 2) * rng.standard_normal(full) * a.std()
    if kind == "background":
        off = float(rng.choice([3.0, 30.0, 300.0]))
        a, b = a + off, b + off
    if rng.random() < 0.3 and kind == "noise":
        a, b = a.astype(np.float32), b.astype(np.float32)
    c.describe(image=kind)
    a0, b0 = a.copy(), b.copy()
    snrt = float(rng.choice([0.2071, 0.4142]))
    theo = bool(rng.random() < 0.6)
    kw = dict(snrt=snrt, axes=axes, smooth=sm, taper_ratio=tr, theo_threshold=theo)
    c.describe(snrt=snrt, theo=theo, dtype=str(a.dtype))
    f, t = post.compute_frc(a, b, **kw)
    cut = min(shape) // 2
    T = taper(full, tuple(range(-n, 0)), tr)
    rings = azim(np.ones(shape), "fourier")
    cur = []
    for x, y in zip((a0 * T).reshape((-1,) + shape), (b0 * T).reshape((-1,) + shape)):
        X, Y = np.fft.fftn(x), np.fft.fftn(y)
        z = X * np.conj(Y)
        num = np.abs(azim(z.real, "fourier") + 1j * azim(z.imag, "fourier"))
        cur.append(num / np.maximum(np.sqrt(azim(abs(X) ** 2, "fourier") * azim(abs(Y) ** 2, "fourier")), 1e-300))
    ref = smooth(np.mean(cur, axis=0), sm)[:cut]
    c.close(f, ref, "definition", "FRC", rtol=0, atol=2e-4)
    if theo:
        k = np.arange(1, len(rings))
        rings = np.concatenate([[1.0], {1: 2 + 0 * k, 2: 2 * np.pi * k, 3: 4 * np.pi * k**2}[n]])
    th = ((snrt + (2 * np.sqrt(snrt) + 1) / np.sqrt(rings)) / (snrt + 1 + 2 * np.sqrt(snrt) / np.sqrt(rings)))[:cut]
    c.close(t, th, "threshold", "threshold curve", rtol=1e-6)
    c.expect(np.all(f >= -1e-6) and np.all(f <= 1 + 1e-5), "range", f"FRC in [{f.min()}, {f.max()}]")
    c.close(post.compute_frc(a, a, **kw)[0], np.ones(cut), "self", "FRC of an image with itself", rtol=1e-4)
    c.close(post.compute_frc(b, a, **kw)[0], f, "symmetry", "swapped images", rtol=1e-4)
    c.close(post.compute_frc(a * 3, b * -0.5, **kw)[0], f, "scaling", "scaled images", rtol=1e-4, atol=1e-4)
    if st:
        same = np.stack([a0[0]] * st), np.stack([b0[0]] * st)
        one = dict(kw, axes=None)
        c.close(post.compute_frc(*same, **kw)[0], post.compute_frc(a0[0], b0[0], **one)[0], "stack", "stack of equal images", rtol=1e-4, atol=1e-5)
    c.monitors["stack"] += 1
    ss = 2
    fs, ts = post.compute_frc(a, b, supersampling=ss, **kw)
    c.expect(fs.shape == ts.shape == ((min(shape) * ss) // 2,), "definition", f"super-sampled curves {fs.shape} {ts.shape}")
    if st:
        q = [post.compute_frc(a0[i], b0[i], supersampling=ss, **dict(kw, axes=None))[0] for i in range(st)]
        c.close(fs, np.mean(q, axis=0), "stack", "super-sampled stack", rtol=0, atol=5e-3)
    # the axes may be anywhere and in any order, the images complex
    perm = rng.permutation(a.ndim)
    pa, pb = a.transpose(perm), b.transpose(perm)
    pos = [int(np.flatnonzero(perm == k)[0]) for k in range(a.ndim - n, a.ndim)]
    pos = [int(q - a.ndim) if rng.random() < 0.5 else q for q in pos]
    c.close(post.compute_frc(pa, pb, **dict(kw, axes=pos))[0], f, "axes", f"axes {pos} of {pa.shape}", rtol=0, atol=2e-4)
    c.close(post.compute_frc(pa, pb, supersampling=ss, **dict(kw, axes=pos))[0], fs, "axes", f"super-sampled axes {pos} of {pa.shape}", rtol=0, atol=2e-3)
    ph = np.exp(1j * rng.uniform(0, 2 * np.pi))
    za, zb = a0.astype(np.float64), b0.astype(np.float64)
    c.close(post.compute_frc(za * ph, zb + 0j, **kw)[0], post.compute_frc(za, zb, **kw)[0], "scaling", "images of another phase", rtol=1e-4, atol=1e-4)
    got = post.estimate_resolution(f, t)
    d = f - t
    i = next((j for j in range(1, cut - 1) if (d[j] >= 0) != (d[j + 1] >= 0)), None)
    if i is None:
        c.expect(got is None, "resolution", f"{got} without crossing")
    elif c.expect(got is not None, "resolution", "no crossing found"):
        w = d[i] / (d[i] - d[i + 1])
        c.close(got, [i + w, f[i] + w * (f[i + 1] - f[i])], "resolution", "crossing of FRC and threshold", atol=1e-4)
    c.expect(fails(lambda: post.compute_frc(a, b[..., :-1])), "refused", "different shapes")
    c.same(a, a0, "untouched", "first image")
    c.same(b, b0, "untouched", "second image")


@check.family("plot-frcs", 4, 30, ["figure"])
def plot_frcs(c):
    rng = c.rng
    n = int(rng.integers(16, 30))
    pairs = []
    for _ in range(int(rng.integers(1, 4))):
        a = rng.standard_normal((n, n))
        k = np.hypot(*np.meshgrid(np.fft.fftfreq(n), np.fft.fftfreq(n)))
        a = np.real(np.fft.ifft2(np.fft.fft2(a) * np.exp(-((k / 0.15) ** 2))))
        s = 0.3 * a.std()
        pairs.append((a + s * rng.standard_normal((n, n)), a + s * rng.standard_normal((n, n))))
    fig, ax = post.plot_frcs(pairs, [f"L{i}" for i in range(len(pairs))], title="T" if rng.random() < 0.5 else None)
    lines = [l for l in ax.get_lines() if len(l.get_xdata()) == n // 2]
    c.expect(len(lines) >= len(pairs) + 1, "figure", f"{len(lines)} curves")
    for p, l in zip(pairs, lines):
        c.close(l.get_ydata(), post.compute_frc(*p)[0], "figure", "plotted curve", rtol=1e-9)
    plt.close("all")


@check.family("bias-variance", 40, 800, ["mse", "bias", "variance", "decomposition", "refused", "untouched"])
def bias_variance(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(1, 6, nd))
    R = int(rng.integers(2, 15))
    ref = rng.uniform(-1, 1, shape)
    recs = ref + 0.3 + 0.5 * rng.standard_normal((R,) + shape)
    ax = 0 if rng.random() < 0.5 else int(rng.integers(-nd - 1, nd + 1))
    arg = np.moveaxis(recs, 0, ax)
    if rng.random() < 0.3:
        arg = list(arg)
    c.describe(shape=shape, R=R, axis=ax)
    r0 = np.array(arg)
    mse, b2, var = post.compute_reconstruction_bias_variance_maps(ref, arg, **({} if ax == 0 and rng.random() < 0.5 else dict(realizations_axis=ax)))
    c.close(mse, np.mean((recs - ref) ** 2, axis=0), "mse", "mean squared error", rtol=1e-10)
    c.close(b2, (recs.mean(0) - ref) ** 2, "bias", "squared bias", rtol=1e-10)
    c.close(var, ((recs - recs.mean(0)) ** 2).sum(0) / (R - 1), "variance", "sample variance", rtol=1e-10)
    c.close(b2 + var * (R - 1) / R, mse, "decomposition", "bias-variance decomposition", rtol=1e-9)
    c.expect(fails(lambda: post.compute_reconstruction_bias_variance_maps(ref, ref)), "refused", "a single image without realisations axis")
    c.expect(fails(lambda: post.compute_reconstruction_bias_variance_maps(np.ones(tuple(s + 1 for s in shape)), recs)), "refused", "mismatching reference")
    c.same(np.array(arg), r0, "untouched", "reconstructions")


@check.family("scale-bias", 40, 800, ["exact", "optimal", "invariance", "untouched"])
def scale_bias(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(2, 6, nd))
    npix = int(np.prod(shape))
    unit = float(10.0 ** rng.integers(-6, 5))
    x = rng.uniform(0, 1, shape) * unit
    kind = int(rng.integers(3))
    if kind == 0:
        prj, A = None, np.eye(npix)
    elif kind == 1:
        prj, A = ops.TransformIdentity(shape), np.eye(npix)
    else:
        m = int(rng.integers(2, 2 * npix + 2))
        A = rng.uniform(0, 1, (m, npix))
        prj = ProjectorMatrix(A, shape, (m,))
    a, b = float(rng.uniform(-3, 3)), float(rng.uniform(-2, 2)) * unit
    c.describe(shape=shape, unit=unit, kind=kind, scale=a, bias=b)
    y = (A @ (a * x + b).ravel()).reshape(shape if kind < 2 else (len(A),))
    x0, y0 = x.copy(), y.copy()
    if kind < 2 or len(A) > 3:
        s, o = post.fit_scale_bias(x, y, prj)
        c.close([s, o / unit], [a, b / unit], "exact", "scale and bias of noiseless data", rtol=1e-4, scale=3)
    yn = y + rng.standard_normal(y.shape) * 0.1 * np.abs(y).max()
    s, o = post.fit_scale_bias(x, yn, prj)
    M = np.stack([A @ x0.ravel(), A @ np.ones(npix)], 1)
    sol = np.linalg.lstsq(M / np.linalg.norm(M, axis=0), yn.ravel(), rcond=None)[0] / np.linalg.norm(M, axis=0)
    r, best = np.linalg.norm(M @ [s, o] - yn.ravel()), np.linalg.norm(M @ sol - yn.ravel())
    c.expect(r <= best * (1 + 1e-6) + 1e-6 * np.linalg.norm(yn), "optimal", f"misfit {r} instead of {best}")
    c.expect(type(s) is float and type(o) is float, "optimal", "types")
    k = float(10.0 ** rng.integers(-3, 4))
    s2, o2 = post.fit_scale_bias(x * k, yn * k, prj)
    if np.linalg.cond(M / np.linalg.norm(M, axis=0)) < 100:
        c.close([s2, o2 / k / unit], [s, o / unit], "invariance", "data in other units", rtol=1e-4, scale=3 + abs(s) + abs(o) / unit)
    c.monitors["invariance"] += 1
    c.same(x, x0, "untouched", "image")
    c.same(y, y0, "untouched", "data")


if __name__ == "__main__":
    raise SystemExit(check.main())
