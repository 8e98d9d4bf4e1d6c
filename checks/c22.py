"""C22 - alignment fits: displacements, peaks, parabolas, sinusoids, ellipses."""
import contextlib
import io

import matplotlib

matplotlib.use("Agg")
import numpy as np
import scipy.optimize as so

from corrct.alignment import fitting as F
from rtm.core import Check

check = Check(
    "C22",
    "Random parabolas, paraboloids, correlation images, displaced (integer and sub-pixel) images and volumes of 1-3 dimensions and every stacking axis, rotated and scaled images, sinusoids and "
    "conics. Oracles: the parameters the data was made from, normal equations, loops. Non-trivial when the displacement / curve is not degenerate.",
    scale=(2, 1),
)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s, np.errstate(all="ignore"):
        yield s


def raises(f, *a, **k):
    try:
        with quiet():
            f(*a, **k)
    except ValueError:
        return True
    return False


@check.family("parabola", 150, 4000, ["vertex", "fallback", "fit-info", "refused", "untouched"])
def parabola(c):
    rng = c.rng
    n = int(rng.integers(3, 9))
    log = rng.random() < 0.4
    dec = [2, 4, 6][int(rng.integers(3))]
    t = np.sort(rng.uniform(-3, 3, n)) + 0.2 * np.arange(n)
    kind = ["convex", "edge", "concave", "noise", "zero", "flat", "linear"][int(rng.choice(7, p=[0.4, 0.15, 0.1, 0.2, 0.05, 0.05, 0.05]))]
    a, b, v = rng.uniform(0.2, 3), float(rng.uniform(-2, 2)), float(rng.uniform(t[0], t[-1]))
    if kind == "edge":
        v = float(t[-1] + rng.uniform(0.1, 2)) if rng.random() < 0.5 else float(t[0] - rng.uniform(0.1, 2))
    y = {"convex": a * (t - v) ** 2 + b, "edge": a * (t - v) ** 2 + b, "concave": b - a * (t - v) ** 2, "noise": rng.standard_normal(n), "zero": np.zeros(n), "flat": np.full(n, b), "linear": a * t + b}[kind]
    x = 10.0**t if log else t
    desc = rng.random() < 0.3
    if desc:
        x, y, t = x[::-1].copy(), y[::-1].copy(), t[::-1].copy()
    if rng.random() < 0.3:
        x, y = list(x), list(y)
    c.describe(n=n, kind=kind, scale="log" if log else "linear", descending=desc, decimals=dec)
    x0, y0 = np.array(x), np.array(y)
    kw = dict(decimals=dec)
    if log or rng.random() < 0.5:
        kw["scale"] = "log" if log else "linear"
    with quiet():
        mx, my, info = F.fit_parabola_min(x, y, **kw)
    c.same(np.array(x), x0, "untouched", "parameter values")
    c.same(np.array(y), y0, "untouched", "function values")
    # independent three-point parabola
    i = int(np.argmin(y0))
    j = min(max(i, 1), n - 2)
    p, q = t[j - 1 : j + 2], y0[j - 1 : j + 2]
    d1, d2 = (q[1] - q[0]) / (p[1] - p[0]), (q[2] - q[1]) / (p[2] - p[1])
    A = (d2 - d1) / (p[2] - p[0])
    B = d1 - A * (p[0] + p[1])
    C = q[0] - B * p[0] - A * p[0] ** 2
    lo, hi = min(t), max(t)
    eps = 1e-7 * (1 + np.abs(q).max())
    if kind in ("flat", "linear"):  # the curvature is rounding noise: any point of the range
        c.trivial = True
        c.expect(np.isfinite(mx) and min(x0) <= mx <= max(x0), "fallback", f"{kind}: minimum at {mx}")
    elif kind == "zero" or A <= -eps:
        c.expect(mx == x0[i] and my == y0[i], "fallback", f"concave or degenerate: {mx}, {my} instead of {x0[i]}, {y0[i]}")
    elif A > eps:
        vx = -B / (2 * A)
        r = 0.5 * 10.0**-dec + 1e-6 * (1 + abs(vx))
        if lo + r < vx < hi - r:
            got = np.log10(mx) if log else mx
            c.expect(abs(got - vx) <= r, "vertex", f"vertex at {got} instead of {vx}")
            w = C - B**2 / (4 * A)
            c.expect(abs(my - w) <= 0.5 * 10.0**-dec + 1e-6 * (1 + abs(w) + abs(C)), "vertex", f"vertex value {my} instead of {w}")
            if kind == "convex":
                c.expect(abs(got - v) <= r and abs(my - b) <= 0.5 * 10.0**-dec + 1e-6 * (1 + abs(C)), "vertex", f"({got}, {my}) instead of ({v}, {b})")
            c.expect(info is not None, "fit-info", "no fit information")
            if info is not None:
                co, fx = info
                c.close(fx, p, "fit-info", "fitted points", rtol=1e-9)
                c.close(co[0] + co[1] * p + co[2] * p**2, q, "fit-info", "fitted values", rtol=1e-5, atol=1e-6 * (1 + np.abs(y0).max()))
        elif vx < lo - r or vx > hi + r:
            c.expect(mx == x0[i] and my == y0[i] and info is None, "fallback", f"vertex outside: {mx}, {my} instead of {x0[i]}, {y0[i]}")
    c.monitors["fallback"] += 1
    c.expect(raises(F.fit_parabola_min, x[:2], y[:2]), "refused", "two points")
    c.expect(raises(F.fit_parabola_min, x, y[:-1]), "refused", "different lengths")
    c.expect(raises(F.fit_parabola_min, x, y, scale="cubic"), "refused", "unknown scale")


@check.family("refine-1d", 120, 3000, ["vertex", "value", "refused", "columns"])
def refine_1d(c):
    rng = c.rng
    n = int(rng.integers(3, 8))
    m = int(rng.integers(0, 6))
    dec = int(rng.integers(1, 6))
    x = None if rng.random() < 0.4 else np.sort(rng.uniform(-4, 4, n)) + 0.3 * np.arange(n)
    t = np.arange(n) - (n - 1) / 2 if x is None else x
    k = max(m, 1)
    v = rng.uniform(t[0], t[-1], k)
    a, b = rng.uniform(0.2, 3, k), rng.uniform(-5, 5, k)
    out = rng.random() < 0.2
    if out:
        v[int(rng.integers(k))] = t[-1] + 0.5 if rng.random() < 0.5 else t[0] - 0.5
    c.describe(n=n, columns=m, decimals=dec, own_coordinates=x is None, outside=out)
    f = b - a * (t[:, None] - v) ** 2
    if m == 0:
        f, v, b = f[:, 0], v[0], b[0]
    kw = dict(decimals=dec) if x is None else dict(f_x=x if rng.random() < 0.7 else list(x), decimals=dec)
    f0 = f.copy()
    margin = 10.0**-dec
    if np.any(v <= t[0] - margin) or np.any(v >= t[-1] + margin):
        c.expect(raises(F.refine_max_position_1d, f, **kw), "refused", "maximum outside of the region")
    elif np.all((v > t[0] + margin) & (v < t[-1] - margin)):
        got = F.refine_max_position_1d(f, **kw)
        c.close(got, v, "vertex", "position", rtol=0, atol=0.5 * margin + 1e-7)
        got, val = F.refine_max_position_1d(f, return_vertex_val=True, **kw)
        c.close(got, v, "vertex", "position", rtol=0, atol=0.5 * margin + 1e-7)
        # the value is the one of the fitted parabola at the (rounded) vertex
        slack = 0.5 * margin * (1 + np.abs(a * v).max() * 2) + 1e-6
        c.close(val, b, "value", "value at the vertex", rtol=0, atol=slack)
        if m > 1:
            j = int(rng.integers(m))
            c.close(F.refine_max_position_1d(np.ascontiguousarray(f[:, j]), **kw), got[j], "columns", "column alone", rtol=0, atol=1.1 * margin)
    for k in ("value", "columns", "vertex"):
        c.monitors[k] += 1
    c.same(f, f0, "columns", "values untouched")
    c.expect(raises(F.refine_max_position_1d, np.ones((3, 3, 3))), "refused", "3D values")
    c.expect(raises(F.refine_max_position_1d, f, f_x=np.arange(n + 1.0)), "refused", "coordinates of another length")
    c.expect(raises(F.refine_max_position_1d, np.zeros(n)), "refused", "constant values have no maximum")
    c.expect(raises(F.refine_max_position_1d, np.arange(n) * 1.0), "refused", "a line has no maximum") if n == 3 else None


@check.family("refine-2d", 100, 2500, ["vertex", "refused"])
def refine_2d(c):
    rng = c.rng
    sh = [int(s) for s in rng.integers(3, 8, 2)]
    own = rng.random(2) < 0.5
    t = [np.arange(s) - (s - 1) / 2 if o else np.sort(rng.uniform(-3, 3, s)) + 0.4 * np.arange(s) for s, o in zip(sh, own)]
    v = np.array([rng.uniform(x[0], x[-1]) for x in t])
    L = np.array([[rng.uniform(0.5, 2), 0], [rng.uniform(-1, 1), rng.uniform(0.5, 2)]])
    H = L @ L.T
    c.describe(shape=sh, own=own.tolist())
    d = np.stack([q - w for q, w in zip(np.meshgrid(*t, indexing="ij"), v)])
    f = float(rng.uniform(-3, 3)) - np.einsum("iab,ij,jab->ab", d, H, d)
    kw = {}
    if not own[0]:
        kw["fy"] = t[0]
    if not own[1]:
        kw["fx"] = list(t[1])
    with quiet():
        got = F.refine_max_position_2d(f, **kw)
    c.close(got, v, "vertex", "position of the maximum", rtol=0, atol=1e-6 * (1 + np.abs(v).max()))
    w = v.copy()
    i = int(rng.integers(2))
    w[i] = t[i][-1] + 0.6
    d = np.stack([q - z for q, z in zip(np.meshgrid(*t, indexing="ij"), w)])
    c.expect(raises(F.refine_max_position_2d, -np.einsum("iab,ij,jab->ab", d, H, d), **kw), "refused", "maximum outside of the region")
    c.expect(raises(F.refine_max_position_2d, f[0]), "refused", "1D values")
    c.expect(raises(F.refine_max_position_2d, f, fy=np.arange(sh[0] + 1.0)), "refused", "vertical coordinates of another length")
    c.expect(raises(F.refine_max_position_2d, f, fx=np.arange(sh[1] + 1.0)), "refused", "horizontal coordinates of another length")


@check.family("peak-regions", 120, 3000, ["values", "coordinates", "nd"])
def peak_regions(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    r = int(rng.integers(0, 4))
    sh = tuple(int(s) for s in rng.integers(max(2, 2), 9, nd))
    cc = rng.standard_normal(sh)
    if rng.random() < 0.3:  # peak on the border: wraps around
        cc[tuple(0 if rng.random() < 0.5 else s - 1 for s in sh)] = 9.0
    co = [np.fft.fftfreq(s, 1 / s) for s in sh]
    c.describe(shape=sh, radius=r)
    p = np.unravel_index(np.argmax(cc), sh)
    idx = [np.array([(q + k) % s for k in range(-r, r + 1)]) for q, s in zip(p, sh)]
    v, x = F.extract_peak_region_nd(cc, peak_radius=r, cc_coords=co)
    c.same(v, cc[np.ix_(*idx)], "nd", "values of the region")
    for a, b, i in zip(x, co, idx):
        c.same(a, b[i], "nd", "coordinates of the region")
    v, x = F.extract_peak_region_nd(cc, peak_radius=r)
    c.expect(x is None, "nd", "coordinates without coordinates")
    if nd <= 2:
        ax = -1 if nd == 1 else int(rng.choice([-1, -2, 0, 1]))
        v, x = F.extract_peak_regions_1d(cc, axis=ax, peak_radius=r, cc_coords=co[ax])
        m = np.moveaxis(np.atleast_2d(cc), ax, 0)
        for j in range(m.shape[1]):
            i = [(int(np.argmax(m[:, j])) + k) % m.shape[0] for k in range(-r, r + 1)]
            c.same(v[:, j], m[i, j], "values", f"values of line {j}")
            c.same(x[:, j], co[ax][i], "coordinates", f"coordinates of line {j}")
        v2, x = F.extract_peak_regions_1d(cc, axis=ax, peak_radius=r)
        c.expect(x is None, "coordinates", "coordinates without coordinates")
        c.same(v2, v, "values", "values without coordinates")
    else:
        c.expect(raises(F.extract_peak_regions_1d, cc), "values", "3D correlations refused")
    c.monitors["coordinates"] += 1


def blobs(rng, sh, shift=None, n=5, width=(1.2, 2.2), room=0.3):
    """Smooth positive image; returns a function of the displacement."""
    pos = [np.array([rng.uniform(room * s, (1 - room) * (s - 1)) for s in sh]) for _ in range(n)]
    wid = [rng.uniform(*width) for _ in range(n)]
    amp = rng.uniform(0.5, 2, n)

    def img(d):
        g = np.meshgrid(*[np.arange(s) for s in sh], indexing="ij")
        return sum(a * np.exp(-sum((x - p - e) ** 2 for x, p, e in zip(g, q, d)) / (2 * w * w)) for a, q, w in zip(amp, pos, wid))

    return img


@check.family("lines", 70, 1500, ["sad", "sad-padded", "xc", "xc-padded", "sub-pixel", "untouched"])
def lines(c):
    rng = c.rng
    w, u = int(rng.integers(1, 6)), int(rng.integers(12, 34))
    p = rng.standard_normal((w, u)) + rng.uniform(-1, 3)
    s = rng.integers(-((u - 1) // 2), (u - 1) // 2 + 1, w)
    d = np.stack([np.roll(x, k) for x, k in zip(p, s)])
    c.describe(lines=w, size=u, shifts=s.tolist())
    p0, d0 = p.copy(), d.copy()
    R = int(np.abs(s).max() + rng.integers(1, 4))
    if 2 * R < u:
        norm = int(rng.integers(1, 3))
        got = F.fit_shifts_u_sad(d, p, search_range=R, error_norm=norm)
        c.close(got, s, "sad", f"integer shifts, norm {norm}", rtol=0, atol=0.011)
        # unlike lines (outliers, noise): the displacement with the smallest norm of the difference
        q = d + rng.standard_normal(d.shape) * rng.uniform(0, 1)
        q[rng.random(q.shape) < 0.1] += 10
        for nrm in (1, 2):
            cost = np.array([np.linalg.norm(q - np.roll(p, k, axis=-1), axis=-1, ord=nrm) for k in range(-R, R + 1)])
            got = F.fit_shifts_u_sad(q, p, search_range=R, error_norm=nrm, decimals=0)
            c.close(got, np.argmin(cost, axis=0) - R, "sad", f"smallest norm {nrm} of the difference", rtol=0, atol=0)
    axis = int(rng.choice([-2, -1, 0, 1]))
    rf = bool(rng.random() < 0.5)
    nf = bool(rng.random() < 0.5)
    D, P = (d, p) if axis in (-2, 0) else (d.T.copy(), p.T.copy())
    axis -= 2 if axis >= 0 else 0
    got = F.fit_shifts_vu_xc(D, P, use_rfft=rf, normalize_fourier=nf, stack_axis=axis)
    c.close(np.squeeze(got), np.squeeze(s), "xc", f"integer shifts, rfft={rf}, normalised={nf}, stack axis {axis}", rtol=0, atol=0.011)
    dec = F.fit_shifts_vu_xc(D, P, use_rfft=rf, normalize_fourier=nf, stack_axis=axis, decimals=0)
    c.close(np.squeeze(dec), np.squeeze(s), "xc", "integer precision", rtol=0, atol=0)
    # compact lines, not wrapping around
    k = u // 3
    q = np.zeros((w, u))
    q[:, k : u - k] = rng.uniform(0.2, 1, (w, u - 2 * k))
    t = rng.integers(-k, k + 1, w)
    e = np.stack([np.roll(x, z) for x, z in zip(q, t)])
    D, P = (e, q) if axis == -2 else (e.T.copy(), q.T.copy())
    kw = dict(pad_u=True, use_rfft=rf, stack_axis=axis)
    if rng.random() < 0.5:
        kw["margin"] = 1 if k > 1 and w > 2 else 0
        # the margin also masks the first and last lines only along transformed axes
    got = F.fit_shifts_vu_xc(D, P, **kw)
    c.close(np.squeeze(got), np.squeeze(t), "xc-padded", f"compact lines, padded, {kw}", rtol=0, atol=0.011)
    # a margin masks the borders of the projections, along the transformed axis only
    mg = int(rng.integers(1, max(u // 4, 2)))
    pm = p.copy()
    pm[:, :mg] = pm[:, u - mg :] = 0
    D, P, M = (x if axis == -2 else x.T.copy() for x in (d, p, pm))
    kw3 = dict(kw, decimals=0, pad_u=bool(rng.random() < 0.5), margin=mg)
    c.close(F.fit_shifts_vu_xc(D, P, **kw3), F.fit_shifts_vu_xc(D, M, **dict(kw3, margin=0)), "xc-padded", f"margin {mg}", rtol=0, atol=0)
    # compact lines moving from one end of the detector to the other
    k = max(u // 5, 2)
    q = np.zeros((w, u))
    q[:, :k] = rng.uniform(0.2, 1, (w, k))
    t = rng.integers(0, u - k + 1, w)
    e = np.stack([np.roll(x, z) for x, z in zip(q, t)])
    D, P = (e, q) if axis == -2 else (e.T.copy(), q.T.copy())
    c.close(np.squeeze(F.fit_shifts_vu_xc(D, P, **dict(kw, margin=0))), np.squeeze(t), "xc-padded", "across the detector, padded", rtol=0, atol=0.011)
    c.close(np.squeeze(F.fit_shifts_vu_xc(P, D, **dict(kw, margin=0))), -np.squeeze(t), "xc-padded", "across the detector, padded", rtol=0, atol=0.011)
    k = u // 3
    q = np.zeros((w, u))
    q[:, k : u - k] = rng.uniform(0.2, 1, (w, u - 2 * k))
    t = rng.integers(-k, k + 1, w)
    e = np.stack([np.roll(x, z) for x, z in zip(q, t)])
    R = int(np.abs(t).max() + 1)
    f = e.copy()
    f[:, [0, -1]] = 0
    if np.array_equal(f, e):
        got = F.fit_shifts_u_sad(e, q, search_range=R, pad_u=True)
        c.close(got, t, "sad-padded", "compact lines, padded", rtol=0, atol=0.011)
    # sub-pixel displacements
    u = int(rng.integers(28, 50))
    img = blobs(rng, (u,), n=2, width=(1.5, 2.5), room=0.4)
    h = rng.uniform(-3, 3, w)
    a, b = np.stack([img([0.0])] * w), np.stack([img([z]) for z in h])
    c.close(F.fit_shifts_vu_xc(b, a, pad_u=bool(rng.random() < 0.5)), h, "sub-pixel", "sub-pixel shifts (cross-correlation)", rtol=0, atol=0.12)
    c.close(F.fit_shifts_u_sad(b, a, search_range=5, error_norm=2), h, "sub-pixel", "sub-pixel shifts (differences)", rtol=0, atol=0.25)
    c.same(p, p0, "untouched", "projections")
    c.same(d, d0, "untouched", "data")
    for m in ("sad", "sad-padded"):
        c.monitors[m] += 1


@check.family("images", 70, 1500, ["circular", "padded", "sub-pixel", "stack", "untouched"])
def images(c):
    rng = c.rng
    n = int(rng.integers(1, 5))
    sh = tuple(int(x) for x in rng.integers(8, 24, 2))
    axis = int(rng.choice([-3, -2, -1]))
    rf, nf = bool(rng.random() < 0.5), bool(rng.random() < 0.4)
    one = rng.random() < 0.4
    P = rng.standard_normal((1 if one else n,) + sh) + rng.uniform(-1, 1)
    s = np.stack([rng.integers(-((k - 1) // 2), (k - 1) // 2 + 1, n) for k in sh])
    D = np.stack([np.roll(P[0 if one else i], s[:, i], axis=(0, 1)) for i in range(n)])
    c.describe(images=n, shape=sh, stack_axis=axis, rfft=rf, normalised=nf, single_reference=one)
    st = lambda x: np.ascontiguousarray(np.moveaxis(x, 0, axis + 3))
    d, p = st(D), st(P)
    d0, p0 = d.copy(), p.copy()
    kw = dict(use_rfft=rf, normalize_fourier=nf)
    if axis != -2 or rng.random() < 0.5:
        kw["stack_axis"] = axis
    got = F.fit_shifts_vu_xc(d, p, **kw)
    c.close(got, s, "circular", "integer shifts", rtol=0, atol=0.011)
    c.close(F.fit_shifts_vu_xc(d, p, decimals=0, **kw), s, "circular", "integer precision", rtol=0, atol=0)
    if n > 1:
        i = int(rng.integers(n))
        k = F.fit_shifts_vu_xc(st(D[i : i + 1]), st(P[:1] if one else P[i : i + 1]), **kw)
        c.close(k[:, 0], got[:, i], "stack", "image of the stack alone", rtol=0, atol=1e-9)
    c.monitors["stack"] += 1
    # compact images with margins and padding along u
    m = [k // 3 for k in sh]
    q = np.zeros((n,) + sh)
    q[:, m[0] : sh[0] - m[0], m[1] : sh[1] - m[1]] = rng.uniform(0.2, 1, (n, sh[0] - 2 * m[0], sh[1] - 2 * m[1]))
    t = np.stack([rng.integers(-k, k + 1, n) for k in m])
    e = np.stack([np.roll(x, z, axis=(0, 1)) for x, z in zip(q, t.T)])
    kw2 = dict(kw, pad_u=True, normalize_fourier=False, margin=int(rng.integers(0, min(m) + 1)))
    c.close(F.fit_shifts_vu_xc(st(e), st(q), **kw2), t, "padded", f"compact images {kw2}", rtol=0, atol=0.011)
    # a margin masks the borders of the projections, along both axes
    mg = int(rng.integers(1, min(sh) // 3 + 1))
    pm = np.zeros_like(P)
    pm[:, mg : sh[0] - mg, mg : sh[1] - mg] = P[:, mg : sh[0] - mg, mg : sh[1] - mg]
    kw3 = dict(kw2, decimals=0, margin=mg)
    c.close(F.fit_shifts_vu_xc(d, p, **kw3), F.fit_shifts_vu_xc(d, st(pm), **dict(kw3, margin=0)), "padded", f"margin {mg}", rtol=0, atol=0)
    # compact images moving from one end of the detector to the other, along u
    k = max(sh[1] // 5, 2)
    q = np.zeros((n,) + sh)
    q[:, m[0] : sh[0] - m[0], :k] = rng.uniform(0.2, 1, (n, sh[0] - 2 * m[0], k))
    t = np.stack([rng.integers(-m[0], m[0] + 1, n), rng.integers(0, sh[1] - k + 1, n)])
    e = np.stack([np.roll(x, z, axis=(0, 1)) for x, z in zip(q, t.T)])
    c.close(F.fit_shifts_vu_xc(st(e), st(q), **dict(kw2, margin=0)), t, "padded", "across the detector", rtol=0, atol=0.011)
    sh = tuple(int(x) for x in rng.integers(22, 34, 2))
    img = blobs(rng, sh, n=4, width=(1.5, 2.2), room=0.38)
    h = rng.uniform(-1.5, 1.5, (2, n))
    a, b = np.stack([img([0.0, 0.0])]), np.stack([img(z) for z in h.T])
    c.close(F.fit_shifts_vu_xc(st(b), st(a), **dict(kw2, margin=0)), h, "sub-pixel", "sub-pixel shifts", rtol=0, atol=0.35)
    c.same(d, d0, "untouched", "data")
    c.same(p, p0, "untouched", "projections")


@check.family("volumes", 60, 1200, ["circular", "padded", "untouched"])
def volumes(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    sh = tuple(int(x) for x in rng.integers(5, 14, nd))
    s = np.array([int(rng.integers(-((k - 1) // 2), (k - 1) // 2 + 1)) for k in sh])
    v = rng.standard_normal(sh) + 0.5
    r = np.roll(v, s, axis=tuple(range(nd)))
    kw = dict(use_rfft=bool(rng.random() < 0.5))
    if rng.random() < 0.5:
        kw["normalize_fourier"] = bool(rng.random() < 0.5)
    c.describe(shape=sh, shift=s.tolist(), **kw)
    v0, r0 = v.copy(), r.copy()
    c.close(F.fit_shifts_zyx_xc(r, v, **kw), s, "circular", "integer shift of a volume", rtol=0, atol=0.011)
    c.close(F.fit_shifts_zyx_xc(r, v, decimals=0, **kw), s, "circular", "integer precision", rtol=0, atol=0)
    m = [k // 3 for k in sh]
    q = np.zeros(sh)
    q[tuple(slice(k, z - k) for k, z in zip(m, sh))] = rng.uniform(0.2, 1, [z - 2 * k for k, z in zip(m, sh)])
    t = np.array([int(rng.integers(-k, k + 1)) for k in m])
    kw["normalize_fourier"] = False
    got = F.fit_shifts_zyx_xc(np.roll(q, t, axis=tuple(range(nd))), q, pad_zyx=True, **kw)
    c.close(got, t, "padded", "compact volume, padded", rtol=0, atol=0.011)
    # a compact object moving from one corner of the volume to the other
    m = [max(k // 4, 2) for k in sh]
    q = np.zeros(sh)
    q[tuple(slice(0, k) for k in m)] = rng.uniform(0.2, 1, m)
    t = np.array([int(rng.integers(0, z - k + 1)) for k, z in zip(m, sh)])
    e = np.roll(q, t, axis=tuple(range(nd)))
    c.close(F.fit_shifts_zyx_xc(e, q, pad_zyx=True, **kw), t, "padded", "across the volume, padded", rtol=0, atol=0.011)
    c.close(F.fit_shifts_zyx_xc(q, e, pad_zyx=True, **kw), -t, "padded", "across the volume, padded", rtol=0, atol=0.011)
    c.same(v, v0, "untouched", "volume")
    c.same(r, r0, "untouched", "reference")


@check.family("rotation-scale", 16, 160, ["rotation", "scale", "refused"])
def rotation_scale(c):
    """The phase correlation locks on the sampling grid for a few images: the median error over 7 pairs of images is judged."""
    rng = c.rng
    sh = tuple(int(x) for x in rng.integers(90, 200, 2))
    if rng.random() < 0.3:
        sh = (sh[0], sh[0])
    kw = {}
    if rng.random() < 0.3:
        kw["window_type"] = "tukey"
    if rng.random() < 0.2:
        kw["pad_mode"] = "constant"
    c.describe(shape=sh, **kw)
    k, ss = 10, 2
    g = np.stack(np.meshgrid(*[(np.arange(s * ss) + 0.5) / ss - 0.5 - (s - 1) / 2 for s in sh], indexing="ij"))
    ea, es = [], []
    for _ in range(7):
        ang = float(rng.uniform(5, 45) * rng.choice([-1, 1]))
        sc = float(rng.uniform(0.85, 1.2))
        pos, rad, amp = rng.uniform(-18, 18, (k, 2)), rng.uniform(2, 6, k), rng.uniform(0.5, 2, k)

        def img(M, t, z):
            o = sum(a * (((g - (M @ p + t)[:, None, None]) ** 2).sum(0) < (r * z) ** 2) for p, r, a in zip(pos, rad, amp))
            return o.reshape(sh[0], ss, sh[1], ss).mean((1, 3))

        th = np.deg2rad(ang)
        M = sc * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        a, b = img(np.eye(2), np.zeros(2), 1.0), img(M, rng.uniform(-3, 3, 2), sc)
        a0, b0 = a.copy(), b.copy()
        with quiet():
            got, gs = F.fit_image_rotation_and_scale(a, b, **kw)
        ea.append(float(got) - ang)
        es.append(float(gs) / sc - 1)
        c.same(a, a0, "rotation", "first image untouched")
        c.same(b, b0, "rotation", "second image untouched")
    c.expect(np.median(np.abs(ea)) < 1.0, "rotation", f"errors of the rotations {np.round(ea, 2)}")
    c.expect(np.median(np.abs(es)) < 0.03, "scale", f"errors of the scales {np.round(es, 3)}")
    c.expect(raises(F.fit_image_rotation_and_scale, a, b[1:]), "refused", "different shapes")


@check.family("camera-tilt", 25, 300, ["tilt", "center"])
def camera_tilt(c):
    rng = c.rng
    v, u = int(rng.integers(24, 60)), int(rng.integers(60, 100))
    t = float(rng.uniform(-4, 4))
    cor = float(rng.uniform(-5, 5))
    if rng.random() < 0.2:  # nothing to correct
        t, cor = 0.0, 0.0 if rng.random() < 0.5 else cor
    off, w = rng.uniform(3, 9) * rng.choice([-1, 1]), rng.uniform(2, 3)
    vv, uu = np.arange(v) - (v - 1) / 2, np.arange(u) - (u - 1) / 2
    line = cor + np.tan(np.deg2rad(t)) * vv

    def prj(sign):
        return np.exp(-((uu[None] - (line + sign * off)[:, None]) ** 2) / (2 * w * w)) + 0.6 * np.exp(-((uu[None] - (line - sign * 0.4 * off)[:, None]) ** 2) / (2 * w * w))

    kw = dict(fit_l1=bool(rng.random() < 0.5), pad_u=bool(rng.random() < 0.5))
    c.describe(shape=(v, u), tilt=round(t, 3), cor=round(cor, 2), **kw)
    with quiet():
        gc, gt = F.fit_camera_tilt_angle(prj(1), np.flip(prj(-1), axis=-1), **kw)
    c.expect(abs(abs(gt) - abs(t)) < 0.25 and (abs(t) < 0.3 or np.sign(gt) == -np.sign(t)), "tilt", f"tilt {gt} instead of {-t}")
    c.expect(abs(gc - cor) < 0.15, "center", f"center of rotation {gc} instead of {cor}")
    # lines that see something else: the absolute deviations are smaller with their fit than with least squares
    A, F2 = prj(1), np.flip(prj(-1), axis=-1)
    M = np.stack([vv, np.ones(v)], axis=-1)
    left = []
    for _ in range(4):
        bad = rng.permutation(v)[: max(v // 10, 1)]
        B = F2.copy()
        B[bad] = np.roll(B[bad], int(rng.integers(6, 12)) * rng.choice([-1, 1]), axis=-1)
        z = F.fit_shifts_vu_xc(A, B, pad_u=kw["pad_u"]) / 2
        ls = np.linalg.lstsq(M, z, rcond=None)[0]
        cost = lambda x: np.abs(M @ x - z).sum()
        with quiet():
            gc, gt = F.fit_camera_tilt_angle(A, B, **kw)
        got = np.array([-np.tan(np.deg2rad(gt)), gc])
        if kw["fit_l1"]:
            best = l1_optimum(M, z)
            c.expect(cost(got) <= cost(ls) * (1 + 1e-6) + 1e-9, "tilt", f"l1 cost {cost(got)} above the one of the least squares {cost(ls)}")
            left.append((cost(got) - best) / (cost(ls) - best))
        else:
            c.close(got, ls, "tilt", "least squares", rtol=1e-6, atol=1e-8)
    if left:
        c.expect(min(left) < 0.5, "tilt", f"fraction of the l1 excess of the least squares that is left: {np.round(left, 4)}")


@check.family("sinusoid", 60, 1200, ["curve", "bias", "l1", "values"])
def sinusoid(c):
    rng = c.rng
    n = int(rng.integers(6, 40))
    span = rng.choice([np.pi, 1.5 * np.pi, 2 * np.pi])
    th = np.sort(rng.uniform(0, span, n)) if rng.random() < 0.4 else np.linspace(0, span, n, endpoint=bool(rng.random() < 0.5))
    while np.ptp(th) < 0.7 * np.pi:
        th = np.linspace(0, span, n)
    a, p, b = float(rng.uniform(0, 10)), float(rng.uniform(-np.pi, np.pi)), float(rng.uniform(-5, 5))
    c.describe(n=n, span=round(float(span), 2), a=round(a, 2), p=round(p, 2), b=round(b, 2))
    y = a * np.sin(th + p) + b
    c.close(F.sinusoid(th, a, p, b), y, "values", "sinusoid", rtol=1e-12)
    with quiet():
        g = F.fit_sinusoid(th, y)
    c.close(g[0] * np.sin(th + g[1]) + g[2], y, "curve", "exact sinusoid", rtol=0, atol=1e-5 * (1 + a))
    c.close(g[2], b, "bias", "bias", rtol=0, atol=1e-4 * (1 + a + abs(b)))
    z = y + 0.3 * rng.standard_normal(n)
    M = np.stack([np.sin(th), np.cos(th), np.ones(n)], -1)
    ref = M @ np.linalg.lstsq(M, z, rcond=None)[0]
    with quiet():
        g = F.fit_sinusoid(th, z)
    got = g[0] * np.sin(th + g[1]) + g[2]
    c.expect(np.linalg.norm(got - z) <= np.linalg.norm(ref - z) * (1 + 1e-5) + 1e-7, "curve", f"not the least squares: {np.linalg.norm(got - z)} vs {np.linalg.norm(ref - z)}")
    # l1: not worse than the l2 one, and robust
    o = y.copy()
    o[rng.permutation(n)[: max(1, n // 10)]] += 5.0
    with quiet():
        g2, g1 = F.fit_sinusoid(th, o), F.fit_sinusoid(th, o, fit_l1=True)
    cost = lambda g: np.abs(g[0] * np.sin(th + g[1]) + g[2] - o).sum()
    c.expect(cost(g1) <= cost(g2) * (1 + 1e-6) + 1e-9, "l1", f"l1 cost {cost(g1)} above the one of the l2 fit {cost(g2)}")
    c.expect(n < 20 or abs(g1[2] - b) <= abs(g2[2] - b) + 0.3, "l1", f"l1 bias {g1[2]}, l2 bias {g2[2]}, true {b}")
    # ... and it goes (almost) all the way from the l2 fit to the l1 optimum, for some positions of the outliers
    if n >= 10:
        left = []
        for _ in range(5):
            o = y.copy()
            o[rng.permutation(n)[: max(1, n // 10)]] += 5.0
            with quiet():
                h2, h1 = F.fit_sinusoid(th, o), F.fit_sinusoid(th, o, fit_l1=True)
            best, cost = l1_optimum(M, o), lambda g: np.abs(g[0] * np.sin(th + g[1]) + g[2] - o).sum()
            left.append((cost(h1) - best) / (cost(h2) - best))
        c.expect(min(left) < 0.5, "l1", f"fraction of the l1 excess of the l2 fit that is left: {np.round(left, 4)}")


def l1_optimum(M, z):
    """Lowest l1 norm of ``M @ x - z`` (linear programming)."""
    n, k = M.shape
    I = np.eye(n)
    r = so.linprog(np.r_[np.zeros(k), np.ones(n)], A_ub=np.block([[M, -I], [-M, -I]]), b_ub=np.r_[z, -z], bounds=[(None, None)] * k + [(0, None)] * n)
    return r.fun


def conic_coefficients(par):
    """Coefficients of ``c0 u^2 - 2 c1 u - 2 c2 v + 2 c3 u v + c4 = -v^2``, from the parameters of an ellipse."""
    a, b, h, u, v = par
    c0, c3 = a / b, h / b
    return np.array([c0, c0 * u + c3 * v, c3 * u + v, c3, c0 * u * u + v * v + 2 * c3 * u * v - c0 / a])


def circle(rng, n, tilt=True):
    """Perspective projection (vu) of a circle, and of its centre."""
    D = rng.uniform(50, 200)
    e = np.linalg.qr(rng.standard_normal((3, 3)))[0] if tilt else np.eye(3)
    cen = np.array([rng.uniform(-8, 8), rng.uniform(-8, 8), D])
    r = rng.uniform(3, 12)
    w = np.arange(n) * 2 * np.pi / n + rng.uniform(0, 6)
    pts = cen[:, None] + r * (e[:, [0]] * np.cos(w) + e[:, [1]] * np.sin(w))
    return D * pts[:2] / pts[2], D * cen[:2] / cen[2]


@check.family("ellipse", 80, 2000, ["conic", "center", "extremes", "curve", "invariance", "l1", "untouched"])
def ellipse(c):
    rng = c.rng
    n = 2 * int(rng.integers(4, 30))
    cen = rng.uniform(-20, 20, 2)
    ax = rng.uniform(2, 15, 2)
    if np.ptp(ax) < 0.5:
        ax[0] += 1.0
    th = float(rng.uniform(0, np.pi))
    if rng.random() < 0.2:
        th = 0.0
    Q = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    H = Q @ np.diag(1 / ax**2) @ Q.T  # (u, v)
    w = np.arange(n) * 2 * np.pi / n + rng.uniform(0, 6)
    uv = cen[:, None] + Q @ (ax[:, None] * np.stack([np.cos(w), np.sin(w)]))
    vu = uv[::-1].copy()
    kw = dict(rescale=bool(rng.random() < 0.6), use_l1_norm=bool(rng.random() < 0.25))
    c.describe(points=n, axes=ax.round(2).tolist(), angle=round(th, 2), center=cen.round(2).tolist(), **kw)
    if rng.random() < 0.3:  # closed trajectory: the last point is the first one again
        vu = np.concatenate([vu, vu[:, :1]], axis=-1)
    p0 = vu.copy()
    with quiet():
        E = F.fit_ellipse(vu if rng.random() < 0.5 else vu.tolist(), **kw)
        par = F.fit_ellipse_parameters(vu, **kw)
    tol = 1e-5 if not kw["use_l1_norm"] else 1e-3
    c.close([E.a, E.b, E.c], [H[0, 0], H[1, 1], H[0, 1]], "conic", "a, b, c", rtol=tol, atol=tol * np.abs(H).max())
    c.close([E.u, E.v], cen, "conic", "center", rtol=0, atol=tol * 100)
    c.close(par, [E.a, E.b, E.c, E.u, E.v], "conic", "parameters", rtol=1e-9)
    c.close(E.parameters, [E.b, E.a, E.c, E.v, E.u], "conic", "parameters of the object", rtol=0)
    c.close(E.center_vu, cen[::-1], "center", "center of the ellipse", rtol=0, atol=0.0051 + tol * 100)
    du = np.sqrt(np.linalg.inv(H)[0, 0])
    c.close(E.extremes_u, [cen[0] - du, cen[0] + du], "extremes", "U extremes", rtol=0, atol=tol * 100)
    us = cen[0] + du * rng.uniform(-0.98, 0.98, 7)
    with quiet():
        v1, v2 = E(us)
    for v in (v1, v2):
        x = np.stack([us, v]) - cen[:, None]
        c.close(np.einsum("ik,ij,jk->k", x, H, x), np.ones(7), "curve", "points of the ellipse", rtol=0, atol=tol * 300)
    c.expect(np.all(v1 > v2), "curve", "top and bottom V")
    c.same(vu, p0, "untouched", "points")
    vu = vu[:, :n]
    # part of the ellipse, unevenly sampled
    wa = np.sort(rng.uniform(0, rng.uniform(2.5, 6.2), int(rng.integers(7, 40)))) + rng.uniform(0, 6)
    wa[0], wa[-1] = wa[0] - 0.3, wa[-1] + 0.3
    arc = (cen[:, None] + Q @ (ax[:, None] * np.stack([np.cos(wa), np.sin(wa)])))[::-1].copy()
    with quiet():
        pa = [F.fit_ellipse_parameters(arc, rescale=z) for z in (True, False)]
    for q, z in zip(pa, (True, False)):
        c.close(q[:3], [H[0, 0], H[1, 1], H[0, 1]], "conic", f"a, b, c from an arc (rescale={z})", rtol=1e-4, atol=1e-4 * np.abs(H).max())
        c.close(q[3:], cen, "conic", f"centre from an arc (rescale={z})", rtol=0, atol=1e-3)
    # projected circle
    pts, cc = circle(rng, n)
    flat = np.ptp(pts, axis=1).min() < 0.05 * np.ptp(pts, axis=1).max()
    s = np.linalg.svd(pts - pts.mean(1, keepdims=True))[1]
    if not flat and s[1] > 0.1 * s[0]:
        with quiet():
            g = F.fit_ellipse_center(pts, decimals=None, **kw)
            h = F.fit_ellipse_center(pts, decimals=3, rescale=kw["rescale"])
        c.close(g, cc, "center", "projected centre of the circle", rtol=0, atol=1e-6 if not kw["use_l1_norm"] else 1e-3)
        c.close(h, cc, "center", "rounded projected centre of the circle", rtol=0, atol=0.000501)
        t = rng.uniform(-30, 30, 2)
        with quiet():
            k = F.fit_ellipse_center(pts * 3 + t[:, None], decimals=None, rescale=kw["rescale"])
        c.close(k, 3 * cc + t, "invariance", "moved and scaled points", rtol=0, atol=1e-5)
    # l1 not worse than l2 on its own cost, with an outlier
    q = vu.copy()
    q[:, int(rng.integers(n))] += rng.uniform(1, 2, 2)
    with quiet():
        e2, e1 = (F.fit_ellipse_center(q, decimals=None, rescale=False, use_l1_norm=z) for z in (False, True))
    m = q.mean(1, keepdims=True)
    k = n // 2
    x, y = (q - m)[:, :k], (q - m)[:, k:]
    A, B = np.stack([(y - x)[1], -(y - x)[0]], -1), x[0] * y[1] - x[1] * y[0]
    cost = lambda e: np.abs(A @ (e - m[:, 0]) - B).sum()
    c.expect(cost(e1) <= cost(e2) * (1 + 1e-6), "l1", f"l1 cost {cost(e1)} above the l2 fit {cost(e2)}")
    if n >= 10:
        left = []
        for _ in range(5):
            q = (vu - vu.mean(1, keepdims=True)).copy()
            q[:, int(rng.integers(n))] *= 1.1
            V, z = np.stack([q[1] ** 2, -2 * q[1], -2 * q[0], 2 * q[0] * q[1], np.ones(n)], -1), -(q[0] ** 2)
            with quiet():
                h = [F.fit_ellipse_parameters(q, rescale=True, use_l1_norm=k) for k in (False, True)]
            best, (k2, k1) = l1_optimum(V, z), (np.abs(V @ conic_coefficients(p) - z).sum() for p in h)
            left.append((k1 - best) / (k2 - best))
        c.expect(min(left) < 0.5, "l1", f"fraction of the l1 excess of the l2 conic that is left: {np.round(left, 4)}")
    for k in ("invariance", "center"):
        c.monitors[k] += 1


if __name__ == "__main__":
    raise SystemExit(check.main())
