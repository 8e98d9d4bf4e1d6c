"""C17 - ghost imaging and ghost tomography projectors."""
import contextlib

import matplotlib

matplotlib.use("Agg")
import numpy as np

from corrct import solvers as S
from corrct import struct_illum as si
from corrct.projectors import ProjectorMatrix, ProjectorUncorrected
from rtm.core import Check
from rtm.ops import eps_of, monitor_linear, monitor_pure

check = Check(
    "C17",
    "Random mask collections (1D/2D masks, stacked masks, signed values, encoding-decoding, QR-decomposed, generated), random images and stacks of images, tomographic projectors given "
    "by matrices or by the real projector; oracle: explicit mask matrices. Non-trivial when more than one mask is involved.",
    scale=(9, 1),
)


def collection(c, dims=None, hi=7, signed=None, mismatch=None, lo_pix=1):
    rng = c.rng
    dims = int(rng.integers(1, 3)) if dims is None else dims
    fov = tuple(int(x) for x in rng.integers(lo_pix, hi, dims))
    stack = tuple(int(x) for x in rng.integers(1, 9, 1 if rng.random() < 0.7 else 2))
    lo = -1 if (rng.random() < 0.4 if signed is None else signed) else 0
    dt = np.float32 if rng.random() < 0.3 else np.float64
    enc = rng.uniform(lo, 1, stack + fov).astype(dt)
    dec = rng.uniform(lo, 1, stack + fov).astype(dt) if (rng.random() < 0.4 if mismatch is None else mismatch) else None
    mc = si.MaskCollection(enc, dec, mask_dims=dims)
    c.describe(dims=dims, fov=fov, stack=stack, signed=lo < 0, mismatch=dec is not None, dtype=str(np.dtype(dt)))
    c.trivial = mc.num_buckets < 2
    n = mc.num_buckets
    E = enc.reshape(n, -1).astype(float)
    return mc, E, (E if dec is None else dec.reshape(n, -1).astype(float)), fov, dt


def backend(rng):
    return dict(backend=str(rng.choice(["numpy", "NumPy", "torch", "torch:cuda:0"]))) if rng.random() < 0.7 else {}


@check.family("matrix", 80, 1600, ["fp", "bp", "linear", "pure-input", "pure-repeat", "sums", "shapes", "untouched"])
def matrix(c):
    rng = c.rng
    mc, E, D, fov, dt = collection(c)
    e0, d0 = mc.masks_enc.copy(), mc.masks_dec.copy()
    arg = mc if mc.mask_dims == 1 or mc.masks_dec is not mc.masks_enc or rng.random() < 0.5 else mc.masks_enc
    p = si.ProjectorGhostImaging(arg, **backend(rng))
    tol = eps_of(e0)
    n = len(E)
    c.expect(tuple(p.vol_shape) == fov and tuple(p.prj_shape) == (n,), "shapes", f"{p.vol_shape} {p.prj_shape}")
    st = [(), (1,), (3,), (2, 2)][int(rng.integers(4))]
    c.describe(images=st)
    x = rng.uniform(-1, 1, st + fov).astype(dt)
    b = rng.uniform(-1, 1, st + (n,)).astype(dt)
    fx = monitor_pure(c, p.fp, x)
    by = monitor_pure(c, p.bp, b)
    c.close(fx, (x.reshape(st + (-1,)).astype(float) @ E.T), "fp", "buckets", rtol=tol, scale=np.abs(E).sum(1).max())
    c.close(by, (b.astype(float) @ D).reshape(st + fov), "bp", "back-projection", rtol=tol, scale=np.abs(D).sum(0).max())
    monitor_linear(c, p.fp, lambda: rng.uniform(-1, 1, fov).astype(dt), tol)
    monitor_linear(c, p.bp, lambda: rng.uniform(-1, 1, n).astype(dt), tol)
    c.close(p.col_sum, np.abs(D).sum(0).reshape(fov), "sums", "col_sum", rtol=tol)
    c.close(np.ravel(p.row_sum), np.sqrt(np.abs(E * D)).sum(1), "sums", "row_sum", rtol=tol)
    c.same(mc.masks_enc, e0, "untouched", "encoding masks")
    c.same(mc.masks_dec, d0, "untouched", "decoding masks")


@check.family("operator", 50, 1000, ["matvec", "transpose", "absolute", "original", "explicit", "refused"])
def operator(c):
    rng = c.rng
    mc, E, D, fov, dt = collection(c)
    p = si.ProjectorGhostImaging(mc, **backend(rng))
    tol = eps_of(mc.masks_enc)
    n, npix = E.shape
    e0, d0 = mc.masks_enc.copy(), mc.masks_dec.copy()
    c.expect(tuple(p.shape) == (n, npix), "explicit", f"operator shape {p.shape}")
    x, b = rng.uniform(-1, 1, npix).astype(dt), rng.uniform(-1, 1, n).astype(dt)
    sx, sb = np.abs(E).sum(1).max(), np.abs(D).sum(0).max()
    c.close(p @ x, E @ x, "matvec", "p @ x", rtol=tol, scale=sx)
    c.close(np.ravel(p.T @ b), D.T @ b, "transpose", "p.T @ b", rtol=tol, scale=sb)
    c.close(np.ravel(p(x.reshape(fov))), E @ x, "matvec", "p(image)", rtol=tol, scale=sx)
    c.close(np.asarray(p.T(b)).ravel(), D.T @ b, "transpose", "p.T(buckets)", rtol=tol, scale=sb)
    if mc.masks_dec is mc.masks_enc:
        c.close(p.explicit().reshape(n, npix), E, "explicit", "explicit matrix", rtol=max(tol, 1e-6))
    a = p.absolute()
    c.close(a.fp(x.reshape(fov)), np.abs(E) @ x, "absolute", "fp of the absolute operator", rtol=tol, scale=sx)
    c.close(np.ravel(a.bp(b)), np.abs(D).T @ b, "absolute", "bp of the absolute operator", rtol=tol, scale=sb)
    c.expect(np.all(np.asarray(a.mc.masks_enc) >= 0) and np.all(np.asarray(a.mc.masks_dec) >= 0), "absolute", "negative masks")
    c.close(p @ x, E @ x, "original", "original operator after absolute()", rtol=tol, scale=sx)
    c.close(np.ravel(p.bp(b)), D.T @ b, "original", "original operator after absolute()", rtol=tol, scale=sb)
    c.same(mc.masks_enc, e0, "original", "encoding masks after absolute()")
    c.same(mc.masks_dec, d0, "original", "decoding masks after absolute()")
    if n <= 40 and np.linalg.cond(E) < 30:
        img = si.ProjectorGhostImaging(mc, backend="numpy").fbp(b)
        img2 = p.fbp(b)
        c.close(np.ravel(img2), np.linalg.pinv(E) @ b, "original", "fbp after absolute()", rtol=5e-2 if mc.masks_enc.dtype == np.float32 else 1e-5)
        c.close(np.ravel(img), np.ravel(img2), "original", "fbp of a new projector on the same masks", rtol=5e-2 if mc.masks_enc.dtype == np.float32 else 1e-5)
    try:
        si.ProjectorGhostImaging(mc, backend="astra")
        c.expect(False, "refused", "unknown backend accepted")
    except ValueError:
        c.expect(True, "refused")


@check.family("fbp", 60, 1200, ["least-squares", "exact", "correlation", "scaling", "untouched"])
def fbp(c):
    rng = c.rng
    mc, E, D, fov, dt = collection(c, hi=5)
    p = si.ProjectorGhostImaging(mc, backend="numpy")
    n, npix = E.shape
    b = rng.uniform(-1, 1, n)
    b0 = b.copy()
    s = np.linalg.svd(E, compute_uv=False)
    if s[-1] < 1e-2 * s[0]:
        c.event("ill-conditioned")
    lst = rng.random() < 0.7
    img = p.fbp(b, use_lstsq=lst)
    c.expect(img.shape == fov, "least-squares", f"shape {img.shape}")
    tol = (2e-4 if dt == np.float32 else 1e-8) * (s[0] / s[-1]) ** 2
    if tol < 0.05:
        if lst or mc.masks_dec is mc.masks_enc:
            ref = np.linalg.pinv(E) @ b
            c.close(img.ravel(), ref, "least-squares", "minimum-norm least squares image", rtol=tol)
    if not lst and mc.masks_dec is not mc.masks_enc:
        c.close(img.ravel(), D.T @ b, "correlation", "correlation with the decoding masks", rtol=eps_of(mc.masks_enc), scale=np.abs(D).sum(0).max())
    if n >= npix and tol < 0.05:
        x = rng.uniform(0, 1, fov)
        c.close(p.fbp(p.fp(x)), x, "exact", "image from its complete buckets", rtol=tol)
    c.same(b, b0, "untouched", "buckets")
    # scaling: mean kept, everything else divided by the sampling ratio
    st = [(), (2,)][int(rng.integers(2))]
    y = rng.uniform(-1, 1, st + fov)
    if rng.random() < 0.3:
        y = y.astype(np.float32)
    y0 = y.copy()
    got = p.adjust_sampling_scaling(y)
    ax = tuple(range(-len(fov), 0))
    mean = y0.astype(float).mean(axis=ax, keepdims=True)
    c.close(got, mean + (y0 - mean) * npix / n, "scaling", "scaled image", rtol=eps_of(y), scale=(1 + npix / n))
    c.same(y, y0, "untouched", "image")
    i1, i2 = p.fbp(b, lst), p.fbp(b, lst, adjust_scaling=True)
    m = i1.mean()
    c.close(i2, m + (i1 - m) * npix / n, "scaling", "fbp(adjust_scaling=True)", rtol=1e-4 if dt == np.float32 else 1e-9, scale=np.abs(i1).max() * (1 + npix / n) + 1e-12)


@check.family("solvers", 16, 300, ["recover"])
def solvers(c):
    """Iterative solvers drive the projector: consistent complete data are recovered."""
    rng = c.rng
    fov = tuple(int(x) for x in rng.integers(2, 4, 2))
    npix = int(np.prod(fov))
    n = npix + int(rng.integers(1, 6))
    M = rng.uniform(0, 1, (n, npix))
    while np.linalg.cond(M) > 12:
        M[:npix] += 0.5 * np.eye(npix)
    c.describe(fov=fov, masks=n, cond=float(np.linalg.cond(M)))
    p = si.ProjectorGhostImaging(M.reshape((n,) + fov), backend="numpy")
    x = rng.uniform(0.2, 1, fov)
    b = p.fp(x)
    for sol, it, tol in [(S.PDHG(), 6000, 2e-2), (S.SIRT(), 6000, 2e-2)]:
        rec, _ = sol(p, b, iterations=it)
        c.close(np.asarray(rec).reshape(fov), x, "recover", f"{type(sol).__name__} after {it} iterations", rtol=tol)


def tomo(c):
    rng = c.rng
    three = rng.random() < 0.4
    nu, nv, nw = int(rng.integers(2, 6)), int(rng.integers(2, 4)), int(rng.integers(1, 6))
    if rng.random() < 0.6:
        vol = tuple(int(x) for x in rng.integers(2, 5, 3 if three else 2))
        prj = (nv, nw, nu) if three else (nw, nu)
        A = rng.uniform(-1, 1, (int(np.prod(prj)), int(np.prod(vol))))
        tp = ProjectorMatrix(A, vol, prj)
        kind = "matrix"
    else:
        three = False
        vol, prj = (nu, nu), (nw, nu)
        tp = ProjectorUncorrected(vol, np.sort(rng.uniform(0, np.pi, nw)))
        kind = "projector"
    fov = (nv, nu) if three else (nu,)
    nb = int(rng.integers(1, 8))
    enc = rng.uniform(-1, 1, (nb,) + fov)
    dec = rng.uniform(-1, 1, (nb,) + fov) if rng.random() < 0.4 else None
    mc = si.MaskCollection(enc, dec, mask_dims=len(fov))
    c.describe(kind=kind, vol=vol, prj=prj, masks=nb, mismatch=dec is not None)
    c.trivial = nb < 2
    return tp, mc, enc, (enc if dec is None else dec), vol, prj, fov, nb, nw, kind


@check.family("tomography", 50, 1000, ["shapes", "fp", "bp", "operator", "refused", "pure-input", "pure-repeat"])
def tomography(c):
    rng = c.rng
    tp, mc, enc, dec, vol, prj, fov, nb, nw, kind = tomo(c)
    with tp if kind == "projector" else contextlib.nullcontext():
        p = si.ProjectorGhostTomography(mc, tp, **backend(rng))
        c.expect(tuple(p.vol_shape) == vol and tuple(p.prj_shape) == (nw, nb), "shapes", f"{p.vol_shape} {p.prj_shape}")
        x = rng.uniform(0, 1, vol).astype(np.float32)
        got = monitor_pure(c, p.fp, x)
        s = np.asarray(tp.fp(x), float)
        want = np.zeros((nw, nb))
        for w in range(nw):
            for k in range(nb):
                want[w, k] = np.sum(enc[k] * s[..., w, :])
        c.close(got, want, "fp", "buckets per projection and mask", rtol=1e-5, scale=np.abs(s).sum(axis=(0, -1)).max() if s.ndim == 3 else np.abs(s).sum(-1).max())
        b = rng.uniform(-1, 1, (nw, nb)).astype(np.float32)
        got = monitor_pure(c, p.bp, b)
        im = np.zeros(prj)
        for w in range(nw):
            im[..., w, :] = np.tensordot(b[w].astype(float), dec, (0, 0))
        ref = np.asarray(tp.bp(im.astype(np.float32)), float)
        sc = np.abs(np.asarray(tp.bp(np.abs(im).astype(np.float32)))).max() + np.abs(ref).max()
        c.close(got, ref, "bp", "back-projected buckets", rtol=1e-4, scale=sc)
        c.close(np.ravel(p @ x.ravel()), want.ravel(), "operator", "p @ x", rtol=1e-5, scale=np.abs(want).max() + np.abs(s).sum())
        c.close(np.ravel(p.T @ b.ravel()), ref.ravel(), "operator", "p.T @ b", rtol=1e-4, scale=sc)
        bad = [fov[:-1] + (fov[-1] + 1,), (3,) + fov if len(fov) == 1 else fov[-1:]][int(rng.integers(2))]
        try:
            si.ProjectorGhostTomography(si.MaskCollection(np.ones((nb,) + bad), mask_dims=len(bad)), tp, backend="numpy")
            c.expect(False, "refused", f"masks of shape {bad} accepted for projections {prj}")
        except ValueError:
            c.expect(True, "refused")


@check.family("tomography-fbp", 16, 300, ["fbp"])
def tomography_fbp(c):
    """FBP: per-projection least squares of the buckets, followed by the FBP of the tomographic projector."""
    rng = c.rng
    nu, nw = int(rng.integers(4, 12)), int(rng.integers(2, 9))
    tp = ProjectorUncorrected((nu, nu), np.sort(rng.uniform(0, np.pi, nw)))
    nb = nu + int(rng.integers(-1, 5))
    M = rng.uniform(0, 1, (nb, nu))
    M[: min(nb, nu)] += np.eye(nb, nu)[: min(nb, nu)]
    c.describe(nu=nu, nw=nw, masks=nb, cond=float(np.linalg.cond(M)))
    with tp:
        p = si.ProjectorGhostTomography(si.MaskCollection(M, mask_dims=1), tp, backend="numpy")
        x = rng.uniform(0, 1, (nu, nu)).astype(np.float32)
        b = p.fp(x)
        b0 = b.copy()
        got = p.fbp(b)
        rows = (np.linalg.pinv(M) @ b0.T).T
        ref, _ = S.FBP()(tp, rows)
        c.close(got, ref, "fbp", "FBP of the least squares projections", rtol=1e-4 * max(1, np.linalg.cond(M)), scale=np.abs(ref).max())
        if nb >= nu:
            ref, _ = S.FBP()(tp, tp.fp(x))
            c.close(got, ref, "fbp", "FBP of the exact projections", rtol=1e-3 * max(1, np.linalg.cond(M)), scale=np.abs(ref).max())
        got = p.fbp(b, adjust_scaling=True)
        rows = rows.mean(axis=-1, keepdims=True) + (rows - rows.mean(axis=-1, keepdims=True)) * nu / nb
        ref, _ = S.FBP()(tp, rows)
        c.close(got, ref, "fbp", "FBP of the scaled projections", rtol=1e-4 * max(1, np.linalg.cond(M)), scale=np.abs(ref).max())
        c.same(b, b0, "fbp", "buckets were modified")


if __name__ == "__main__":
    raise SystemExit(check.main())
