"""C02 - uncorrected projectors: forward/back-projection consistency between all their access paths."""
import numpy as np
import scipy.sparse as sps
import skimage.transform as skt

import corrct as cct
from corrct.models import VolumeGeometry
from rtm.core import Check
from rtm.ops import monitor_adjoint, monitor_integers, monitor_linear, monitor_pure, rand_dtype
from checks.c01 import full

check = Check(
    "C02",
    "Random square volumes (8-40 px), random unsorted/repeated angle sets, optional per-projection intensities and detector PSF, and "
    "random dense/sparse projection matrices; non-trivial when the projection of a non-zero volume was compared with an independent oracle.",
    scale=(15, 1),
)


def smooth(rng, n, dtype=np.float64):
    yy, xx = np.mgrid[:n, :n] - (n - 1) / 2
    v = np.zeros((n, n))
    for _ in range(int(rng.integers(1, 5))):
        r = rng.uniform(0, n / 2 * 0.45)
        t = rng.uniform(0, 2 * np.pi)
        s = rng.uniform(max(1.2, n * 0.05), n * 0.12 + 1.2)
        v += rng.uniform(0.3, 1) * np.exp(-((yy - r * np.sin(t)) ** 2 + (xx - r * np.cos(t)) ** 2) / (2 * s**2))
    v[yy**2 + xx**2 > (n / 2 - 1.5) ** 2] = 0
    return v.astype(dtype)


def angles_of(rng, lo=1, hi=20):
    n = int(rng.integers(lo, hi + 1))
    kind = int(rng.integers(0, 4))
    if kind == 0:
        return np.linspace(0, np.pi, n, endpoint=False)
    if kind == 1:
        return rng.uniform(-np.pi, 2 * np.pi, n)
    if kind == 2:
        return rng.permutation(np.linspace(0, 2 * np.pi, n, endpoint=False))
    a = rng.uniform(0, np.pi, n)
    if n > 2:
        a[1] = a[0]
    return a


def ref_fp(vol, ang):
    deg = np.rad2deg(np.array(ang, dtype=np.float32))
    return np.squeeze(skt.radon(vol.astype(float), [deg]))


def ref_bp(line, ang, n):
    deg = np.rad2deg(np.array(ang, dtype=np.float32))
    return skt.iradon(np.asarray(line, float)[:, None], [deg], circle=False, output_size=n, filter_name=None) * 2 / np.pi


def conv_edge(line, k):
    p = (len(k) - 1) // 2
    lp = np.pad(line, (p, p), mode="edge")
    return np.array([np.dot(k[::-1], lp[i : i + len(k)]) for i in range(len(line))])


@check.family("uncorrected", 60, 1200, ["fp-oracle", "bp-oracle", "fp-per-angle", "bp-sum-of-angles", "mass", "near-adjoint", "pure-input", "linear"])
def uncorrected(c):
    rng = c.rng
    n = int(rng.integers(8, 41))
    ang = angles_of(rng)
    dtype = rand_dtype(rng)
    inten = rng.uniform(0.2, 3, len(ang)) if rng.random() < 0.5 else None
    psf = None
    if rng.random() < 0.4:
        psf = np.abs(rng.standard_normal(int(1 + 2 * rng.integers(0, 3)))) + 0.05
        psf /= psf.sum()
    how = str(rng.choice(["list", "array", "geom", "volume"]))
    c.describe(n=n, num_angles=len(ang), angles=np.round(ang, 4).tolist()[:6], dtype=str(dtype), intensities=inten is not None, psf=None if psf is None else len(psf), geom=how)
    vg = {"list": [n, n], "array": np.array([n, n]), "geom": VolumeGeometry(np.array([n, n])), "volume": VolumeGeometry.get_default_from_volume(np.zeros((n, n)))}[how]
    psf_arg = psf
    if psf is not None and len(psf) == 1:
        psf_arg = psf.reshape(1)
        psf_arg = np.array([0.0, psf[0], 0.0])
        psf = psf_arg
    with cct.projectors.ProjectorUncorrected(vg, ang, prj_intensities=inten, psf=psf_arg) as p:
        tol = 1e-3
        vol = smooth(rng, n, dtype)
        v0 = vol.copy()
        sino = np.array(p.fp(vol))
        c.expect(np.array_equal(vol, v0), "pure-input", "fp modified the volume")
        c.expect(sino.shape == (len(ang), n) and tuple(p.prj_shape) == (len(ang), n) and tuple(p.vol_shape) == (n, n), "shapes", f"{sino.shape}")
        c.close(p.angles_rot_rad, ang, "angles", rtol=1e-5, atol=1e-6)
        want = np.array([ref_fp(vol, a) for a in ang])
        if psf is not None:
            want = np.array([conv_edge(w, psf) for w in want])
        if inten is not None:
            want = want * inten[:, None]
        c.close(sino, want, "fp-oracle", rtol=tol)
        c.same(np.array(p(vol)), sino, "call-is-fp")
        c.same(np.array(p.fp(vol)), sino, "fp-repeat")
        for ii in range(len(ang)):
            c.close(p.fp_angle(vol, ii), sino[ii], "fp-per-angle", f"angle {ii}", rtol=1e-10 if dtype == np.float64 else 1e-5, scale=np.abs(sino).max())
        if psf is None:
            tot = sino.sum(axis=1) / (1 if inten is None else inten)
            c.close(tot, np.full(len(ang), vol.sum()), "mass", "every projection carries the mass of the volume", rtol=0.03)
        y = rng.standard_normal(sino.shape).astype(dtype)
        y0 = y.copy()
        bp = np.array(p.bp(y))
        c.expect(np.array_equal(y, y0), "pure-input", "bp modified the data")
        c.same(np.array(p.T(y)), bp, "T-is-bp")
        yi = y if inten is None else y * inten[:, None]
        per = [ref_bp(yi[ii], a, n) for ii, a in enumerate(ang)]
        c.close(bp, np.sum(per, axis=0), "bp-oracle", rtol=tol)
        s = np.zeros((n, n))
        for ii in range(len(ang)):
            b = p.bp_angle(y[ii], ii)
            s = s + b
            c.close(b, per[ii], "bp-per-angle", f"angle {ii}", rtol=tol)
        c.expect(np.array_equal(y, y0), "pure-input", "bp_angle modified the data")
        c.close(s, bp, "bp-sum-of-angles", rtol=1e-10 if dtype == np.float64 else 1e-4)
        monitor_linear(c, p.fp, lambda: smooth(rng, n, dtype) - smooth(rng, n, dtype), 1e-4, "linear")
        monitor_linear(c, p.bp, lambda: rng.standard_normal(sino.shape).astype(dtype), 1e-4, "linear-bp")
        if n >= 16 and psf is None:
            v2 = smooth(rng, n)
            ys = np.array([ref_fp(v2, a) for a in ang])
            d1, d2 = float(np.sum(p.fp(vol.astype(float)) * ys)), float(np.sum(vol.astype(float) * p.bp(ys)))
            c.expect(abs(d1 - d2) <= 0.05 * abs(d1) + 1e-9, "near-adjoint", f"<Ax,y>={d1:.6g} <x,Aty>={d2:.6g}")
        c.close(p.matvec(vol.ravel()), sino.ravel(), "matvec", rtol=tol)
        c.close(p.rmatvec(y.ravel()), bp.ravel(), "rmatvec", rtol=tol)
        c.close(p.T.T(vol), sino, "T-T", rtol=tol)
        c.close(p.absolute()(vol), sino, "absolute-nonneg", "kernel is non-negative: |A| = A", rtol=tol)


@check.family("matrix", 100, 2500, ["linear", "adjoint", "oracle", "absolute", "view-T-T"])
def matrix(c):
    rng = c.rng
    vs = tuple(int(s) for s in rng.integers(1, 7, int(rng.integers(1, 4))))
    ps = tuple(int(s) for s in rng.integers(1, 7, int(rng.integers(1, 4))))
    kind = str(rng.choice(["dense", "csr", "csc", "csr_array"]))
    M = rng.standard_normal((int(np.prod(ps)), int(np.prod(vs))))
    if kind != "dense":
        M = M * (rng.random(M.shape) < 0.4)
    Ms = {"dense": lambda m: m, "csr": sps.csr_matrix, "csc": sps.csc_matrix, "csr_array": sps.csr_array}[kind](M)
    c.describe(vol=vs, prj=ps, kind=kind)
    with_A = cct.projectors.ProjectorMatrix(Ms, vs, ps)
    full(c, with_A, np.float64)
    x, y = rng.standard_normal(vs), rng.standard_normal(ps)
    c.close(with_A(x), (M @ x.ravel()).reshape(ps), "oracle", rtol=1e-10, atol=1e-12)
    c.close(with_A.fp(x), (M @ x.ravel()).reshape(ps), "oracle", rtol=1e-10, atol=1e-12)
    c.close(with_A.bp(y), (M.T @ y.ravel()).reshape(vs), "oracle", rtol=1e-10, atol=1e-12)
    B = with_A.absolute()
    c.close(B(np.abs(x)), (np.abs(M) @ np.abs(x).ravel()).reshape(ps), "absolute", rtol=1e-10, atol=1e-12)
    c.close(B.T(np.abs(y)), (np.abs(M).T @ np.abs(y).ravel()).reshape(vs), "absolute-T", rtol=1e-10, atol=1e-12)
    c.close(with_A.T.absolute()(np.abs(y)), (np.abs(M).T @ np.abs(y).ravel()).reshape(vs), "T-absolute", rtol=1e-10, atol=1e-12)


@check.family("types", 30, 600, ["integers", "precision"])
def types(c):
    """The values count, not their numeric type."""
    rng = c.rng
    n = int(rng.integers(6, 24))
    ang = angles_of(rng)
    inten = rng.uniform(0.2, 3, len(ang)) if rng.random() < 0.3 else None
    kind = [np.int64, np.int32, np.int16, np.uint16, np.uint8, bool][int(rng.integers(6))]
    c.describe(n=n, num_angles=len(ang), kind=np.dtype(kind).name, intensities=inten is not None)
    top = 2 if kind is bool else 30
    vol = rng.integers(0, top, (n, n)) * (np.hypot(*(np.mgrid[:n, :n] - (n - 1) / 2)) < n / 2 - 1)
    prj = rng.integers(0, top, (len(ang), n))
    with cct.projectors.ProjectorUncorrected([n, n], ang, prj_intensities=inten) as p:
        f, b = np.array(p.fp(vol.astype(float))), np.array(p.bp(prj.astype(float)))
        c.close(f if inten is None else f / inten[:, None], np.array([ref_fp(vol.astype(float), a) for a in ang]), "integers", "fp", rtol=1e-3)
        vi, pi = vol.astype(kind), prj.astype(kind)
        v0, p0 = vi.copy(), pi.copy()
        k = int(rng.integers(len(ang)))
        c.close(p.fp(vi), f, "integers", "fp", rtol=1e-4, scale=max(np.abs(f).max(), 1e-9))
        c.close(p.bp(pi), b, "integers", "bp", rtol=1e-4, scale=max(np.abs(b).max(), 1e-9))
        c.close(p.fp_angle(vi, k), f[k], "integers", "fp_angle", rtol=1e-4, scale=max(np.abs(f).max(), 1e-9))
        c.close(p.bp_angle(pi[k], k), p.bp_angle(prj[k].astype(float), k), "integers", "bp_angle", rtol=1e-4, scale=max(np.abs(b).max(), 1e-9))
        c.expect(np.array_equal(v0, vi) and np.array_equal(p0, pi), "integers", "data modified")
        c.close(p.fp(vol.astype(np.float32)), f, "precision", "fp", rtol=1e-4, scale=max(np.abs(f).max(), 1e-9))
        c.close(p.bp(prj.astype(np.float32)), b, "precision", "bp", rtol=1e-4, scale=max(np.abs(b).max(), 1e-9))


@check.family("rejects", 12, 60, ["rejects"])
def rejects(c):
    rng = c.rng
    n = int(rng.integers(6, 20))
    bad = str(rng.choice(["non-square", "1d", "4d", "unknown-backend", "psf-2d"]))
    c.describe(n=n, bad=bad)
    kw = dict(backend="skimage")
    vg = [n, n]
    if bad == "non-square":
        vg = [n, n + int(rng.integers(1, 5))]
    elif bad == "1d":
        vg = [n]
    elif bad == "4d":
        vg = [n] * 4
    elif bad == "unknown-backend":
        kw["backend"] = "nope"
    else:
        kw["psf"] = np.ones((3, 3))
    try:
        cct.projectors.ProjectorUncorrected(vg, [0.0, 1.0], **kw)
        ok = False
    except ValueError:
        ok = True
    c.expect(ok, "rejects", f"invalid configuration accepted: {bad}")


if __name__ == "__main__":
    raise SystemExit(check.main())
