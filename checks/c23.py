"""C23 - detector shifts, rotation axis, volume centering, cone-beam calibration, fiducial markers."""
import contextlib
import io
import json

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from scipy import ndimage

from corrct import models
from corrct.alignment import centering, cone_beam, markers, shifts
from corrct.alignment import fitting as F
from corrct.alignment.cone_beam import ConeBeamGeometry, FitConeBeamGeometry
from rtm.core import Check

check = Check(
    "C23",
    "Random displaced stacks of projections (2D, 3D, detectors; sorted, shuffled and decreasing angles; borders, masks, maximum shifts), moving objects around off-centre axes, volumes, "
    "cone-beam geometries, and marker images. Oracles: applied displacements, ray tracing of the geometry, normal equations. Non-trivial when something is displaced.",
    scale=(2, 1),
)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s, contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        yield s


def raises(f, *a, exc=ValueError, **k):
    try:
        with quiet():
            f(*a, **k)
    except exc:
        return True
    return False


def ls_sinusoid(th, y):
    M = np.stack([np.sin(th), np.cos(th), np.ones_like(th)], -1)
    k = np.linalg.lstsq(M, y, rcond=None)[0]
    return M @ k, k[2]


def angles_of(rng, n, span=np.pi):
    th = np.linspace(0, span, n, endpoint=bool(rng.random() < 0.5))
    if rng.random() < 0.3:
        th = th + rng.uniform(-0.3, 0.3) * span / n * rng.random(n)
    return th


@check.family("vertical", 40, 800, ["shifts", "maximum", "refused", "untouched"])
def vertical(c):
    rng = c.rng
    v, w, u = int(rng.integers(26, 44)), int(rng.integers(3, 9)), int(rng.integers(3, 8))
    m = int(rng.integers(5, 8))
    s = rng.integers(-m + 1, m, w)
    prof = np.zeros(v)
    prof[m + 2 : v - m - 2] = rng.uniform(0.3, 2, v - 2 * m - 4)
    # horizontal profiles of each angle with the same sum: vertical profiles are the same
    hor = rng.uniform(0.2, 1, (w, u))
    hor /= hor.sum(-1, keepdims=True)
    D = np.stack([np.roll(prof, k) for k in s], -1)[:, :, None] * hor
    c.describe(v=v, w=w, u=u, shifts=s.tolist())
    th = angles_of(rng, w)
    kw, call = {}, {}
    if rng.random() < 0.3:
        M = np.ones(D.shape)
        if rng.random() < 0.5:
            M[..., -1] = 0
        else:  # other pixels in each line, at least one valid
            M[rng.random(D.shape) < rng.uniform(0, 0.7)] = 0
            np.put_along_axis(M, rng.integers(0, u, D.shape[:2])[..., None], 1, axis=-1)
        D = np.stack([np.roll(prof, k) for k in s], -1)[:, :, None] * np.ones(u)
        D = np.where(M > 0, D, 77.0)
        kw["data_mask_dvwu"] = M if rng.random() < 0.5 else M.astype(bool)
    elif rng.random() < 0.3:
        b = int(rng.integers(1, 3)) if u > 5 else 1
        D = np.pad(np.stack([np.roll(prof, k) for k in s], -1)[:, :, None] * np.ones(u), [(0, 0), (0, 0), (b, b)], constant_values=33.0)
        D[:, :, :b] *= rng.random((v, w, b))
        kw["borders_dvwu"] = {"d": None, "v": None, "w": None, "u": b}
    dets = rng.random() < 0.2 and not kw
    if dets:
        n = rng.uniform(-1, 1, D.shape) * rng.choice([0, 0.5])
        D = np.stack([D + n, 2 * D - n])
    if rng.random() < 0.3:
        call["use_rfft"] = False
    if rng.random() < 0.3:
        call["normalize_fourier"] = False
    D0 = D.copy()
    with quiet():
        got = shifts.DetectorShiftsPRE(D, th, verbose=False, **kw).fit_v(**call)
    d = got + (s - s[w // 2])
    c.close(d - d.mean(), np.zeros(w), "shifts", "vertical shifts compensate the displacements", rtol=0, atol=0.03)
    c.expect(abs(got.mean()) < 0.011, "shifts", f"mean of the vertical shifts {got.mean()}")
    # a maximum: larger shifts are not applied
    mx = float(rng.integers(1, m)) + 0.5
    with quiet():
        got = shifts.DetectorShiftsPRE(D, th, verbose=False, max_shifts=mx, **kw).fit_v(**call)
    e = -(s - s[w // 2]) * 1.0
    e[np.abs(e) > mx] = 0
    c.close(got, e - e.mean(), "maximum", f"shifts beyond {mx} set to zero", rtol=0, atol=0.03)
    c.same(D, D0, "untouched", "data")
    c.expect(raises(shifts.DetectorShiftsPRE(D[v // 2] if not dets else D[0, v // 2], th, verbose=False).fit_v), "refused", "2D data")
    c.expect(raises(shifts.DetectorShiftsPRE, D, np.r_[th, 4.0]), "refused", "number of angles")


@check.family("horizontal", 60, 1200, ["shifts", "center", "maximum", "refused", "untouched"])
def horizontal(c):
    rng = c.rng
    w, u = int(rng.integers(8, 30)), int(rng.integers(40, 70))
    three, dets = rng.random() < 0.4, rng.random() < 0.2
    th = angles_of(rng, w, rng.choice([np.pi, 2 * np.pi]))
    order = ["sorted", "shuffled", "decreasing"][int(rng.integers(3))]
    if order == "shuffled":
        th = rng.permutation(th)
    elif order == "decreasing":
        th = th[::-1].copy()
    c0, a, p = float(rng.uniform(-4, 4)), float(rng.uniform(0, 7)), float(rng.uniform(0, 6))
    s = rng.uniform(-1.5, 1.5, w) * (rng.random(w) < 0.5)
    pos = c0 + a * np.sin(th + p) + s
    uu = np.arange(u) - (u - 1) / 2
    sino = np.exp(-((uu - pos[:, None]) ** 2) / (2 * rng.uniform(1.5, 2.5) ** 2))
    bg = None
    D = sino
    if rng.random() < 0.3:
        bg = float(rng.uniform(0.1, 2))
        D = D + bg
    if three:
        z = rng.uniform(0.5, 1.5, int(rng.integers(2, 6)))
        D = (sino[None] * (z / z.mean())[:, None, None]) + (bg or 0)
        if dets:
            n = rng.uniform(0, 1, D.shape)
            D = np.stack([D + n, D - n])
    if bg and rng.random() < 0.5:  # values below the background count as none
        D = D - np.where(sino < 1e-14, rng.uniform(0, 2, sino.shape), 0)
    l1 = bool(rng.random() < 0.2)
    c.describe(w=w, u=u, dims=D.ndim, order=order, center=round(c0, 2), background=bg, l1=l1)
    th32 = th.astype(np.float32).astype(float)
    D0 = D.copy()
    obj = shifts.DetectorShiftsPRE(D, th, verbose=False)
    with quiet():
        got, cor = obj.fit_u(background=bg, fit_l1=l1)
    ref = -(np.where(sino > 0, sino, 0) * uu).sum(-1) / sino.sum(-1)
    if not l1:
        line, b = ls_sinusoid(th32, ref)
        c.close(cor, b, "center", "center of rotation", rtol=0, atol=0.012)
        c.close(got, ref - line, "shifts", "horizontal shifts", rtol=0, atol=0.012)
        c.expect(isinstance(cor, float), "center", type(cor).__name__)
        if not s.any():
            c.close(cor, -c0, "center", "true center of rotation", rtol=0, atol=0.05)
            c.close(got, np.zeros(w), "shifts", "no shifts", rtol=0, atol=0.06)
        mx = float(rng.uniform(0.3, 1.2))
        if np.abs(np.abs(ref - line) - mx).min() > 0.01:
            with quiet():
                g, _ = shifts.DetectorShiftsPRE(D, th, verbose=False, max_shifts=mx).fit_u(background=bg)
            e = ref - line
            c.close(g, np.where(np.abs(e) > mx, 0, e), "maximum", "shifts beyond the maximum set to zero", rtol=0, atol=0.012)
    else:
        with quiet():
            g2, c2 = obj.fit_u(background=bg)
        c.expect(np.abs(got).sum() <= np.abs(g2).sum() + 0.011 * w, "shifts", f"l1 fit: {np.abs(got).sum()} above the one of l2: {np.abs(g2).sum()}")
    k = np.argmax(sino, -1)
    if np.sort(sino, -1)[:, -1].min() - np.sort(sino, -1)[:, -2].min() > -1:
        with quiet():
            got, cor = obj.fit_u(background=bg, method="max")
        srt = np.sort(sino, -1)
        if (srt[:, -1] - srt[:, -2]).min() > 1e-6:
            line, b = ls_sinusoid(th32, (u - 1) / 2 - k)
            c.close(cor, b, "center", "center of rotation (maximum)", rtol=0, atol=0.012)
            e = (u - 1) / 2 - k - line
            c.close(got, e, "shifts", "horizontal shifts (maximum)", rtol=0, atol=0.012)
    c.same(D, D0, "untouched", "data")
    c.expect(raises(obj.fit_u, method="median"), "refused", "unknown method")
    for k in ("maximum", "center", "shifts"):
        c.monitors[k] += 1


def texture(rng, sh, m):
    q = np.zeros(sh)
    q[tuple(slice(m, s - m) for s in sh)] = rng.uniform(0.2, 1, [s - 2 * m for s in sh])
    return q


@check.family("cross-correlation", 50, 1000, ["both", "find", "drifts", "detectors", "maximum", "refused", "untouched"])
def cross_correlation(c):
    rng = c.rng
    three = rng.random() < 0.6
    w = int(rng.integers(5, 14))
    sh = tuple(int(x) for x in rng.integers(20, 34, 1 + three))
    m = 7
    img = texture(rng, sh, m)
    step = rng.integers(-3, 4, (1 + three, w))
    step[:, 0] = 0
    pos = np.cumsum(step, -1)
    pos = np.clip(pos, -m + 1, m - 1)
    th = angles_of(rng, w)
    order = np.argsort(th) if rng.random() < 0.4 else rng.permutation(w)
    D = np.stack([np.roll(img, k, axis=tuple(range(img.ndim))) for k in pos.T], -2)
    D, th2 = D[..., order, :], th[order]
    pos2 = pos[:, order]
    c.describe(w=w, shape=sh, shuffled=bool(np.any(np.diff(order) < 0)))
    D0 = D.copy()
    obj = shifts.DetectorShiftsXC(D, th2, verbose=False)
    with quiet():
        got = obj.fit_vu()
    c.expect(got.shape == (1 + three, w), "both", f"shape {got.shape}")
    t32 = th2.astype(np.float32).astype(float)
    first = int(np.argmin(th2))
    rel = -(pos2 - pos2[:, [first]]) * 1.0
    line, _ = ls_sinusoid(t32, rel[-1])
    e = rel[-1] - line
    mx = np.array([s / 2 for s in D.shape])[[-3, -1] if three else [-1]]
    if np.abs(np.abs(e) - mx[-1]).min() > 0.05:
        c.close(got[-1], np.where(np.abs(e) > mx[-1], 0, e), "both", "horizontal shifts, minus the sinusoid", rtol=0, atol=0.03 + 0.01 * w)
    if three:
        c.close(got[0], rel[0] - rel[0].mean(), "both", "vertical shifts", rtol=0, atol=0.03 + 0.01 * w)
    i, j = rng.integers(0, w, 2)
    with quiet():
        f = obj.find_shifts_vu(D[..., [i], :], D[..., [j], :])
        # derivatives along u of the images
        g = obj.find_shifts_vu(D[..., [i], :], D[..., [j], :], use_derivative=True)
    d = (pos2[:, [i]] - pos2[:, [j]]) * 1.0
    lim = mx[:, None]
    d = np.where(np.abs(d) > lim, 0, d)
    # shifts of compact images might be ambiguous modulo the size
    amb = np.any(np.abs(pos2[:, [i]] - pos2[:, [j]]) >= np.array(sh)[:, None] / 2)
    if not amb:
        c.close(np.reshape(f, d.shape), d, "find", "shift between two images", rtol=0, atol=0.011)
        c.close(np.reshape(g, d.shape), d, "find", "shift between the derivatives of two images", rtol=0, atol=0.5)
        k = float(rng.integers(1, 6)) + 0.5
        with quiet():
            h = shifts.DetectorShiftsXC(D, th2, verbose=False, max_shifts=k).find_shifts_vu(D[..., [i], :], D[..., [j], :])
        c.close(np.reshape(h, d.shape), np.where(np.abs(d) > k, 0, d), "maximum", f"shifts beyond {k}", rtol=0, atol=0.011)
        if three:
            kk = np.array([1.5, 5.5])
            with quiet():
                h = shifts.DetectorShiftsXC(D, th2, verbose=False, max_shifts=kk).find_shifts_vu(D[..., [i], :], D[..., [j], :])
            c.close(h, np.where(np.abs(d) > kk[:, None], 0, d), "maximum", f"shifts beyond {kk}", rtol=0, atol=0.011)
    # drifts
    with quiet():
        f = obj.fit_vu_accum_drifts()
    e = (pos2[:, [0]] - pos2) * 1.0
    ok = np.all(np.abs(e) < np.array(sh)[:, None] / 2 - 1, axis=0)
    c.close(f[:, ok], e[:, ok], "drifts", "drifts with respect to the first image", rtol=0, atol=0.011)
    k = rng.integers(-2, 3, (1 + three, w))
    R = np.stack([np.roll(img, z, axis=tuple(range(img.ndim))) for z in k.T], -2)
    with quiet():
        f = obj.fit_vu_accum_drifts(R)
    e = (k - pos2) * 1.0
    ok = np.all(np.abs(e) < np.array(sh)[:, None] / 2 - 1, axis=0)
    c.close(f[:, ok], e[:, ok], "drifts", "drifts with respect to each reference", rtol=0, atol=0.011)
    c.expect(raises(obj.fit_vu_accum_drifts, R[..., :2, :]), "refused", "two references for more images")
    if three:
        # average over detectors of the shifts
        nd = int(rng.integers(2, 5))
        k2 = rng.integers(-2, 3, (nd, 2))
        A = np.stack([img] * nd)[:, :, None]
        B = np.stack([np.roll(img, -z, axis=(0, 1)) for z in k2])[:, :, None]
        X = np.repeat(A, w, axis=2)
        with quiet():
            f = shifts.DetectorShiftsXC(X, th2, verbose=False).find_shifts_vu(A, B)
        c.close(f, k2.mean(0)[:, None], "detectors", "average of the shifts of the detectors", rtol=0, atol=0.011)
    for k in ("detectors", "maximum", "find"):
        c.monitors[k] += 1
    c.same(D, D0, "untouched", "data")


@check.family("axis", 50, 1000, ["half-turn", "full-turn", "warning"])
def axis(c):
    rng = c.rng
    three = rng.random() < 0.5
    u = int(rng.integers(36, 60))
    n = int(rng.integers(3, 9))
    c0 = int(rng.integers(-8, 9)) / 2
    k = int(rng.integers(3, 7))
    rad = u // 2 - 6 - 5
    r, ph, wd, am = rng.uniform(0, rad * 0.6, k), rng.uniform(0, 6, k), rng.uniform(1.5, 2.5, k), rng.uniform(0.5, 2, k)
    zz = rng.uniform(6, 10, k)
    uu = np.arange(u) - (u - 1) / 2
    vv = np.arange(16 + int(rng.integers(0, 2))) * 1.0

    def prj(t):
        o = 0
        for R, P, W, A, Z in zip(r, ph, wd, am, zz):
            x = A * np.exp(-((uu - c0 - R * np.sin(t + P)) ** 2) / (2 * W * W))
            o = o + (np.exp(-((vv - Z) ** 2) / 8)[:, None] * x[None] if three else x)
        return o

    half = rng.random() < 0.5
    th0 = float(rng.uniform(-1, 1))
    th = th0 + (np.arange(n + 1) * np.pi / n if half else np.arange(2 * n) * np.pi / n)
    order = int(rng.integers(3))
    th = th if order == 0 else th[::-1].copy() if order == 1 else rng.permutation(th)
    c.describe(u=u, angles=len(th), half=half, center=c0, dims=2 + three, order=["increasing", "decreasing", "shuffled"][order])
    D = np.stack([prj(t) for t in th], -2)
    obj = shifts.DetectorShiftsXC(D, th, verbose=False)
    with quiet() as out:
        got = obj.fit_u_180()
    c.expect(np.ndim(got) == 0 and isinstance(got, float), "half-turn", f"not a scalar: {got!r}")
    c.close(got, -c0, "half-turn", "center of rotation", rtol=0, atol=0.011)
    c.expect("WARNING" not in out.getvalue(), "warning", out.getvalue())
    if not half:
        with quiet():
            got = obj.fit_u_360()
        c.expect(isinstance(got, float), "full-turn", f"not a scalar: {got!r}")
        c.close(got, -c0, "full-turn", "center of rotation", rtol=0, atol=0.011)
    else:
        keep = np.abs(th - th0 - np.pi) > 1e-3
        with quiet() as out:
            shifts.DetectorShiftsXC(D[..., keep, :], th[keep], verbose=False).fit_u_180()
        c.expect("WARNING" in out.getvalue(), "warning", "no opposite angle, and no warning")
    c.monitors["full-turn"] += 1


@check.family("centering", 50, 1000, ["com", "reference", "cross-correlation", "refused", "untouched"])
def centering_volumes(c):
    rng = c.rng
    three = rng.random() < 0.5
    nd = 2 + three
    sh = tuple(int(x) for x in rng.integers(7, 13, nd))
    w = int(rng.integers(2, 9))
    th = rng.uniform(-4, 4, w)
    geom = models.ProjectionGeometry.get_default_parallel(geom_type="3d" if three else "2d")
    V, R = rng.random(sh), rng.random(sh)
    prec = int(rng.integers(1, 5))
    c.describe(shape=sh, angles=w, precision=prec)
    rc = centering.RecenterVolume(geom, th, precision=prec)
    s0 = rng.uniform(-3, 3, (2, w) if three else (1, w))
    k = V.copy(), R.copy(), s0.copy()

    def com(x):
        g = np.meshgrid(*[np.arange(s) - (s - 1) / 2 for s in x.shape], indexing="ij")
        return np.array([(q * x).sum() / x.sum() for q in g])

    def project(d):  # zyx
        xyz = np.zeros(3)
        xyz[:nd] = d[::-1]
        out = []
        for t in th:
            g = geom.rotate(np.array([t]))
            row = [float(np.squeeze(g.det_u_xyz) @ xyz)]
            if three:
                row = [float(np.squeeze(g.det_v_xyz) @ xyz)] + row
            out.append(row)
        return np.array(out).T

    dest = rng.uniform(-2, 2, nd)
    t = 0.51 * 10.0**-prec + 1e-5
    got = rc.to_com(s0, V, dest if rng.random() < 0.5 else list(dest))
    c.close(got, s0 + project(dest - com(V)), "com", "moved to the centre of mass", rtol=0, atol=t)
    c.close(got, np.around(got, prec), "com", "precision", rtol=0, atol=1e-9)
    got = rc.as_reference(s0, V, R)
    c.close(got, s0 + project(com(R) - com(V)), "reference", "centre of mass of the reference", rtol=0, atol=t)
    s = np.array([int(rng.integers(-((z - 1) // 2), (z - 1) // 2 + 1)) for z in sh])
    got = rc.as_reference(s0, V, np.roll(V, s, axis=tuple(range(nd))), method="xc")
    c.close(got, s0 + project(s), "cross-correlation", "displacement of the reference", rtol=0, atol=t + 0.02)
    # sub-pixel displacements: the requested precision
    f = np.fft.ifftn(ndimage.fourier_shift(np.fft.fftn(V), rng.uniform(-2, 2, nd))).real
    d = F.fit_shifts_zyx_xc(f, V, decimals=prec)
    c.close(rc.as_reference(s0, V, f, method="xc"), s0 + project(d), "cross-correlation", "sub-pixel displacement", rtol=0, atol=t)
    for a, b, n in zip((V, R, s0), k, ("volume", "reference", "shifts")):
        c.same(a, b, "untouched", n)
    c.expect(raises(rc.as_reference, s0, V, R, method="mean"), "refused", "unknown method")


def vec(x):
    return np.asarray(x, dtype=float).reshape(3)


def trace(P, pts):
    """Detector coordinates (v, u) relative to the detector position of the points (n, 3)."""
    s, d, U, V = (vec(x) for x in (P.src_pos_xyz, P.det_pos_xyz, P.det_u_xyz, P.det_v_xyz))
    n = np.cross(U, V)
    ray = pts - s
    t = ((d - s) @ n) / (ray @ n)
    q = s + ray * t[:, None] - d
    return np.stack([q @ V, q @ U])


def random_geometry(rng, tilted=True, **kw):
    a = dict(theta_deg=rng.uniform(-8, 8), phi_deg=rng.uniform(-10, 10), eta_deg=rng.uniform(-4, 4)) if tilted else {}
    D = float(rng.uniform(300, 1000))
    return ConeBeamGeometry(**{k: float(v) for k, v in a.items()}, D_pix=D, R_pix=float(D * rng.uniform(0.2, 0.8)), v0_pix=float(rng.uniform(-20, 20)), u0_pix=float(rng.uniform(-20, 20)),
                            det_size_v_pix=int(rng.integers(20, 60)), det_size_u_pix=int(rng.integers(20, 60)), pix_size_um=float(rng.choice([0.0, 12.5])), **kw)


@check.family("cone-geometry", 80, 2000, ["geometry", "update", "tuning", "json", "volume", "refused", "untouched"])
def cone_geometry(c):
    rng = c.rng
    g = random_geometry(rng, tilted=bool(rng.random() < 0.8))
    c.describe(**{k: round(float(v), 3) for k, v in g.__dict__.items()})
    d0 = dict(g.__dict__)
    tr = bool(rng.random() < 0.5)
    P = g.get_prj_geom(translate_z_to_center=tr)
    s, d, U, V = (vec(x) for x in (P.src_pos_xyz, P.det_pos_xyz, P.det_u_xyz, P.det_v_xyz))
    n = np.cross(V, U)
    c.close([U @ U, V @ V, U @ V], [1, 1, 0], "geometry", "orthonormal detector", rtol=0, atol=1e-6)
    th, ph = np.deg2rad([g.theta_deg, g.phi_deg])
    e_n = np.array([np.cos(th) * np.cos(ph), -np.cos(th) * np.sin(ph), np.sin(th)])
    c.close(abs(n @ e_n), 1.0, "geometry", "detector normal", rtol=0, atol=1e-6)
    c.close(abs((d - s) @ e_n), g.D_pix, "geometry", "source to detector distance", rtol=1e-6)
    c.close(np.hypot(s[0], s[1]), g.R_pix, "geometry", "source to axis distance", rtol=1e-6)
    # the foot of the perpendicular from the source on the detector, along the detector axes before eta
    foot = s + ((d - s) @ e_n) * e_n - d
    al, be = np.array([-np.sin(ph), -np.cos(ph), 0]), np.array([-np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    c.close([foot @ al, foot @ be], [g.u0_pix, g.v0_pix], "geometry", "position of the source over the detector", rtol=0, atol=1e-4)
    # eta: angle of the detector axes around the normal
    ang = np.rad2deg(np.arctan2(U @ be, U @ al))
    c.close(abs(ang), abs(g.eta_deg), "geometry", "rotation around the normal", rtol=0, atol=1e-4)
    c.close(np.rad2deg(np.arctan2(-(V @ al), V @ be)), ang, "geometry", "same rotation of both axes", rtol=0, atol=1e-4)
    c.close(P.pix2vox_ratio, g.R_pix / g.D_pix * abs(np.cos(th) * np.cos(ph)), "geometry", "pixel to voxel ratio", rtol=1e-6)
    c.expect(list(P.det_shape_vu) == [g.det_size_v_pix, g.det_size_u_pix], "geometry", f"detector shape {P.det_shape_vu}")
    if tr:
        # the ray to the detector position meets the rotation axis plane x = 0 at z = 0
        t = -s[0] / (d - s)[0]
        c.close((s + t * (d - s))[2], 0.0, "geometry", "central ray at the centre of the volume", rtol=0, atol=1e-3)
    vg = g.get_vol_geom()
    c.expect(list(vg.shape_xyz) == [g.det_size_u_pix, g.det_size_u_pix, g.det_size_v_pix], "volume", f"volume shape {vg.shape_xyz}")
    up = int(rng.integers(2, 4))
    vg = g.get_vol_geom(up_sampling=up)
    c.expect(list(vg.shape_xyz) == [up * x for x in (g.det_size_u_pix, g.det_size_u_pix, g.det_size_v_pix)] and np.isclose(vg.vox_size, 1 / up), "volume", f"{vg.shape_xyz} {vg.vox_size}")
    f = ["theta_deg", "phi_deg", "eta_deg", "D_pix", "R_pix", "u0_pix", "v0_pix"][int(rng.integers(7))]
    val = float(rng.uniform(-3, 3))
    for rel in (True, False):
        h = g.update(f, val, is_relative=rel)
        for k, v in d0.items():
            want = v if k != f else round((v if rel else 0) + val, 3)
            c.close(getattr(h, k), want, "update", f"{k} after updating {f}", rtol=0, atol=1e-9)
    c.close(getattr(g.update(f, val, decimals=None), f), d0[f] + val, "update", "no rounding", rtol=1e-12)
    vs = rng.uniform(-2, 2, int(rng.integers(1, 5)))
    rel = bool(rng.random() < 0.5)
    for h, x in zip(g.get_tuning_params(f, vs if rng.random() < 0.5 else list(vs), is_relative=rel), vs):
        c.close(getattr(h, f), (d0[f] if rel else 0) + x, "tuning", f, rtol=0, atol=0.00051)
    c.expect(len(g.get_tuning_params(f, vs)) == len(vs), "tuning", "number of geometries")
    js = g.to_json()
    h = ConeBeamGeometry()
    h.from_json(js)
    c.expect(h == g, "json", f"{h} instead of {g}")
    c.expect(json.loads(js) == {"ConeBeamGeometry": d0}, "json", js)
    bad = json.dumps({"Other": d0})
    c.expect(raises(ConeBeamGeometry().from_json, bad), "refused", "JSON of another class")
    c.expect(raises(ConeBeamGeometry().from_json, json.dumps({"ConeBeamGeometry": d0, "Other": d0})), "refused", "JSON of two classes")
    st = str(g)
    c.expect(all(k in st for k in d0), "json", st)
    c.expect(g.__dict__ == d0, "untouched", f"{g.__dict__} instead of {d0}")


@check.family("calibration", 40, 800, ["exact", "tilted", "center", "measured", "same-side", "refit", "refused", "untouched"])
def calibration(c):
    rng = c.rng
    tilted = rng.random() < 0.4
    D, R = rng.uniform(800, 2000), rng.uniform(300, 500)
    phi, eta = (rng.uniform(-20, 20), rng.uniform(-3, 3)) if tilted else (0.0, 0.0)
    if rng.random() < 0.2 or abs(eta) < 0.15:  # rotations of less than 0.1 degrees are neglected
        eta = 0.0
    u0, v0 = rng.uniform(-10, 10, 2)
    g = ConeBeamGeometry(phi_deg=float(phi), eta_deg=float(eta), D_pix=float(D), R_pix=float(R), u0_pix=float(u0), v0_pix=float(v0))
    P = g.get_prj_geom(translate_z_to_center=False)
    r = float(rng.uniform(0.1, 0.2) * R)
    n = 2 * int(rng.integers(12, 40))
    w = np.arange(n) * 2 * np.pi / n + rng.uniform(0, 6)
    if rng.random() < 0.3:  # full turn, with the last position equal to the first one
        w = np.append(w, w[0])
    above = float(rng.uniform(0.08, 0.16) * R)
    z1, z2 = (-above, float(rng.uniform(0.05, 0.16) * R))
    circ = lambda z: trace(P, np.stack([r * np.cos(w), r * np.sin(w), 0 * w + z], -1))
    size = np.array([int(rng.integers(100, 600)), int(rng.integers(100, 600))])
    p1, p2 = circ(z1) + size[:, None] / 2, circ(z2) + size[:, None] / 2
    c.describe(tilted=tilted, D=round(D, 1), R=round(R, 1), u0=round(u0, 2), v0=round(v0, 2), phi=round(phi, 2), eta=round(eta, 2), points=n)
    k = p1.copy(), p2.copy()
    with quiet():
        fit = FitConeBeamGeometry(size, p1, p2, verbose=False, pix_size_um=10.0)
        o = fit.fit(r=r)
    if not tilted:
        c.close(o.D_pix, D, "exact", "source to detector distance", rtol=2e-4)
        c.close(o.R_pix, R, "exact", "source to axis distance", rtol=2e-4)
        c.close([o.u0_pix, o.v0_pix], [u0, v0], "exact", "source over the detector", rtol=0, atol=0.05)
        c.close([o.phi_deg, o.eta_deg], [0, 0], "exact", "angles", rtol=0, atol=0.02)
    else:
        c.close(o.D_pix, D, "tilted", "source to detector distance", rtol=1e-3)
        c.close(o.R_pix, R, "tilted", "source to axis distance", rtol=1e-3)
        c.close([o.u0_pix, o.v0_pix], [u0, v0], "tilted", "source over the detector", rtol=0, atol=0.3)
        c.close(o.eta_deg, eta, "tilted", "rotation around the normal", rtol=0, atol=0.03)
        c.close(o.phi_deg, phi, "tilted", "angle of the normal", rtol=0, atol=0.05)
    c.expect(o.det_size_v_pix == size[0] and o.det_size_u_pix == size[1] and o.pix_size_um == 10.0, "exact", "sizes")
    cen = trace(P, np.zeros((1, 3)))
    got = np.asarray(fit.prj_origin_vu).reshape(2, 1)
    c.close(got, cen, "center", "projected origin", rtol=0, atol=0.1 if not tilted else 0.3)
    # measured values
    ax = trace(P, np.array([[0, 0, z1], [0, 0, 0.0], [0, 0, z2]])) + size[:, None] / 2
    off = rng.uniform(-3, 3, 2) if rng.random() < 0.5 else np.zeros(2)
    ax[:, 1] += off  # the middle point only gives the origin
    cen = cen.reshape(2, 1) + off[:, None]
    with quiet():
        fit = FitConeBeamGeometry(size, p1, p2, points_axis=ax, verbose=False)
        o = fit.fit(r=r, meas_D_pix=D)
    c.close(o.D_pix, D, "measured", "measured distance", rtol=0)
    c.close(np.asarray(fit.prj_origin_vu).ravel(), cen.ravel(), "measured", "measured origin", rtol=0, atol=1e-6)
    c.close(o.eta_deg, eta, "measured", "rotation from the measured axis", rtol=0, atol=0.01)
    c.close(o.R_pix, R, "measured", "source to axis distance", rtol=1e-3 if tilted else 2e-4)
    c.same(p1, k[0], "untouched", "points")
    c.same(p2, k[1], "untouched", "points")
    c.expect(raises(lambda: FitConeBeamGeometry(size, p2, p1, verbose=False).fit(r=r)), "refused", "swapped ellipses")
    c.expect(raises(FitConeBeamGeometry, size, p1[0], p2, verbose=False), "refused", "1D points")
    c.expect(raises(FitConeBeamGeometry, size, p1, p2.T[:, :1].T if False else np.ones((3, 8)), verbose=False), "refused", "3D points")
    cen = cen - off[:, None]
    # both circles on the same side of the source
    y1, y2 = (-float(rng.uniform(0.12, 0.2) * R), -float(rng.uniform(0.03, 0.08) * R))
    q1, q2 = circ(y1) + size[:, None] / 2, circ(y2) + size[:, None] / 2
    with quiet():
        fit = FitConeBeamGeometry(size, q1, q2, verbose=False)
        o = fit.fit(r=r, e=-1)
    if not tilted:  # with tilts, the rounding of the fitted centers is amplified by the small distance between the ellipses
        c.close([o.D_pix, o.R_pix], [D, R], "same-side", "distances", rtol=2e-4)
        c.close([o.u0_pix, o.v0_pix], [u0, v0], "same-side", "source over the detector", rtol=0, atol=0.05)
        c.close([o.phi_deg, o.eta_deg], [0, 0], "same-side", "angles", rtol=0, atol=0.05)
        c.close(np.asarray(fit.prj_origin_vu).reshape(2, 1), cen, "same-side", "projected origin", rtol=0, atol=0.15)
    # a second fit with other values starts afresh
    first = {f: getattr(o, f) for f in o.__dict__}
    with quiet():
        o = fit.fit(r=2 * r, e=-1)
    want = {f: x * (2 if f == "R_pix" else 1) for f, x in first.items()}
    c.close(list(o.__dict__.values()), list(want.values()), "refit", "second fit of the same object", rtol=1e-6, atol=1e-9)
    for k in ("exact", "tilted"):
        c.monitors[k] += 1


class FakeProjector:
    """Stands in for the (absent) 3D projector: the matrix depends on the geometry like a quadratic model mismatch."""

    log = []

    def __init__(self, vol_geom, angles, prj_geom=None, **kw):
        self.args = (vol_geom, angles, prj_geom)
        FakeProjector.log.append(("create", self))

    def __enter__(self):
        FakeProjector.log.append(("enter", self))
        return self

    def __exit__(self, *a):
        FakeProjector.log.append(("exit", self))


@check.family("tuning", 20, 300, ["minimum", "order", "solver", "lifecycle", "untouched"])
def tuning(c):
    rng = c.rng
    g = random_geometry(rng)
    names = list(rng.permutation(["u0_pix", "v0_pix", "eta_deg", "phi_deg", "R_pix"])[: int(rng.integers(1, 4))])
    opt = {n: float(rng.uniform(-1, 1)) for n in names}
    pars = {n: np.linspace(-2, 2, int(rng.integers(3, 8))) + float(rng.uniform(-0.2, 0.2)) for n in names}
    curv = {n: float(rng.uniform(0.5, 2)) for n in names}
    c.describe(names=names, optimum=opt)
    FakeProjector.log = []
    calls = []
    target = {n: getattr(g, n) + opt[n] for n in names}
    seen = {}
    data = rng.random((3, 4, 5))
    mask = rng.random((3, 4, 5)) < 0.9 if rng.random() < 0.5 else None

    class Info:
        pass

    class FakeSolver:
        def __init__(self, **kw):
            calls.append(("solver", kw))

        def __call__(self, prj, b, iterations=None, b_mask=None, **kw):
            calls.append(("solve", prj, b, iterations, b_mask))
            i = Info()
            vg, an, pg = prj.args
            cur = prj.geom
            i.residuals = np.array([9.0, 1.0 + sum(curv[n] * (getattr(cur, n) - target[n]) ** 2 for n in names)])
            return np.zeros(3), i

    geoms = []
    orig = ConeBeamGeometry.get_prj_geom

    def spy(self, *a, **k):
        geoms.append(self)
        return orig(self, *a, **k)

    class Prj(FakeProjector):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.geom = geoms[-1]

    keep = cone_beam.ProjectorUncorrected, cone_beam.SIRT
    d0 = dict(g.__dict__)
    cone_beam.ProjectorUncorrected, cone_beam.SIRT = Prj, FakeSolver
    ConeBeamGeometry.get_prj_geom = spy
    try:
        with quiet():
            out = cone_beam.tune_acquisition_geometry(g, data, np.linspace(0, 6, 4), pars, data_mask=mask, verbose=False)
    finally:
        cone_beam.ProjectorUncorrected, cone_beam.SIRT = keep
        ConeBeamGeometry.get_prj_geom = orig
    for n in names:
        c.close(getattr(out, n), target[n], "minimum", f"tuned {n}", rtol=0, atol=0.0021)
    for k, v in d0.items():
        if k not in names:
            c.expect(getattr(out, k) == v, "minimum", f"{k} changed")
    # one reconstruction per value, in order, starting from the geometry with the previous parameters tuned
    c.expect(len(geoms) == sum(map(len, pars.values())), "order", f"{len(geoms)} reconstructions")
    i = 0
    for k, n in enumerate(names):
        for x in pars[n]:
            h = geoms[i]
            i += 1
            c.close(getattr(h, n), getattr(g, n) + x, "order", f"trial value of {n}", rtol=0, atol=0.0006)
            for m in names[:k]:
                c.close(getattr(h, m), target[m], "order", f"{m}, tuned earlier", rtol=0, atol=0.0021)
            for m in names[k + 1 :]:
                c.close(getattr(h, m), getattr(g, m), "order", f"{m}, tuned later", rtol=0, atol=1e-9)
    for x in calls:
        if x[0] == "solve":
            c.same(x[2], data, "solver", "data of the reconstruction")
            c.expect((x[4] is None) == (mask is None) and (mask is None or np.array_equal(x[4], mask)), "solver", "mask of the reconstruction")
    ev = [(a, id(b)) for a, b in FakeProjector.log]
    c.expect(all(ev[j][0] == "create" and ev[j + 1] == ("enter", ev[j][1]) and ev[j + 2] == ("exit", ev[j][1]) for j in range(0, len(ev), 3)), "lifecycle", "projectors not closed in order")
    c.expect(g.__dict__ == d0, "untouched", "initial geometry changed")
    c.event("reconstruction", len(geoms))


@check.family("markers", 40, 800, ["disk", "track", "stack-axis", "visualizer"])
def markers_tracking(c):
    rng = c.rng
    sh = tuple(int(x) for x in rng.integers(18, 34, 2))
    rad = float(rng.uniform(1.5, 4))
    ss = int(rng.choice([1, 3, 5, 7]))
    n = int(rng.integers(1, 6))
    c.describe(shape=sh, radius=round(rad, 2), super_sampling=ss, images=n)
    m = markers.create_marker_disk(sh, rad, super_sampling=ss, conv=False)
    g = np.stack(np.meshgrid(*[(np.arange(s * ss) - (ss - 1) / 2) / ss - s // 2 for s in sh], indexing="ij"))
    want = (np.sqrt((g**2).sum(0)) < rad - 1e-12).reshape(sh[0], ss, sh[1], ss).mean((1, 3))
    if np.abs(np.sqrt((g**2).sum(0)) - rad).min() > 1e-9:
        c.close(m, want, "disk", "super-sampled disk centred at half of the size", rtol=0, atol=1e-9)
    c.expect(m.shape == sh, "disk", f"shape {m.shape}")
    mc = markers.create_marker_disk(sh, rad, super_sampling=ss)
    c.expect(mc.shape == sh and np.unravel_index(np.argmax(mc), sh) == tuple(s // 2 for s in sh), "disk", f"peak at {np.unravel_index(np.argmax(mc), sh)} for {sh}")
    # self convolution of the (compact) disk
    f = np.zeros(tuple(3 * s for s in sh))
    f[sh[0] : 2 * sh[0], sh[1] : 2 * sh[1]] = m
    F2 = np.fft.fft2(np.fft.ifftshift(np.roll(f, [f.shape[i] // 2 - sh[i] - sh[i] // 2 for i in range(2)], axis=(0, 1))))
    cv = np.fft.fftshift(np.fft.ifft2(F2 * F2).real)
    o = [f.shape[i] // 2 - sh[i] // 2 for i in range(2)]
    c.close(mc, cv[o[0] : o[0] + sh[0], o[1] : o[1] + sh[1]], "disk", "convolution with itself", rtol=0, atol=1e-6 * max(1.0, mc.max()))
    # tracking: integer positions are exact
    r = int(np.ceil(2 * rad)) + 1
    pos = np.stack([rng.integers(min(r, s // 2), max(s - r, s // 2 + 1), n) for s in sh])
    axis = int(rng.choice([-3, -2, -1]))
    use = m if rng.random() < 0.5 else mc
    st = np.stack([np.roll(use, p - np.array([s // 2 for s in sh]), axis=(0, 1)) for p in pos.T])
    st = st * rng.uniform(0.5, 2, (n, 1, 1))
    dat = np.ascontiguousarray(np.moveaxis(st, 0, axis + 3))
    kw = {} if axis == -2 else dict(stack_axis=axis)
    if axis == -2 and rng.random() < 0.5:
        kw["stack_axis"] = -2
    got = markers.track_marker(dat, use, **kw)
    c.close(got, pos, "track", f"positions, stack axis {axis}", rtol=0, atol=0.011)
    c.monitors["stack-axis"] += axis != -2
    # sub-pixel: a disk drawn elsewhere
    p = np.stack([rng.uniform(min(r, s // 2), max(s - r, s // 2 + 1), n) for s in sh])
    vv, uu = np.meshgrid(*[(np.arange(s * 5) - 2) / 5 for s in sh], indexing="ij")
    st = np.stack([(np.hypot(vv - a, uu - b) < rad).reshape(sh[0], 5, sh[1], 5).mean((1, 3)) for a, b in p.T])
    got = markers.track_marker(np.ascontiguousarray(np.moveaxis(st, 0, -2)), markers.create_marker_disk(sh, rad, conv=False))
    c.close(got, p, "track", "sub-pixel positions", rtol=0, atol=0.4)
    if c.idx % 4 == 0:
        with quiet():
            d = np.ascontiguousarray(np.moveaxis(st, 0, -2))
            traj = None
            if rng.random() < 0.3:
                traj = F.Ellipse(1 / 100, 1 / 100, 0.0, sh[1] / 2, sh[0] / 2, np.zeros(2))
            vz = markers.MarkerTrackingVisualizer(got, d, use, trajectory=traj)
            ref = 0
            gl = False

            from matplotlib.backend_bases import KeyEvent, MouseEvent

            canvas = vz.fig.canvas
            for _ in range(12):
                if rng.random() < 0.7:
                    key = str(rng.choice(["right", "left", "up", "down", "pageup", "pagedown", "ctrl+l", "x"]))
                    ref += dict(right=1, left=-1, up=1, down=-1, pageup=10, pagedown=-10).get(key, 0)
                    gl ^= key == "ctrl+l"
                    canvas.callbacks.process("key_press_event", KeyEvent("key_press_event", canvas, key))
                else:
                    button = str(rng.choice(["up", "down"]))
                    ref += 1 if button == "up" else -1
                    canvas.callbacks.process("scroll_event", MouseEvent("scroll_event", canvas, 1, 1, button, step=1 if button == "up" else -1))
                ref %= n
                c.expect(vz.curr_pos % n == ref and vz.global_lims == gl, "visualizer", f"image {vz.curr_pos} instead of {ref}")
                im = vz.axs[1].get_images()
                c.expect(len(im) == 1 and np.array_equal(np.asarray(im[0].get_array()), d[:, ref, :]), "visualizer", "shown image")
            plt.close("all")
    c.monitors["visualizer"] += 1
    c.monitors["disk"] += 1


if __name__ == "__main__":
    raise SystemExit(check.main())
