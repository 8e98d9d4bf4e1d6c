"""C04 - self-attenuation maps: Beer-Lambert values, angle/detector association, threads, selection."""
import itertools

import numpy as np
import scipy.ndimage as spi
import skimage.transform as skt

import corrct as cct
from corrct.physics.attenuation import AttenuationVolume
from corrct.physics.xrf import DetectorXRF
from rtm.core import Check
from rtm.sched import ThreadWatch, perturbed
from checks.c02 import angles_of, smooth

check = Check(
    "C04",
    "Random 2D/3D local attenuation volumes, rotation angles and detector directions. Oracles: exact cumulative sums at quarter turns, ray "
    "marching with spline interpolation at arbitrary angles, the Beer-Lambert identity FP(mu*att) = 1-exp(-FP(mu)); threads run under injected delays. "
    "Non-trivial when the volume attenuates by at least 1%.",
    scale=(10, 1),
)


def exact_quarter(mu, q):
    """Transmission from the source to each voxel, for a beam along +y (q=0) rotated by q quarter turns."""
    r = np.rot90(mu, -q)
    cum = np.cumsum(r, axis=-2) - r / 2
    return np.exp(-np.rot90(cum, q))


def march(mu, angle, invert):
    """Ray marching: transmission along the beam up to each pixel (2D)."""
    if invert:
        angle = angle + np.pi
    n = mu.shape[-1]
    d = np.array([np.cos(angle), np.sin(angle)])  # (y, x) beam direction, matches the documented rotation sense
    step = 0.25
    ts = np.arange(step / 2, 1.5 * n, step)
    yy, xx = np.mgrid[: mu.shape[0], : mu.shape[1]].astype(float)
    acc = np.zeros(mu.shape)
    for t in ts:
        acc += spi.map_coordinates(mu, [yy - d[0] * t, xx - d[1] * t], order=1, mode="constant") * step
    return np.exp(-acc)


def mk_mu(rng, n, nz=None):
    k = rng.uniform(0.01, 0.25)
    if nz is None:
        return smooth(rng, n) * k
    return np.stack([smooth(rng, n) * k * rng.uniform(0.3, 1) for _ in range(nz)])


@check.family("quarter-turns", 60, 1500, ["in-oracle", "out-oracle", "range"])
def quarter(c):
    rng = c.rng
    n = int(rng.integers(5, 24))
    nz = int(rng.integers(1, 5)) if rng.random() < 0.4 else None
    vol_kind = str(rng.choice(["smooth", "rough"]))
    mu_i, mu_o = mk_mu(rng, n, nz), mk_mu(rng, n, nz)
    if vol_kind == "rough":
        shp = mu_i.shape
        mu_i, mu_o = rng.uniform(0, 0.2, shp), rng.uniform(0, 0.2, shp)
    qs = rng.integers(-4, 5, int(rng.integers(1, 6)))
    qd = rng.integers(-3, 4, int(rng.integers(1, 4)))
    which = str(rng.choice(["in", "out", "both"]))
    c.describe(n=n, nz=nz, quarters=qs.tolist(), det_quarters=qd.tolist(), which=which, kind=vol_kind)
    c.trivial = False
    m = AttenuationVolume(mu_i if which != "out" else None, mu_o if which != "in" else None, qs * np.pi / 2, qd * np.pi / 2, dtype=np.float64)
    m.compute_maps(use_multithreading=bool(rng.random() < 0.5), verbose=False)
    maps = m.get_maps()
    want = np.ones((len(qs), len(qd), *mu_i.shape))
    for (ia, a), (ib, b) in itertools.product(enumerate(qs), enumerate(qd)):
        if which != "out":
            want[ia, ib] *= np.stack([exact_quarter(s, int(a)) for s in mu_i.reshape(-1, n, n)]).reshape(mu_i.shape)
        if which != "in":
            want[ia, ib] *= np.stack([exact_quarter(s, int(a + b) + 2) for s in mu_o.reshape(-1, n, n)]).reshape(mu_i.shape)
    if c.expect(maps.shape == want.shape, "shape", f"{maps.shape} {want.shape}"):
        c.close(maps, want, "in-oracle" if which == "in" else "out-oracle", which, rtol=2e-4)
    c.monitors["in-oracle"] += which == "both"
    c.expect(np.all(maps > 0) and np.all(maps <= 1 + 1e-6), "range", f"{maps.min()} {maps.max()}")


@check.family("slices", 40, 800, ["slice-alone", "order", "rectangular"])
def slices(c):
    """Every slice of a stack is attenuated as if it was alone, at any angle; rectangular slices follow the quarter turns."""
    rng = c.rng
    n, nz = int(rng.integers(5, 14)), int(rng.integers(2, 6))
    mu_i, mu_o = mk_mu(rng, n, nz), mk_mu(rng, n, nz)
    ang, dets = angles_of(rng, 1, 4), rng.uniform(-np.pi, np.pi, int(rng.integers(1, 3)))
    which = str(rng.choice(["in", "out", "both"]))
    c.describe(n=n, nz=nz, num_angles=len(ang), dets=np.round(dets, 3), which=which)

    def maps(sl):
        m = AttenuationVolume(mu_i[sl] if which != "out" else None, mu_o[sl] if which != "in" else None, ang, dets, dtype=np.float64)
        m.compute_maps(use_multithreading=bool(rng.random() < 0.3), verbose=False)
        return m.get_maps()

    full = maps(slice(None))
    for ii in range(nz):
        c.close(full[:, :, ii], maps(ii), "slice-alone", f"slice {ii} of {nz}", rtol=1e-6)
    perm = rng.permutation(nz)
    c.close(maps(perm), full[:, :, perm], "order", "slices in another order", rtol=1e-6)
    # rectangular slices (sides of the same parity, so that the pixels of the turned slice are those of the slice)
    ny = int(rng.integers(3, 12))
    nx = ny + 2 * int(rng.integers(-1, 4))
    mu = rng.uniform(0, 0.2, (nz, ny, nx) if rng.random() < 0.4 else (ny, nx))
    q, d = rng.integers(-4, 5, 2), rng.integers(-3, 4, 2)
    m = AttenuationVolume(mu, mu, q * np.pi / 2, d * np.pi / 2, dtype=np.float64)
    m.compute_maps(use_multithreading=False, verbose=False)
    want = np.ones((2, 2, *mu.shape))
    for (ia, a), (ib, b) in itertools.product(enumerate(q), enumerate(d)):
        for k in (int(a), int(a + b) + 2):
            want[ia, ib] *= np.stack([exact_quarter(s, k) for s in mu.reshape(-1, ny, nx)]).reshape(mu.shape)
    c.close(m.get_maps(), want, "rectangular", f"{mu.shape}, quarters {q} {d}", rtol=2e-4)
    c.trivial = False


@check.family("any-angle", 30, 500, ["march", "beer-lambert", "range", "mirror"])
def any_angle(c):
    rng = c.rng
    n = int(rng.integers(16, 33))
    mu = mk_mu(rng, n)
    ang = float(rng.uniform(-7, 7))
    inv = bool(rng.random() < 0.5)
    c.describe(n=n, angle=ang, invert=inv, max_mu=mu.max())
    m = AttenuationVolume(mu if not inv else None, mu if inv else None, [ang], 0.0, dtype=np.float64)
    m.compute_maps(use_multithreading=False, verbose=False)
    att = m.get_maps()[0, 0]
    ref = march(mu, ang, inv)
    # compare the exponents: error relative to the total path attenuation
    tot = -np.log(ref.min()) + 1e-9
    c.expect(np.max(np.abs(np.log(att) - np.log(ref))) <= 0.13 * tot + 0.01, "march", f"max exponent error {np.max(np.abs(np.log(att) - np.log(ref))):.4g} of {tot:.4g}")
    c.expect(np.all(att > 0) and np.all(att <= 1 + 1e-5), "range")
    with cct.projectors.ProjectorUncorrected([n, n], [ang]) as p:
        lhs = p.fp(mu * att)[0]
        rhs = 1 - np.exp(-p.fp(mu)[0])
    c.expect(np.max(np.abs(lhs - rhs)) <= 0.08 * rhs.max() + 1e-6, "beer-lambert", f"{np.max(np.abs(lhs - rhs)):.4g} of {rhs.max():.4g}")
    # incoming + outgoing along the same ray = full transmission of that ray
    m2 = AttenuationVolume(mu, mu, [ang], 0.0, dtype=np.float64)
    m2.compute_maps(use_multithreading=False, verbose=False)
    both = -np.log(m2.get_maps()[0, 0])
    cy, cx = (n - 1) / 2, (n - 1) / 2
    dvec = np.array([np.cos(ang), np.sin(ang)])
    pts = np.array([[cy + t * dvec[0], cx + t * dvec[1]] for t in np.linspace(-n * 0.25, n * 0.25, 9)])
    vals = spi.map_coordinates(both, pts.T, order=1)
    c.expect(np.ptp(vals) <= 0.15 * (vals.max() + 0.05), "mirror", f"in+out path not constant along the ray: {vals}")


@check.family("types", 20, 400, ["integers"])
def types(c):
    """The values of the local attenuation count, not their numeric type."""
    rng = c.rng
    n = int(rng.integers(4, 16))
    nz = int(rng.integers(1, 4)) if rng.random() < 0.4 else None
    kind = [np.int64, np.int32, np.uint8, bool][int(rng.integers(4))]
    shape = (n, n) if nz is None else (nz, n, n)
    mu = rng.integers(0, 2 if kind is bool else 3, shape)
    which = str(rng.choice(["in", "out", "both"]))
    ang, dets = angles_of(rng, 1, 4), rng.uniform(-np.pi, np.pi, int(rng.integers(1, 3)))
    c.describe(shape=shape, kind=np.dtype(kind).name, which=which, num_angles=len(ang))
    maps = []
    for k in (np.float64, kind):
        m = AttenuationVolume(mu.astype(k) if which != "out" else None, mu.astype(k) if which != "in" else None, ang, dets)
        m.compute_maps(use_multithreading=bool(rng.random() < 0.5), verbose=False)
        maps.append(np.array(m.get_maps()))
    c.close(maps[1], maps[0], "integers", "maps", rtol=1e-4, atol=1e-5)


@check.family("threads", 40, 800, ["threads-equal-serial", "threads-released", "association", "pure-input"])
def threads(c):
    rng = c.rng
    n = int(rng.integers(6, 16))
    nz = int(rng.integers(1, 4)) if rng.random() < 0.3 else None
    ang = angles_of(rng, 3, 12)
    dets = rng.uniform(-np.pi, np.pi, int(rng.integers(1, 5)))
    which = str(rng.choice(["in", "out", "both"]))
    mi, mo = mk_mu(rng, n, nz), mk_mu(rng, n, nz)
    c.describe(n=n, nz=nz, angles=np.round(ang, 4).tolist()[:5], num_angles=len(ang), dets=np.round(dets, 3), which=which)
    args = (mi if which != "out" else None, mo if which != "in" else None, ang, dets)
    i0, o0, a0, d0 = mi.copy(), mo.copy(), ang.copy(), dets.copy()
    s = AttenuationVolume(*args)
    s.compute_maps(use_multithreading=False, verbose=False)
    ref = np.array(s.get_maps())
    with ThreadWatch() as tw, perturbed(int(rng.integers(1 << 30)), prob=0.3, max_s=0.004) as pert:
        t = AttenuationVolume(*args)
        t.compute_maps(use_multithreading=True, verbose=bool(rng.random() < 0.2))
        c.close(t.get_maps(), ref, "threads-equal-serial", rtol=1e-6)
        t.compute_maps(use_multithreading=True, verbose=False)  # recomputation starts from scratch
        c.close(t.get_maps(), ref, "recompute", rtol=1e-6)
        left = tw.leaked()
        c.expect(not left, "threads-released", str(left))
    c.event("delays-injected", pert.delays)
    c.event("thread-switches", pert.switches())
    c.event(f"interleaving:{pert.signature() % 997}")
    # each map depends only on its own (rotation, detector) pair
    ia, idt = int(rng.integers(len(ang))), int(rng.integers(len(dets)))
    one = AttenuationVolume(args[0], args[1], [float(ang[ia])], float(dets[idt]))
    one.compute_maps(use_multithreading=False, verbose=False)
    c.close(one.get_maps()[0, 0], ref[ia, idt], "association", rtol=1e-5)
    c.expect(all(np.array_equal(x, y) for x, y in zip((i0, o0, a0, d0), (mi, mo, ang, dets))), "pure-input")


@check.family("selection", 50, 1000, ["select", "projector-args", "binning"])
def selection(c):
    rng = c.rng
    n = int(rng.integers(4, 11))
    na, nd = int(rng.integers(2, 7)), int(rng.integers(1, 5))
    ang, dets = rng.uniform(0, 6, na), rng.uniform(-3, 3, nd)
    m = AttenuationVolume(mk_mu(rng, n), None if rng.random() < 0.3 else mk_mu(rng, n), ang, dets)
    m.compute_maps(use_multithreading=False, verbose=False)
    full = np.array(m.get_maps())

    def pick(k):
        kind = str(rng.choice(["none", "int", "neg", "npint", "slice", "list", "array"]))
        i = int(rng.integers(k))
        if kind == "none":
            return kind, None, np.arange(k)
        if kind == "int":
            return kind, i, np.array([i])
        if kind == "neg":
            return kind, -i - 1, np.array([k - i - 1])
        if kind == "npint":
            return kind, np.int64(i), np.array([i])
        if kind == "slice":
            return kind, slice(i, None, 2), np.arange(k)[i::2]
        sel = rng.choice(k, int(rng.integers(1, k + 1)), replace=False)
        return kind, (sel.tolist() if kind == "list" else sel), sel

    kr, ri, rsel = pick(na)
    kd, di, dsel = pick(nd)
    b = int(rng.integers(1, 4))
    c.describe(n=n, na=na, nd=nd, rot=kr, det=kd, binning=b, ri=str(ri), di=str(di))
    want = full[rsel][:, dsel]
    c.close(m.get_maps(rot_ind=ri, det_ind=di), want, "select", f"rot={ri} det={di}", rtol=1e-6)
    if b > 1:
        nb = n // b
        off = (n - nb * b) // 2
        got = m.get_maps(rot_ind=ri, det_ind=di, binning=b)
        ok = False
        for o in {0, off, n - nb * b - off, n - nb * b}:
            w = want[..., o : o + nb * b, o : o + nb * b].reshape(*want.shape[:2], nb, b, nb, b).mean(axis=(-3, -1))
            ok |= got.shape == w.shape and np.allclose(got, w, rtol=1e-5)
        c.expect(ok, "binning", "binned maps are not block averages")
    # volumes of several slices: all the axes are binned
    nz = int(rng.integers(b, 3 * b + 2))
    m3 = AttenuationVolume(np.stack([mk_mu(rng, n) for _ in range(nz)]), None, ang[:2], dets)
    m3.compute_maps(use_multithreading=False, verbose=False)
    f3 = np.array(m3.get_maps())
    got = m3.get_maps(binning=b)
    cut = [(z, z // b) for z in (nz, n, n)]
    ok = False
    for o in itertools.product(*[sorted({(z - k * b) // 2, z - k * b - (z - k * b) // 2}) for z, k in cut]):
        w = f3[(...,) + tuple(slice(p, p + k * b) for p, (_, k) in zip(o, cut))]
        w = w.reshape(*f3.shape[:2], *[q for _, k in cut for q in (k, b)]).mean(axis=(-5, -3, -1))
        ok |= got.shape == w.shape and np.allclose(got, w, rtol=1e-5)
    c.expect(ok, "binning", f"binned maps of slices {f3.shape} -> {got.shape}")
    args = m.get_projector_args(rot_ind=ri, det_ind=di)
    c.close(args["att_maps"], want, "projector-args", rtol=1e-6)
    c.close(np.array(args["angles_detectors_rad"], ndmin=1), dets[dsel], "projector-args", "detector angles", rtol=1e-6)
    with cct.projectors.ProjectorAttenuationXRF([n, n], ang[rsel], use_multithreading=False, verbose=False, **args) as p:
        c.close(p.att_vol_angles, want, "projector-args", rtol=1e-6)


@check.family("detectors", 40, 600, ["detector-forms", "extended-detector", "side-by-side", "rejects"])
def detectors(c):
    rng = c.rng
    n = int(rng.integers(5, 14))
    mu = mk_mu(rng, n)
    ang = rng.uniform(0, 6, 2)
    a = float(rng.choice([0.0, 1.0, rng.uniform(-3, 3)]))
    form = str(rng.choice(["float", "list", "array", "float32", "float32-array", "int", "int-list", "det", "det-list", "mixed"]))
    c.describe(n=n, angle=a, form=form)
    base = AttenuationVolume(None, mu, ang, np.array([a]))
    base.compute_maps(use_multithreading=False, verbose=False)
    if form.startswith("int"):
        base = AttenuationVolume(None, mu, ang, np.array([float(round(a))]))
        base.compute_maps(use_multithreading=False, verbose=False)
    arg = {
        "float": a, "list": [a], "array": np.array([a]), "float32": np.float32(a), "float32-array": np.array([a], np.float32), "int": int(round(a)),
        "int-list": [int(round(a))], "det": DetectorXRF(0, 1, a), "det-list": [DetectorXRF(0, 1, a)], "mixed": [a, DetectorXRF(0, 1, a)],
    }[form]
    m = AttenuationVolume(None, mu, ang, arg)
    m.compute_maps(use_multithreading=False, verbose=False)
    got = m.get_maps()
    c.close(got[:, :1], base.get_maps(), "detector-forms", form, rtol=1e-4)
    if form == "mixed":
        c.close(got[:, 1:], base.get_maps(), "detector-forms", form, rtol=1e-4)
    # extended detector: average over equally spaced directions inside its acceptance
    k = int(rng.integers(1, 5))
    det = DetectorXRF(float(rng.uniform(0.5, 20)), float(rng.uniform(2, 10)), a)
    e = AttenuationVolume(None, mu, ang, det, emitted_sub_sampling=k, dtype=np.float64)
    e.compute_maps(use_multithreading=bool(rng.random() < 0.5), verbose=False)
    half = np.arctan2(np.sqrt(det.surface_mm2) / 2, det.distance_mm)
    ed = np.linspace(-half, half, k + 1)
    mids = (ed[1:] + ed[:-1]) / 2
    pts = AttenuationVolume(None, mu, ang, a + mids, dtype=np.float64)
    pts.compute_maps(use_multithreading=False, verbose=False)
    c.close(e.get_maps()[:, 0], pts.get_maps().mean(axis=1), "extended-detector", rtol=1e-5)
    # several detectors (extended and point-like) side by side: each as if it was alone
    dets = [DetectorXRF(float(rng.uniform(0.5, 20)) * (rng.random() < 0.6), float(rng.uniform(2, 10)), float(rng.uniform(-3, 3))) for _ in range(int(rng.integers(2, 4)))]
    many = AttenuationVolume(None, mu, ang, dets, emitted_sub_sampling=k)
    many.compute_maps(use_multithreading=bool(rng.random() < 0.5), verbose=False)
    for ii, d in enumerate(dets):
        one = AttenuationVolume(None, mu, ang, [d], emitted_sub_sampling=k)
        one.compute_maps(use_multithreading=False, verbose=False)
        c.close(many.get_maps()[:, ii : ii + 1], one.get_maps(), "side-by-side", f"detector {ii}: {d}", rtol=1e-5)
        if d.surface_mm2 == 0:
            one = AttenuationVolume(None, mu, ang, float(d.angle_rad))
            one.compute_maps(use_multithreading=False, verbose=False)
            c.close(many.get_maps()[:, ii : ii + 1], one.get_maps(), "side-by-side", f"detector {ii} is a point: {k} sub-samples", rtol=1e-5)
    bad = str(rng.choice(["none", "mismatch", "4d", "string"]))
    try:
        if bad == "none":
            AttenuationVolume(None, None, ang)
        elif bad == "mismatch":
            AttenuationVolume(mu, mu[:-1], ang)
        elif bad == "4d":
            AttenuationVolume(np.zeros((2, 2, 2, 2)), None, ang)
        else:
            AttenuationVolume(mu, None, ang, ["x"])
        ok = False
    except ValueError:
        ok = True
    c.expect(ok, "rejects", bad)


class Poison(np.ndarray):
    """A volume whose n-th use by NumPy fails (fault injection into the workers)."""

    left = None

    def __array_function__(self, func, types, args, kwargs):
        if Poison.left is not None:
            Poison.left -= 1
            if Poison.left == 0:
                raise Poison.exc("injected fault")
        return super().__array_function__(func, types, args, kwargs)


@check.family("faults", 20, 200, ["fault-surfaces", "threads-released"])
def faults(c):
    rng = c.rng
    n = int(rng.integers(5, 10))
    na = int(rng.integers(3, 9))
    exc = [ValueError, MemoryError, KeyError][int(rng.integers(3))]
    k = int(rng.integers(1, na + 1))
    thr = bool(rng.random() < 0.7)
    c.describe(n=n, na=na, fault_at=k, exc=exc.__name__, threads=thr)
    mu = mk_mu(rng, n).view(Poison)
    m = AttenuationVolume(mu, None, rng.uniform(0, 6, na), 1.0)
    Poison.left, Poison.exc = k, exc
    fired, raised = False, None
    with ThreadWatch() as tw:
        try:
            m.compute_maps(use_multithreading=thr, verbose=False)
        except Exception as e:  # noqa: BLE001
            raised = e
        fired = Poison.left is not None and Poison.left <= 0
        Poison.left = None
        c.event("faults-fired", int(fired))
        if fired:
            c.expect(raised is not None, "fault-surfaces", "a failing worker did not fail the computation")
            left = tw.leaked()
            c.expect(not left, "threads-released", f"threads left after a failure: {left}")
        else:
            c.expect(raised is None, "no-spurious-failure", repr(raised))


if __name__ == "__main__":
    raise SystemExit(check.main())
