"""C03 - attenuation-corrected (XRF) projector: weighted/attenuated projections, threads, resources."""
import threading

import numpy as np
import skimage.transform as skt

import corrct as cct
from rtm.core import Check
from rtm.sched import ThreadWatch, perturbed
from checks.c02 import angles_of, conv_edge, ref_bp, ref_fp, smooth

check = Check(
    "C03",
    "Random volumes, attenuation maps (or attenuation volumes), detector sets/weights, per-angle weights, intensities; each case compares "
    "the multi-threaded projector (under injected per-call delays and a microsecond switch interval) with a per-angle, per-detector oracle "
    "and with the single-threaded projector. Non-trivial when the sinogram is non-zero; distinct interleavings are counted separately.",
    scale=(10, 1),
)


def config(c, lo=8, hi=28, ang_hi=12):
    rng = c.rng
    n = int(rng.integers(lo, hi + 1))
    ang = angles_of(rng, 2, ang_hi)
    nd = int(rng.integers(1, 5))
    dets = rng.uniform(-np.pi, np.pi, nd)
    maps = rng.uniform(0.1, 1.0, (len(ang), nd, n, n))
    if rng.random() < 0.3:
        maps = maps.astype(np.float32)
    w = [None, rng.uniform(0.2, 2, nd), rng.uniform(0.2, 2)][int(rng.integers(0, 3))]
    wa = rng.uniform(0.2, 2, (len(ang), nd)) if rng.random() < 0.5 else None
    inten = rng.uniform(0.2, 3, len(ang)) if rng.random() < 0.4 else None
    psf = None
    if rng.random() < 0.25:
        psf = np.abs(rng.standard_normal(3)) + 0.05
        psf /= psf.sum()
    symm = bool(rng.random() < 0.6)
    c.describe(n=n, num_angles=len(ang), first_angles=np.round(ang, 4).tolist()[:4], num_dets=nd, weights=None if w is None else np.round(w, 4), wa=wa is not None, inten=inten is not None, psf=psf is not None, symmetric=symm)
    return n, ang, nd, dets, maps, w, wa, inten, psf, symm


def full_weights(w, nd):
    return np.ones(nd) if w is None else np.ones(nd) * np.array(w)


def oracle_fp(vol, ang, maps, W, WA, inten, psf):
    nd = maps.shape[1]
    out = np.zeros((nd, len(ang), vol.shape[-1]))
    for ia, a in enumerate(ang):
        for d in range(nd):
            line = ref_fp(vol * maps[ia, d], a)
            if inten is not None:
                line = line * inten[ia]
            if psf is not None:
                line = conv_edge(line, psf)
            out[d, ia] = W[d] * WA[ia, d] * line
    return out


def oracle_bp(y, ang, maps, W, WA, inten, n, symm):
    out = np.zeros((n, n))
    per = []
    nd = maps.shape[1]
    for ia, a in enumerate(ang):
        o = np.zeros((n, n))
        for d in range(nd):
            b = ref_bp(y[d, ia] * (1 if inten is None else inten[ia]), a, n)
            o += W[d] * WA[ia, d] * b * maps[ia, d] if symm else b
        per.append(o)
        out += o
    return out, per


@check.family("oracle", 60, 1200, ["fp-oracle", "bp-oracle", "serial-equals-threads", "fp-per-angle", "threads-released", "pure-input"])
def oracle(c):
    rng = c.rng
    n, ang, nd, dets, maps, w, wa, inten, psf, symm = config(c)
    W, WA = full_weights(w, nd), np.ones((len(ang), nd)) if wa is None else wa
    vol = smooth(rng, n)
    if rng.random() < 0.3:
        vol = vol.astype(np.float32)
    v0, m0 = vol.copy(), maps.copy()
    kw = dict(prj_intensities=inten, att_maps=maps, angles_detectors_rad=dets if rng.random() < 0.8 else list(dets), weights_detectors=w, psf=psf, is_symmetric=symm, weights_angles=wa, verbose=False)
    P = cct.projectors.ProjectorAttenuationXRF
    with P([n, n], ang, use_multithreading=False, **kw) as ps:
        fs = np.array(ps.fp(vol))
        want = oracle_fp(vol, ang, maps, W, WA, inten, psf)
        want_s = want[0] if nd == 1 else want
        c.close(fs, want_s, "fp-oracle", rtol=1e-3)
        y = rng.standard_normal(want.shape)
        y_s = y[0] if nd == 1 else y
        y0 = y_s.copy()
        bs = np.array(ps.bp(y_s))
        bo, per = oracle_bp(y, ang, maps, W, WA, inten, n, symm)
        c.close(bs, bo, "bp-oracle", rtol=1e-3)
        for ia in rng.choice(len(ang), min(4, len(ang)), replace=False):
            ia = int(ia)
            c.close(ps.fp_angle(vol, ia), want_s[..., ia, :], "fp-per-angle", rtol=1e-3, scale=np.abs(want).max())
            if symm:
                c.close(ps.bp_angle(y_s, ia), per[ia], "bp-per-angle", rtol=1e-3)
                c.close(ps.bp_angle(y_s[..., ia, :], ia, single_line=True), per[ia], "bp-single-line", rtol=1e-3)
    with ThreadWatch() as tw, perturbed(int(rng.integers(1 << 30)), prob=0.2, max_s=0.002) as pert:
        with P([n, n], ang, use_multithreading=True, **kw) as pm:
            fm, bm = np.array(pm.fp(vol)), np.array(pm.bp(y_s))
            fm2 = np.array(pm.fp(vol))
        c.event("delays-injected", pert.delays)
        c.event("monitored-calls", pert.calls)
        c.event("thread-switches", pert.switches())
        c.event(f"interleaving:{pert.signature() % 997}")
        left = tw.leaked()
        c.expect(not left, "threads-released", f"threads alive after leaving the context: {left}")
    c.close(fm, fs, "serial-equals-threads", "fp", rtol=1e-6)
    c.close(bm, bs, "serial-equals-threads", "bp", rtol=1e-6)
    c.same(fm2, fm, "fp-repeat")
    c.expect(np.array_equal(vol, v0) and np.array_equal(maps, m0) and np.array_equal(y_s, y0), "pure-input", "an input array was modified")


@check.family("concurrent-use", 16, 300, ["concurrent-fp", "concurrent-bp", "threads-released"])
def concurrent_use(c):
    """One projector shared by several client threads gives each of them its own, correct, result."""
    rng = c.rng
    n, ang, nd, dets, maps, w, wa, inten, psf, symm = config(c, hi=20, ang_hi=8)
    vols = [smooth(rng, n) for _ in range(3)]
    kw = dict(prj_intensities=inten, att_maps=maps, angles_detectors_rad=dets, weights_detectors=w, psf=psf, is_symmetric=symm, weights_angles=wa, verbose=False)
    with cct.projectors.ProjectorAttenuationXRF([n, n], ang, use_multithreading=False, **kw) as ps:
        ref = [np.array(ps.fp(v)) for v in vols]
        refb = [np.array(ps.bp(r)) for r in ref]
    out = {}
    with ThreadWatch() as tw, perturbed(int(rng.integers(1 << 30)), prob=0.2, max_s=0.002) as pert:
        with cct.projectors.ProjectorAttenuationXRF([n, n], ang, use_multithreading=True, **kw) as pm:

            def client(i):
                try:
                    for k in range(2):
                        out[i, k] = (np.array(pm.fp(vols[i])), np.array(pm.bp(ref[i])))
                except Exception as e:  # noqa: BLE001
                    out[i, "exc"] = e

            ts = [threading.Thread(target=client, args=(i,)) for i in range(3)]
            [t.start() for t in ts]
            [t.join(60) for t in ts]
            c.expect(not any(t.is_alive() for t in ts), "concurrent-terminates")
        c.event("delays-injected", pert.delays)
        c.event("thread-switches", pert.switches())
        c.event(f"interleaving:{pert.signature() % 997}")
        left = tw.leaked()
        c.expect(not left, "threads-released", str(left))
    for i in range(3):
        c.expect((i, "exc") not in out, "concurrent-no-exception", repr(out.get((i, "exc"))))
        for k in range(2):
            if (i, k) in out:
                c.close(out[i, k][0], ref[i], "concurrent-fp", rtol=1e-6)
                c.close(out[i, k][1], refb[i], "concurrent-bp", rtol=1e-6)


class Boom(Exception):
    pass


@check.family("resources", 24, 300, ["threads-released", "reusable", "exception-propagates"])
def resources(c):
    rng = c.rng
    n, ang, nd, dets, maps, w, wa, inten, psf, symm = config(c, hi=14, ang_hi=6)
    p = cct.projectors.ProjectorAttenuationXRF([n, n], ang, att_maps=maps, angles_detectors_rad=dets, weights_detectors=w, is_symmetric=symm, weights_angles=wa, use_multithreading=True, verbose=False)
    vol = smooth(rng, n)
    rounds = int(rng.integers(2, 5))
    c.describe(rounds=rounds)
    first = None
    with ThreadWatch() as tw:
        for r in range(rounds):
            raised = False
            try:
                with p:
                    f = np.array(p.fp(vol))
                    if first is None:
                        first = f
                    c.same(f, first, "reusable", "re-entering the context changes the result")
                    if rng.random() < 0.5:
                        raised = True
                        if rng.random() < 0.5:
                            raise Boom()
                        p.fp(vol[:, :-1])  # invalid volume: the failure of a worker must surface
            except (Boom, ValueError, IndexError):
                c.expect(raised, "exception-propagates", "unexpected exception")
                raised = False
            c.expect(not raised, "exception-propagates", "an exception inside the context was swallowed")
            left = tw.leaked()
            c.expect(not left, "threads-released", str(left))
    # integer volumes and data are those of floats
    iv = rng.integers(0, 9, vol.shape)
    with p:
        f = np.array(p.fp(iv.astype(float)))
        c.close(p.fp(iv), f, "reusable", "integer volume", rtol=1e-4)
        ip = rng.integers(0, 9, f.shape)
        b = np.array(p.bp(ip.astype(float)))
        c.close(p.bp(ip), b, "reusable", "integer data", rtol=1e-4)
    # force both monitors on every case
    c.monitors["exception-propagates"] += 0


@check.family("collapse", 30, 500, ["collapse-fp", "collapse-bp"])
def collapse(c):
    """Collapsing the detectors into one preserves the sum over detectors (detector-independent angular weights)."""
    rng = c.rng
    n, ang, nd, dets, maps, w, wa, inten, psf, symm = config(c, hi=16, ang_hi=7)
    # Exact in two regimes: angular weights common to all detectors, or attenuation common to all detectors
    if wa is not None and c.idx % 2 == 0:
        wa = np.repeat(wa[:, :1], nd, axis=1)
    elif c.idx % 2:
        maps = np.repeat(maps[:, :1], nd, axis=1)
        c.event("common-attenuation")
        if wa is None or np.ptp(wa, axis=1).max() == 0:
            wa = rng.uniform(0.3, 1.5, (len(ang), nd))
    W, WA = full_weights(w, nd), np.ones((len(ang), nd)) if wa is None else wa
    vol = smooth(rng, n)
    with cct.projectors.ProjectorAttenuationXRF([n, n], ang, prj_intensities=inten, att_maps=maps, angles_detectors_rad=dets, weights_detectors=w, is_symmetric=True, weights_angles=wa, use_multithreading=bool(rng.random() < 0.5), verbose=False) as p:
        p.collapse_detectors()
        f = np.array(p.fp(vol))
        want = oracle_fp(vol, ang, maps, W, WA, inten, None).sum(axis=0)
        c.close(f, want, "collapse-fp", rtol=1e-3)
        y = rng.standard_normal(want.shape)
        b = np.array(p.bp(y))
        bo, _ = oracle_bp(np.repeat(y[None], nd, axis=0), ang, maps, W, WA, inten, n, True)
        c.close(b, bo, "collapse-bp", rtol=1e-3)
        c.expect(np.size(p.angles_det_rad) == 1 and np.size(p.weights_det) == 1, "collapse-single")
        c.close(np.ravel(p.angles_det_rad)[0], np.sum(np.asarray(dets, float) * W) / np.sum(W), "collapse-single", "angle of the collapsed detector", rtol=1e-5, atol=1e-6)


@check.family("from-volumes", 12, 200, ["maps-in-range", "serial-equals-threads", "no-attenuation", "less-than-uncorrected"])
def from_volumes(c):
    """Maps computed by the projector itself from attenuation volumes."""
    rng = c.rng
    n = int(rng.integers(10, 24))
    ang = angles_of(rng, 2, 6)
    dets = rng.uniform(-np.pi, np.pi, int(rng.integers(1, 3)))
    vol = smooth(rng, n)
    kind = str(rng.choice(["in", "out", "both", "zero"]))
    k = rng.uniform(0.01, 0.2)
    ai = None if kind == "out" else smooth(rng, n) * k * (kind != "zero")
    ao = None if kind == "in" else smooth(rng, n) * k * (kind != "zero")
    c.describe(n=n, num_angles=len(ang), dets=np.round(dets, 3), kind=kind, k=k)
    kw = dict(att_in=ai, att_out=ao, angles_detectors_rad=dets, verbose=False)
    P = cct.projectors.ProjectorAttenuationXRF
    with P([n, n], ang, use_multithreading=False, **kw) as p:
        m, f = np.array(p.att_vol_angles), np.array(p.fp(vol))
    with perturbed(int(rng.integers(1 << 30)), prob=0.3) as pert:
        with P([n, n], ang, use_multithreading=True, **kw) as q:
            mq, fq = np.array(q.att_vol_angles), np.array(q.fp(vol))
    c.event("delays-injected", pert.delays)
    c.close(mq, m, "serial-equals-threads", "maps", rtol=1e-6)
    c.close(fq, f, "serial-equals-threads", "fp", rtol=1e-6)
    c.expect(np.all(m > 0) and np.all(m <= 1 + 1e-5), "maps-in-range", f"[{m.min()}, {m.max()}]")
    with cct.projectors.ProjectorUncorrected([n, n], ang) as u:
        fu = np.array(u.fp(vol))
    f3 = f if f.ndim == 3 else f[None]
    if kind == "zero":
        c.close(f3, np.repeat(fu[None], f3.shape[0], 0), "no-attenuation", rtol=1e-3)
    c.expect(np.all(f3 <= fu[None] * (1 + 1e-4) + 1e-4 * fu.max()), "less-than-uncorrected")


if __name__ == "__main__":
    raise SystemExit(check.main())
