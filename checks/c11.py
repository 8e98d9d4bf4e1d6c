"""C11 - regularizers and constraints: dual/primal proximal operators, step sizes, masks, weights, reference volumes."""
import numpy as np
import scipy.ndimage as spimg

from corrct import data_terms as dt
from corrct import operators as ops
from corrct import projectors
from corrct import regularizers as R
from corrct import solvers
from rtm.core import Check
from checks import optim as O

check = Check(
    "C11",
    "Random volumes (2-4 dims), weights (scalar, per-voxel, zero), axes, paddings, wavelets, update masks, precisions for every regularizer. The dual variable is driven through the "
    "public steps and compared with the projection/proximal of the documented functional; step sizes are compared with the explicit operator norm. Non-trivial when the dual is active.",
    scale=(4, 1),
)


def ball(z, w, axis=None):
    n = np.abs(z) if axis is None else np.sqrt((z**2).sum(axis=axis, keepdims=True))
    return z * np.minimum(1, w / np.maximum(n, 1e-300))


def catalogue(rng, w, vs, mask=None):
    """name -> (factory, explicit operator (or None), sigma given to the dual, dual proximal of K x, effective primal weight)."""
    nd = len(vs)
    a = 0.2
    m = mask
    ident = lambda x: x
    grad = lambda k, mode="edge", axes=None: ops.TransformGradient(vs, axes=np.arange(-k, 0) if axes is None else axes, pad_mode=mode)
    out = {
        "l1": (lambda: R.Regularizer_l1(w, upd_mask=m), ident, lambda z: ball(z, w), 1.0, "clip"),
        "tv1d": (lambda: R.Regularizer_TV1D(w, upd_mask=m), grad(1), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
        "tv2d": (lambda: R.Regularizer_TV2D(w, upd_mask=m), grad(2), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
        "tv2d-constant": (lambda: R.Regularizer_TV2D(w, pad_mode="constant", upd_mask=m), grad(2, "constant"), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
        "tv2d-axes": (lambda: R.Regularizer_TV2D(w, axes=(-2,), upd_mask=m), grad(1, axes=(-2,)), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
        "tv2d-l1": (lambda: R.Regularizer_TV2D(w, upd_mask=m, norm=dt.DataFidelity_l1()), grad(2), lambda z: ball(0.5 * z, w), 1.0, "clip"),
        "smooth1d": (lambda: R.Regularizer_smooth1D(w, upd_mask=m), grad(1), lambda z: 0.5 * z / 1.5, w, "l2"),
        "smooth2d": (lambda: R.Regularizer_smooth2D(w, upd_mask=m), grad(2), lambda z: 0.5 * z / 1.5, w, "l2"),
        "hubtv2d": (lambda: R.Regularizer_HubTV2D(w, a, upd_mask=m), grad(2), lambda z: ball(0.5 * z / (1 + 0.5 * a), 1, 0), w, "l2"),
        "lap1d": (lambda: R.Regularizer_lap1D(w, upd_mask=m), ops.TransformLaplacian(vs, axes=(-1,)), lambda z: ball(0.25 * z, w), 1.0, "clip"),
        "lap2d": (lambda: R.Regularizer_lap2D(w, upd_mask=m), ops.TransformLaplacian(vs, axes=(-2, -1)), lambda z: ball(0.25 * z, w), 1.0, "clip"),
        "lap1d-constant": (lambda: R.Regularizer_lap1D(w, pad_mode="constant", upd_mask=m), ops.TransformLaplacian(vs, axes=(-1,), pad_mode="constant"), lambda z: ball(0.25 * z, w), 1.0, "clip"),
        "lap1d-axes": (lambda: R.Regularizer_lap1D(w, axes=(0,), upd_mask=m), ops.TransformLaplacian(vs, axes=(0,)), lambda z: ball(0.25 * z, w), 1.0, "clip"),
        "lap1d-one": (lambda: R.Regularizer_lap2D(w, axes=(-2,), pad_mode="CONSTANT", upd_mask=m), ops.TransformLaplacian(vs, axes=(-2,), pad_mode="constant"), lambda z: ball(0.25 * z, w), 1.0, "clip"),
        "tv1d-axes": (lambda: R.Regularizer_TV1D(w, axes=(0,), pad_mode="symmetric", upd_mask=m), grad(1, "symmetric", axes=(0,)), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
        "smooth2d-constant": (lambda: R.Regularizer_smooth2D(w, pad_mode="constant", upd_mask=m), grad(2, "constant"), lambda z: 0.5 * z / 1.5, w, "l2"),
        "smooth1d-axes": (lambda: R.Regularizer_smooth1D(w, axes=(0,), upd_mask=m), grad(1, axes=(0,)), lambda z: 0.5 * z / 1.5, w, "l2"),
        "hubtv2d-axes": (lambda: R.Regularizer_HubTV2D(w, a, axes=(0,), pad_mode="constant", upd_mask=m), grad(1, "constant", axes=(0,)), lambda z: ball(0.5 * z / (1 + 0.5 * a), 1, 0), w, "l2"),
        "grad": (lambda: R.Regularizer_Grad(w, ndims=1, upd_mask=m), grad(1), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
    }
    if nd >= 3:
        out |= {
            "tv3d": (lambda: R.Regularizer_TV3D(w, upd_mask=m), grad(3), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
            "tv3d-constant": (lambda: R.Regularizer_TV3D(w, pad_mode="constant", upd_mask=m), grad(3, "constant"), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
            "tv3d-axes": (lambda: R.Regularizer_TV3D(w, axes=(-3, -1), upd_mask=m), grad(2, axes=(-3, -1)), lambda z: ball(0.5 * z, w, 0), 1.0, "clip"),
            "smooth3d-constant": (lambda: R.Regularizer_smooth3D(w, pad_mode="constant", upd_mask=m), grad(3, "constant"), lambda z: 0.5 * z / 1.5, w, "l2"),
            "hubtv3d-axes": (lambda: R.Regularizer_HubTV3D(w, a, axes=(-3, -1), upd_mask=m), grad(2, axes=(-3, -1)), lambda z: ball(0.5 * z / (1 + 0.5 * a), 1, 0), w, "l2"),
            "lap2d-axes": (lambda: R.Regularizer_lap1D(w, axes=(-3, -1), upd_mask=m), ops.TransformLaplacian(vs, axes=(-3, -1)), lambda z: ball(0.25 * z, w), 1.0, "clip"),
            "lap3d-constant": (lambda: R.Regularizer_lap3D(w, pad_mode="constant", upd_mask=m), ops.TransformLaplacian(vs, axes=(-3, -2, -1), pad_mode="constant"), lambda z: ball(0.25 * z, w), 1.0, "clip"),
            "smooth3d": (lambda: R.Regularizer_smooth3D(w, upd_mask=m), grad(3), lambda z: 0.5 * z / 1.5, w, "l2"),
            "hubtv3d": (lambda: R.Regularizer_HubTV3D(w, a, upd_mask=m), grad(3), lambda z: ball(0.5 * z / (1 + 0.5 * a), 1, 0), w, "l2"),
            "lap3d": (lambda: R.Regularizer_lap3D(w, upd_mask=m), ops.TransformLaplacian(vs, axes=(-3, -2, -1)), lambda z: ball(0.25 * z, w), 1.0, "clip"),
        }
    return out


def volume(c, lo=2, hi=6, dims=(2, 3), thin=False):
    rng = c.rng
    vs = tuple(int(v) for v in rng.integers(lo, hi, int(rng.choice(dims))))
    if thin and rng.random() < 0.15:  # an axis of a single element
        vs = tuple(1 if i == (k := int(rng.integers(len(vs)))) else v for i, v in enumerate(vs))
    dtype = np.float32 if rng.random() < 0.4 else np.float64
    return vs, dtype


def weight(c, vs):
    rng = c.rng
    k = str(rng.choice(["scalar", "array", "zero", "holes"], p=[0.5, 0.25, 0.1, 0.15]))
    w = float(np.round(10 ** rng.uniform(-1.5, 0.5), 3))
    if k == "array":
        w = np.round(w * rng.uniform(0.2, 1, vs), 3)
    elif k == "zero":
        w = 0.0
    elif k == "holes":
        w = np.round(w * (rng.random(vs) < 0.6), 3)
    c.describe(weight=k)
    return w


@check.family("dual", 500, 8000, ["dual-proximal", "transpose", "masked", "primal-untouched", "zero-weight"])
def dual(c):
    """update + proximal of the dual follow the functional; the primal update is the transpose applied to the dual."""
    rng = c.rng
    vs, dtype = volume(c, thin=True)
    w = weight(c, vs)
    mask = (rng.random(vs) < 0.6).astype(dtype) if rng.random() < 0.3 else None
    cat = catalogue(rng, w, vs, mask)
    key = str(rng.choice(sorted(cat)))
    fac, K, prox, wp, kind = cat[key]
    c.describe(reg=key, vol=vs, dtype=np.dtype(dtype).name, mask=mask is not None)
    reg = fac()
    x = (rng.standard_normal(vs) * 2).astype(dtype)
    x0 = x.copy()
    tau = reg.initialize_sigma_tau(x)
    c.expect(np.all(np.asarray(tau) >= 0) and np.all(np.isfinite(tau)), "step-size", f"{tau}")
    q = reg.initialize_dual()
    c.expect(not q.any() and q.dtype == dtype, "init", f"dtype {q.dtype} for a {dtype} volume")
    reg.update_dual(q, x)
    reg.apply_proximal_dual(q)
    tol = 1e-9 if dtype == np.float64 else 1e-4
    z = np.asarray(K(x.astype(np.float64)))
    c.close(q, prox(z), "dual-proximal", key, rtol=tol, scale=5)
    c.same(x, x0, "primal-untouched")
    q0 = q.copy()
    u = np.asarray(reg.compute_update_primal(q), float)
    c.same(q, q0, "primal-untouched", "dual modified by the primal update")
    y = rng.standard_normal(vs)
    Ky = np.asarray(K(y))
    mm = 1.0 if mask is None else mask
    c.close(np.sum(u * y), np.sum(q.astype(float) * np.asarray(K(y * mm * wp))), "transpose", f"{key}: primal update is not the (weighted) transpose", rtol=max(tol, 1e-8), scale=10.0 * x.size)
    if mask is not None:
        c.expect(not np.any(u[mask == 0]), "masked", "update outside of the mask")
    if not np.any(w):
        c.expect(not np.any(u), "zero-weight", f"{key}: zero weight, but update {np.abs(u).max()}")
    # iterating converges to the maximizer: stays in the dual ball
    for _ in range(3):
        reg.update_dual(q, x)
        reg.apply_proximal_dual(q)
    c.finite(q, "finite")
    if kind == "clip" and np.ndim(w) == 0:
        n = np.abs(q) if key in ("l1", "tv2d-l1") or key.startswith("lap") else np.sqrt((q.astype(float) ** 2).sum(0))
        c.expect(n.max() <= w * (1 + 1e-5) + 1e-12, "feasible", f"{n.max()} > {w}")
    if not q.any():
        c.trivial = bool(np.any(w))


@check.family("step-size", 200, 3000, ["operator-norm"])
def step_size(c):
    """sigma and tau fit the operator norm: the primal-dual iterations are stable."""
    rng = c.rng
    vs = tuple(int(v) for v in rng.integers(2, 5, int(rng.choice([2, 2, 3]))))
    w = float(np.round(10 ** rng.uniform(-1, 1), 3))
    wl = str(rng.choice(["haar", "db2", "sym3"]))
    lvl = int(rng.choice([1, 2, 3, 4], p=[0.4, 0.4, 0.12, 0.08]))
    cat = {k: v[0] for k, v in catalogue(rng, w, vs).items()}
    ev = tuple(4 * ((v + 3) // 4) for v in vs[:2]) if lvl < 3 else (2**lvl, int(rng.choice([8, 16])))
    wav = {
        "swl": (lambda: R.Regularizer_l1swl(w, wl, lvl, normalized=False), ev),
        "swl-norm": (lambda: R.Regularizer_l1swl(w, wl, lvl, normalized=True), ev),
        "Hub_swl": (lambda: R.Regularizer_Hub_swl(w, wl, lvl, 0.1, normalized=True), ev),
        "dwl": (lambda: R.Regularizer_l1dwl(w, "haar", lvl), ev),
        "Hub_dwl": (lambda: R.Regularizer_Hub_dwl(w, "haar", lvl, 0.1), ev),
        "l12swl": (lambda: R.Regularizer_l12swl(w, wl, lvl, normalized=True), ev),
        "l12dwl": (lambda: R.Regularizer_l12dwl(w, "haar", lvl), ev),
        "fft": (lambda: R.Regularizer_fft(w, fft_filter=str(rng.choice(["delta", "exp", "exp2"]))), vs),
    }
    key = str(rng.choice(sorted(cat) + sorted(wav)))
    fac, shp = wav[key] if key in wav else (cat[key], vs)
    reg = fac()
    c.describe(reg=key, vol=shp, weight=w, wavelet=wl if key in wav else None, level=lvl)
    x = np.zeros(shp)
    tau = float(np.max(reg.initialize_sigma_tau(x)))
    cols = []
    for e in np.eye(x.size):
        q = reg.initialize_dual()
        reg.update_dual(q, e.reshape(shp))
        cols.append(np.asarray(reg.compute_update_primal(q), float).ravel())
    rad = float(np.abs(np.linalg.eigvals(np.stack(cols, 1))).max())
    nd = {"lap2d": 2, "lap2d-axes": 2, "lap3d": 3, "lap3d-constant": 3}.get(key, 1)
    if nd > 1:
        c.describe(reg=f"lap{nd}d")
    c.describe(radius=rad, tau=tau, excess="ndims" if tau < rad <= tau * nd * (1 + 1e-6) else "more")
    c.expect(rad <= tau * (1 + 1e-6), "operator-norm", f"{key}: |K^T sigma K| = {rad:.4g} > 1 / tau = {tau:.4g}")


@check.family("primal", 300, 4000, ["formula"])
def primal(c):
    """Primal proximal operators (the ones FISTA uses)."""
    rng = c.rng
    key = str(rng.choice(["l1", "l1-mask", "dwl", "swl", "fft-l1", "fft-zero", "lower", "upper"]))
    vs, dtype = volume(c)
    if key in ("dwl", "swl"):
        lvl = int(rng.integers(1, 4))
        vs = (int(2**lvl * rng.integers(1, 3)), int(2**lvl * rng.integers(1, 3)))
        if key == "dwl" and rng.random() < 0.3:
            vs = (2, *vs)
    if key == "fft-l1":
        vs = vs[-2:]
    w = float(np.round(10 ** rng.uniform(-1.5, 0.5), 3))
    tau = float(np.round(rng.uniform(0.1, 2), 3))
    if key in ("l1", "l1-mask") and rng.random() < 0.5:
        tau = np.round(rng.uniform(0.1, 2, vs), 3).astype(dtype)
    x = (rng.standard_normal(vs) * 2).astype(dtype)
    c.describe(reg=key, vol=vs, weight=w, dtype=np.dtype(dtype).name)
    soft = lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0)
    mina = bool(rng.random() < 0.5)
    mask = (rng.random(vs) < 0.6).astype(dtype)
    xf = x.astype(float)
    if key == "l1":
        reg, want = R.Regularizer_l1(w), soft(xf, tau * w)
    elif key == "l1-mask":
        reg, want = R.Regularizer_l1(w, upd_mask=mask), np.where(mask > 0, soft(xf, tau * w), xf)
    elif key == "dwl":
        reg = R.Regularizer_l1dwl(w, "haar", lvl, min_approx=mina)
        import pywt

        cs = pywt.wavedecn(xf, "haar", mode="constant", level=lvl, axes=(-2, -1))
        cs = [soft(cs[0], tau * w) if mina else cs[0], *({k: soft(v, tau * w) for k, v in d.items()} for d in cs[1:])]
        want = pywt.waverecn(cs, "haar", mode="constant", axes=(-2, -1))
    elif key == "swl":
        reg = R.Regularizer_l1swl(w, "haar", lvl, normalized=True, min_approx=mina)
        W = ops.TransformStationaryWavelet(vs, "haar", lvl, axes=(-2, -1), normalized=True)
        co = W(xf)
        s = soft(co, tau * w)
        if not mina:
            s[0] = co[0]
        want = W.T(s)
    elif key == "fft-l1":
        reg = R.Regularizer_fft(w, fft_filter="delta", norm=dt.DataFidelity_l1())
        F = np.fft.fftn(xf, norm="ortho")
        S = soft(F.real, tau * w) + 1j * soft(F.imag, tau * w)
        S.flat[0] = F.flat[0]
        want = np.fft.ifftn(S, norm="ortho").real
    elif key == "fft-zero":  # no weight, nothing is changed (at any frequency, also the partially penalized ones)
        reg, want = R.Regularizer_fft(0.0, fft_filter=str(rng.choice(["delta", "exp", "exp2"])), norm=dt.DataFidelity_l1()), xf
    elif key == "lower":
        lim = 0.3 if rng.random() < 0.5 else np.round(rng.uniform(-1, 1, vs), 2).astype(dtype)
        reg, want = R.Constraint_LowerLimit(lim), np.maximum(xf, lim)
    else:
        lim = 0.3 if rng.random() < 0.5 else np.round(rng.uniform(-1, 1, vs), 2).astype(dtype)
        reg, want = R.Constraint_UpperLimit(lim), np.minimum(xf, lim)
    reg.initialize_sigma_tau(x)
    t0 = np.copy(tau)
    y = x.copy()
    reg.apply_proximal_primal(y, tau)
    c.close(y, want, "formula", key, rtol=1e-8 if dtype == np.float64 else 2e-4, scale=5)
    c.same(np.asarray(tau), t0, "inputs", "step size modified")
    z = y.copy()
    if key in ("lower", "upper"):
        reg.apply_proximal_primal(z, tau)
        c.close(z, y, "formula", "projection is not idempotent", rtol=1e-6)


@check.family("constraints", 250, 4000, ["inactive", "pushes-back", "info", "optimum"])
def constraints(c):
    """Limits as penalties: silent on feasible values, pushing infeasible ones back, with the documented optimum."""
    rng = c.rng
    vs, dtype = volume(c)
    low = bool(rng.random() < 0.5)
    lim = float(np.round(rng.uniform(-1, 1), 2)) if rng.random() < 0.6 else np.round(rng.uniform(-1, 1, vs), 2).astype(dtype)
    mask = (rng.random(vs) < 0.6).astype(dtype) if rng.random() < 0.3 else None
    cls = R.Constraint_LowerLimit if low else R.Constraint_UpperLimit
    c.describe(lower=low, vol=vs, array_limit=bool(np.ndim(lim)), mask=mask is not None)
    reg = cls(lim, upd_mask=mask)
    x = rng.standard_normal(vs).astype(dtype) * 2
    reg.initialize_sigma_tau(x)
    q = reg.initialize_dual()
    for _ in range(int(rng.integers(1, 4))):
        reg.update_dual(q, x)
        reg.apply_proximal_dual(q)
    u = np.asarray(reg.compute_update_primal(q), float)
    viol = (x < lim) if low else (x > lim)
    on = np.ones(vs, bool) if mask is None else mask > 0
    c.expect(not np.any(u[~(viol & on)]), "inactive", "feasible (or masked) values are pushed")
    push = -u if low else u
    c.expect(np.all(push[viol & on] > 0), "pushes-back", "infeasible values are not pushed back")
    q1 = reg.initialize_dual()
    reg.update_dual(q1, x)
    reg.apply_proximal_dual(q1)
    d = x.astype(float) - lim
    c.close(q1, np.where(viol, d, 0) / 2, "pushes-back", "strength", rtol=1e-5, scale=1)
    c.expect(isinstance(reg.info(), str) and isinstance(reg.upper(), str), "info")
    if rng.random() < 0.25 and mask is None and dtype == np.float64:
        n = int(np.prod(vs))
        M = rng.uniform(0, 1, (n + 3, n)) + np.eye(n + 3, n)
        b = (M @ x.ravel())[None]
        A = projectors.ProjectorMatrix(M, vs, b.shape)
        s = 1.0 if low else -1.0
        l = np.broadcast_to(lim, vs).ravel()
        pen = O.Fun(lambda z: 0.5 * float(np.sum(np.maximum(s * (l - z), 0) ** 2)), lambda z, t: np.where(s * (l - z) > 0, (z + t * l) / (1 + t), z))
        obj = O.Objective(n, [(M, O.l2(b)), (np.eye(n), pen)])
        _, Fr = obj.solve(2000)
        xs, _ = solvers.PDHG(regularizer=reg)(A, b, 3000)
        c.expect(obj(xs) - Fr <= 1e-3 * (obj(np.zeros(n)) - Fr), "optimum", f"{obj(xs)} vs {Fr}")


@check.family("multi-channel", 300, 4000, ["feasible", "projection", "reference", "shape"])
def multi_channel(c):
    """Vectorial TV, nuclear TV and wavelet regularizers: dual feasibility, and influence of reference channels."""
    rng = c.rng
    key = str(rng.choice(["vtv", "tnv", "vl1wl", "lnswl", "vsvd"]))
    nc = int(rng.integers(1, 4))
    sh = (4, 4) if key in ("vl1wl", "lnswl") else tuple(int(v) for v in rng.integers(2, 6, 2))
    if key == "vtv" and rng.random() < 0.2:
        sh = ((1, sh[1]), (sh[0], 1), (1, 1))[int(rng.integers(3))]
    vs = (nc, *sh)
    w = float(np.round(10 ** rng.uniform(-1.5, 0.5), 3))
    if rng.random() < 0.1:
        w = 0.0
    x = rng.standard_normal(vs) * 2
    dn, cn = (float(v) if v == np.inf else int(v) for v in (rng.choice([1, 2, np.inf]), rng.choice([1, 2, np.inf])))
    ref = rng.standard_normal(sh) * 2 if rng.random() < 0.5 else None
    c.describe(reg=key, vol=vs, weight=w, norms=(str(dn), str(cn)), reference=ref is not None)
    norms = lambda z, dn, cn: _chan(_der(z, dn), cn)

    def _der(z, p):
        return np.abs(z) if p == 1 else np.sqrt((z**2).sum(0, keepdims=True)) if p == 2 else np.abs(z).sum(0, keepdims=True)

    def _chan(n, p):
        return n if p == 1 else np.sqrt((n**2).sum(1, keepdims=True)) if p == 2 else np.abs(n).sum(1, keepdims=True)

    if key == "vtv":
        reg = R.Regularizer_VTV(w, pwise_der_norm=dn, pwise_chan_norm=cn, x_ref=None if ref is None else ref)
        reg.initialize_sigma_tau(x)
        q = reg.initialize_dual()
        reg.update_dual(q, x)
        z = 0.5 * ops.TransformGradient(vs, axes=(-2, -1))(x)
        c.close(q, z, "projection", "dual step", rtol=1e-9)
        reg.apply_proximal_dual(q)
        c.expect(q.shape == (2, *vs), "shape", f"{q.shape}")
        zz = z if ref is None else np.concatenate([z, 0.5 * ops.TransformGradient(sh)(ref)[:, None]], axis=1)
        n = norms(zz, dn, cn)
        want = (zz / np.maximum(n, max(w, 1e-300)) * w)[:, :nc]
        c.close(q, want, "reference" if ref is not None else "projection", f"norms {dn},{cn}", rtol=1e-5, atol=1e-9)
        c.expect(norms(q, dn, cn).max() <= w * (1 + 1e-5) + 1e-9, "feasible", f"{norms(q, dn, cn).max()} > {w}")
        # a scalar volume is a volume with one channel
        r1, r2 = R.Regularizer_VTV(w, pwise_der_norm=dn, pwise_chan_norm=cn), R.Regularizer_VTV(w, pwise_der_norm=dn, pwise_chan_norm=cn)
        outs = []
        for r, v in ((r1, x[0]), (r2, x[:1])):
            r.initialize_sigma_tau(v)
            qq = r.initialize_dual()
            r.update_dual(qq, v)
            r.apply_proximal_dual(qq)
            outs.append(r.compute_update_primal(qq))
        c.close(outs[0], outs[1][0], "shape", "scalar and single-channel volumes differ", rtol=1e-9, atol=1e-12)
    elif key == "tnv":
        reg = R.Regularizer_TNV(w)
        reg.initialize_sigma_tau(x)
        q = reg.initialize_dual()
        reg.update_dual(q, x)
        z = 0.5 * ops.TransformGradient(vs, axes=(-2, -1))(x)
        reg.apply_proximal_dual(q)
        U, s, V = np.linalg.svd(np.moveaxis(z, (1, 0), (-2, -1)), full_matrices=False)
        c.close(np.moveaxis(q, (1, 0), (-2, -1)), U @ (np.minimum(s, 1)[..., None] * V), "projection", "spectral", rtol=1e-6, atol=1e-8)
        c.close(reg.compute_update_primal(q), w * ops.TransformGradient(vs, axes=(-2, -1)).T(q), "projection", "weighted update", rtol=1e-6, atol=1e-9)
        c.monitors["feasible"] += 1
    elif key in ("vl1wl", "lnswl"):
        W = ops.TransformStationaryWavelet(vs, "haar", 1, axes=(-2, -1), normalized=True)
        if key == "vl1wl":
            rf = None if ref is None else ref[None]
            reg = R.Regularizer_vl1wl(w, "haar", 1, normalized=True, pwise_lvl_norm=dn, pwise_chan_norm=cn, x_ref=rf)
        else:
            reg = R.Regularizer_lnswl(w, "haar", 1, normalized=True)
        reg.initialize_sigma_tau(x)
        q = reg.initialize_dual()
        reg.update_dual(q, x)
        c.close(q, W(x), "projection", "dual step", rtol=1e-9, atol=1e-12)
        z = q.copy()
        reg.apply_proximal_dual(q)
        c.expect(q.shape == z.shape, "shape", f"{q.shape}")
        if key == "vl1wl":
            n = norms(q, dn, cn)
            c.expect(n.max() <= w * (1 + 1e-5) + 1e-9, "feasible", f"{n.max()} > {w}")
            if ref is None:
                want = z / np.maximum(norms(z, dn, cn), max(w, 1e-300)) * w
                c.close(q, want, "projection", f"norms {dn},{cn}", rtol=1e-6, atol=1e-9)
            else:
                free = R.Regularizer_vl1wl(w, "haar", 1, normalized=True, pwise_lvl_norm=dn, pwise_chan_norm=cn)
                free.initialize_sigma_tau(x)
                qf = z.copy()
                free.apply_proximal_dual(qf)
                c.expect(np.all(np.abs(q) <= np.abs(qf) * (1 + 1e-6) + 1e-12), "reference", "the reference increased the dual")
                if cn == 1 and dn == 1:
                    c.close(q, qf, "reference", "independent channels, but the reference matters", rtol=1e-9, atol=1e-12)
                elif cn != 1 and w > 0:
                    c.expect(np.any(np.abs(q) < np.abs(qf) * 0.999) or norms(np.concatenate([z, W(np.repeat(ref[None], nc, 0))[:, :1]], 1), dn, cn).max() <= w, "reference", "the reference has no effect")
        else:
            U, s, V = np.linalg.svd(np.moveaxis(z, (1, 0), (-2, -1)), full_matrices=False)
            c.close(np.moveaxis(q, (1, 0), (-2, -1)), U @ (np.minimum(s, 1)[..., None] * V), "projection", "spectral", rtol=1e-6, atol=1e-8)
    else:
        reg = R.Regularizer_vSVD(w)
        reg.initialize_sigma_tau(x)
        q = reg.initialize_dual()
        reg.update_dual(q, x)
        s0 = np.linalg.svd(x.reshape(nc, -1), compute_uv=False)
        reg.apply_proximal_dual(q)
        c.expect(np.abs(q).max() <= w * (1 + 1e-5) + 1e-9, "feasible", f"{np.abs(q).max()} > {w}")
        u = reg.compute_update_primal(q)
        c.expect(u.shape == vs, "shape")
        U, s, V = np.linalg.svd(x.reshape(nc, -1), full_matrices=False)
        lim = w * np.sqrt(nc * (x.size // nc))
        c.close(u.reshape(nc, -1), U @ (np.minimum(s, lim)[:, None] * V), "projection", "singular values", rtol=1e-6, atol=1e-9)
        if w >= s0.max() * 2 * max(1, np.sqrt(x.size)):
            c.close(u, x, "projection", "inactive weight", rtol=1e-6, atol=1e-9)


@check.family("wavelets", 200, 3000, ["clipped", "approx-free", "zero-weight"])
def wavelets(c):
    """Wavelet regularizers: clipped coefficients, with the approximation left free on request."""
    rng = c.rng
    key = str(rng.choice(["l1swl", "l1swl-n", "l12swl", "Hub_swl", "l1dwl", "Hub_dwl", "l12dwl"]))
    wl = str(rng.choice(["haar", "db2", "db3", "sym4"])) if "swl" in key else str(rng.choice(["haar", "db2"]))
    lvl = int(rng.integers(1, 3))
    vs = (int(rng.choice([4, 8])), int(rng.choice([4, 8, 12])))
    if "dwl" in key and wl != "haar":
        vs = (16, 16)
    if rng.random() < 0.3:
        vs = (2, *vs)
    w = float(np.round(10 ** rng.uniform(-2, 0.5), 3)) if rng.random() < 0.9 else 0.0
    mina = bool(rng.random() < 0.5) if key != "Hub_dwl" else True
    c.describe(reg=key, wavelet=wl, level=lvl, vol=vs, weight=w, min_approx=mina)
    reg = {
        "l1swl": lambda: R.Regularizer_l1swl(w, wl, lvl, min_approx=mina),
        "l1swl-n": lambda: R.Regularizer_l1swl(w, wl, lvl, normalized=True, min_approx=mina),
        "l12swl": lambda: R.Regularizer_l12swl(w, wl, lvl, min_approx=mina),
        "Hub_swl": lambda: R.Regularizer_Hub_swl(w, wl, lvl, 0.1, normalized=True, min_approx=mina),
        "l1dwl": lambda: R.Regularizer_l1dwl(w, wl, lvl, min_approx=mina),
        "Hub_dwl": lambda: R.Regularizer_Hub_dwl(w, wl, lvl, 0.1),
        "l12dwl": lambda: R.Regularizer_l12dwl(w, wl, lvl, min_approx=mina),
    }[key]()
    x = rng.standard_normal(vs) * 2
    reg.initialize_sigma_tau(x)
    q = reg.initialize_dual()
    x0 = x.copy()
    for _ in range(2):
        reg.update_dual(q, x)
        reg.apply_proximal_dual(q)
    c.same(x, x0, "inputs")
    lim = 1.0 if key.startswith("Hub") else w
    c.expect(np.abs(q).max() <= lim * (1 + 1e-5) + 1e-12, "clipped", f"{np.abs(q).max()} > {lim}")
    if not mina:
        if "swl" in key:
            c.expect(not q[0].any(), "approx-free", "the approximation is penalized")
        else:
            sl = tuple(slice(0, s) for s in reg.op.sub_band_shapes[0])
            c.expect(not q[sl].any(), "approx-free", "the approximation is penalized")
        if w:
            c.expect(q.any(), "approx-free", "no coefficient is penalized")
    u = reg.compute_update_primal(q)
    c.expect(u.shape == vs, "clipped", f"shape {u.shape}")
    if w == 0:
        c.expect(not np.any(np.abs(u) > 1e-12), "zero-weight", f"{np.abs(u).max()}")


def bands(reg, q):
    """The sub-bands of the coefficients of a wavelet regularizer: approximation, then {label: detail} for each level (coarse to fine)."""
    if isinstance(reg, R.Regularizer_swl):
        n = 2**reg.ndims - 1
        return [q[0], *({str(i): q[1 + l * n + i] for i in range(n)} for l in range(reg.level))]
    import pywt

    return pywt.array_to_coeffs(q, reg.op.slicing_info)


@check.family("groups", 150, 2000, ["groups", "levels"])
def groups(c):
    """l12-norm wavelet regularizers join the orientations of the same position and scale, and nothing else."""
    rng = c.rng
    swl = bool(rng.random() < 0.5)
    lvl = int(rng.integers(1, 4))
    nd = int(rng.choice([2, 2, 2, 3, 1]))
    n = [int(2**lvl * rng.integers(1, 3)) if nd < 3 else 2**lvl for _ in range(nd)]
    vs = (2, *n) if nd < 3 and rng.random() < 0.3 else tuple(n)
    wl = "haar" if not swl else str(rng.choice(["haar", "db2", "sym3"]))
    w = float(np.round(10 ** rng.uniform(-2, 0.5), 3))
    mina = bool(rng.random() < 0.6)
    norm = bool(rng.random() < 0.5)
    mk = lambda: R.Regularizer_l12swl(w, wl, lvl, ndims=nd, normalized=norm, min_approx=mina) if swl else R.Regularizer_l12dwl(w, wl, lvl, ndims=nd, min_approx=mina)
    c.describe(stationary=swl, level=lvl, vol=vs, wavelet=wl, weight=w, min_approx=mina, normalized=norm)
    reg = mk()
    x = rng.standard_normal(vs) * 2
    reg.initialize_sigma_tau(x)
    q = reg.initialize_dual()
    reg.update_dual(q, x)
    before = bands(reg, q.copy())
    reg.apply_proximal_dual(q)
    after = bands(reg, q)
    if vs != tuple(n):  # the decimated coefficients of a stack are kept side by side: one slice at a time
        c.event("stack")
    c.close(after[0], ball(before[0], w), "groups", "approximation", rtol=1e-9, atol=1e-12)
    c.expect(mina or not np.any(before[0]), "groups", "the approximation is penalized")
    act = 0
    for l, (b, a) in enumerate(zip(before[1:], after[1:])):
        z = np.stack(list(b.values()))
        act += bool(np.any(np.sqrt((z**2).sum(0)) > w))
        c.close(np.stack(list(a.values())), ball(z, w, 0), "groups", f"details of level {l} (coarse to fine) of {lvl}", rtol=1e-9, atol=1e-12)
        c.monitors["levels"] += 1
    c.trivial = not act


@check.family("huber-wavelets", 120, 2000, ["shrink", "clip"])
def huber_wavelets(c):
    """Huber-norm wavelet regularizers: coefficients are shrunk according to the size of the quadratic region (and to their own step), and clipped at one."""
    rng = c.rng
    swl = bool(rng.random() < 0.5)
    lvl, nd = int(rng.integers(1, 4)), int(rng.choice([1, 2, 2, 3]))
    n = [int(2**lvl * rng.integers(1, 3)) if nd < 3 else 2**lvl for _ in range(nd)]
    vs = (2, *n) if nd < 3 and rng.random() < 0.3 else tuple(n)
    w, a = float(np.round(10 ** rng.uniform(-2, 0.5), 3)), float(np.round(10 ** rng.uniform(-2, 0.7), 3))
    wl = str(rng.choice(["haar", "db2", "sym3"])) if swl else "haar"
    norm = bool(rng.random() < 0.5)
    c.describe(stationary=swl, level=lvl, vol=vs, wavelet=wl, weight=w, size=a, normalized=norm)
    reg = R.Regularizer_Hub_swl(w, wl, lvl, a, ndims=nd, normalized=norm) if swl else R.Regularizer_Hub_dwl(w, wl, lvl, a, ndims=nd)
    x = rng.standard_normal(vs) * float(10 ** rng.uniform(-1, 1))
    reg.initialize_sigma_tau(x)
    K = ops.TransformStationaryWavelet(vs, wl, lvl, axes=np.arange(-nd, 0), normalized=norm) if swl else ops.TransformDecimatedWavelet(vs, wl, lvl, axes=np.arange(-nd, 0))
    z = np.asarray(K(x))
    q = reg.initialize_dual()
    reg.update_dual(q, x)
    ok = np.abs(z) > 1e-9 * np.abs(z).max()
    sig = np.where(ok, q / np.where(ok, z, 1), 0)
    c.expect(np.all(sig[ok] > 0) and np.all(sig[ok] <= 1 + 1e-9), "shrink", f"dual steps from {sig[ok].min():.3g} to {sig[ok].max():.3g}")
    reg.apply_proximal_dual(q)
    want = sig * z / (1 + sig * a)
    c.close(q[ok], (want / np.maximum(1, np.abs(want)))[ok], "shrink", rtol=1e-6, atol=1e-9)
    c.expect(np.abs(q).max() <= 1 + 1e-9, "clip", f"{np.abs(q).max()}")
    if np.any(np.abs(want) > 1):
        c.event("clipped")
    y = rng.standard_normal(vs)
    if not swl or norm:
        c.close(np.sum(np.asarray(reg.compute_update_primal(q)) * y), w * np.sum(q * np.asarray(K(y))), "shrink", "weighted update", rtol=1e-7, scale=10.0 * x.size)


@check.family("axes", 150, 2000, ["axes", "steps"])
def chosen_axes(c):
    """A regularizer of given axes does to a volume what the one of the last axes does to the volume with those axes moved to the end."""
    rng = c.rng
    lvl = int(rng.integers(1, 3))
    w = float(np.round(10 ** rng.uniform(-2, 0.5), 3))
    pm = str(rng.choice(["edge", "constant", "symmetric"]))
    nd = int(rng.integers(1, 3))
    facs = {
        "tv": lambda ax: R.Regularizer_Grad(w, ndims=nd, axes=ax, pad_mode=pm),
        "smooth": lambda ax: R.Regularizer_Grad(w, ndims=nd, axes=ax, pad_mode=pm, norm=dt.DataFidelity_l2()),
        "lap": lambda ax: R.Regularizer_lap(w, ndims=nd, axes=ax, pad_mode=pm),
        "l1swl": lambda ax: R.Regularizer_l1swl(w, "db2", lvl, ndims=nd, axes=ax, normalized=True),
        "l12swl": lambda ax: R.Regularizer_l12swl(w, "haar", lvl, ndims=nd, axes=ax, normalized=True),
        "hubswl": lambda ax: R.Regularizer_Hub_swl(w, "haar", lvl, 0.1, ndims=nd, axes=ax, normalized=True),
        "l1dwl": lambda ax: R.Regularizer_l1dwl(w, "haar", lvl, ndims=nd, axes=ax),
        "hubdwl": lambda ax: R.Regularizer_Hub_dwl(w, "haar", lvl, 0.1, ndims=nd, axes=ax),
        "fft": lambda ax: R.Regularizer_fft(w, ndims=nd, axes=ax, fft_filter=ff),
        "vsvd": lambda ax: R.Regularizer_vSVD(w, ndims=2, axes=(-2, -1) if ax is None else ax, axis_channels=(0,) if ax is None else (int(rest[0]),)),
    }
    ff = str(rng.choice(["exp", "exp2", "delta"]))
    key = str(rng.choice(sorted(facs)))
    n = 3
    nd = 2 if key == "vsvd" else nd
    vs = tuple(int(4 * rng.integers(1, 3)) for _ in range(n)) if "wl" in key else tuple(int(v) for v in rng.integers(2, 6, n))
    ax = tuple(int(v) for v in np.sort(rng.choice(n, nd, replace=False)))
    rest = [i for i in range(n) if i not in ax]
    giv = np.array(ax) - (n if rng.random() < 0.5 else 0)
    giv = giv[::-1] if rng.random() < 0.3 else giv
    giv = giv if rng.random() < 0.5 else tuple(int(v) for v in giv)
    c.describe(reg=key, vol=vs, axes=tuple(int(v) for v in giv), pad=pm, level=lvl)
    x = rng.standard_normal(vs) * 2
    us, taus = [], []
    for a, v in ((giv, x), (None, np.ascontiguousarray(np.moveaxis(x, ax, np.arange(-nd, 0))))):
        reg = facs[key](a)
        taus.append(reg.initialize_sigma_tau(v))
        q = reg.initialize_dual()
        for _ in range(2):
            reg.update_dual(q, v)
            reg.apply_proximal_dual(q)
        us.append(np.asarray(reg.compute_update_primal(q)))
    c.close(us[0], np.moveaxis(us[1], np.arange(-nd, 0), ax), "axes", key, rtol=1e-7, scale=max(1.0, np.abs(us[1]).max()))
    c.close(taus[0], taus[1], "steps", key, rtol=1e-12)
    c.trivial = ax == tuple(range(n - nd, n))


@check.family("mirror", 200, 3000, ["commutes", "steps"])
def mirror(c):
    """Isotropic regularizers treat all axes alike: what they do to a transposed volume is the transposed of what they do to the volume."""
    rng = c.rng
    lvl = int(rng.integers(1, 5))
    w = float(np.round(10 ** rng.uniform(-2, 0.5), 3))
    wl = str(rng.choice(["haar", "db2", "sym3"]))
    mina = bool(rng.random() < 0.6)
    norm = bool(rng.random() < 0.5)
    pm = str(rng.choice(["edge", "constant", "symmetric"]))
    plain = {
        "tv": lambda: R.Regularizer_TV2D(w, pad_mode=pm),
        "smooth": lambda: R.Regularizer_smooth2D(w, pad_mode=pm),
        "hubtv": lambda: R.Regularizer_HubTV2D(w, 0.2, pad_mode=pm),
        "lap": lambda: R.Regularizer_lap2D(w, pad_mode=pm),
        "l1": lambda: R.Regularizer_l1(w),
        "l1med": lambda: R.Regularizer_l1med(w, 3),
        "l2med": lambda: R.Regularizer_l2med(w, 3),
        "fft-exp": lambda: R.Regularizer_fft(w),
        "fft-delta": lambda: R.Regularizer_fft(w, fft_filter="delta"),
    }
    stack = {"tnv": lambda: R.Regularizer_TNV(w, pad_mode=pm), "vtv": lambda: R.Regularizer_VTV(w), "vsvd": lambda: R.Regularizer_vSVD(w), "lnswl": lambda: R.Regularizer_lnswl(w, wl, 1, normalized=True), "vl1wl": lambda: R.Regularizer_vl1wl(w, wl, 1, normalized=True)}
    wav = {
        "l1swl": lambda: R.Regularizer_l1swl(w, wl, lvl, normalized=norm, min_approx=mina),
        "l12swl": lambda: R.Regularizer_l12swl(w, wl, lvl, normalized=norm, min_approx=mina),
        "hubswl": lambda: R.Regularizer_Hub_swl(w, wl, lvl, 0.1, normalized=norm, min_approx=mina),
        "l1dwl": lambda: R.Regularizer_l1dwl(w, "haar", lvl, min_approx=mina),
        "l12dwl": lambda: R.Regularizer_l12dwl(w, "haar", lvl, min_approx=mina),
        "hubdwl": lambda: R.Regularizer_Hub_dwl(w, "haar", lvl, 0.1),
    }
    key = str(rng.choice(sorted(plain) + sorted(stack) + 2 * sorted(wav)))
    fac = (plain | stack | wav)[key]
    if key in wav:
        vs = tuple(int(2**lvl * rng.integers(1, 3 if lvl < 4 else 2)) for _ in range(2))
    elif key in stack and "wl" in key:
        vs = tuple(int(v) for v in rng.choice([4, 6, 8], 2))
    else:
        vs = tuple(int(v) for v in rng.integers(2, 9, 2))
    if key in stack:
        vs = (int(rng.integers(2, 4)), *vs)
    elif rng.random() < 0.2:
        vs = (2, *vs)
    c.describe(reg=key, vol=vs, weight=w, level=lvl, wavelet=wl, pad=pm, min_approx=mina, normalized=norm)
    x = rng.standard_normal(vs) * 2
    outs, taus = [], []
    for v in (x, np.ascontiguousarray(x.swapaxes(-1, -2))):
        reg = fac()
        taus.append(reg.initialize_sigma_tau(v))
        q = reg.initialize_dual()
        us = []
        for k in range(3):
            reg.update_dual(q, v)
            reg.apply_proximal_dual(q)
            us.append(np.asarray(reg.compute_update_primal(q)))
            v = v - us[-1] * 0.1
        outs.append(np.stack(us))
    c.close(outs[1].swapaxes(-1, -2), outs[0], "commutes", key, rtol=1e-7, scale=max(1.0, np.abs(outs[0]).max()))
    c.close(taus[1], taus[0], "steps", key, rtol=1e-12)
    if key in ("l1", "l1dwl", "fft-delta") or (key == "l1swl" and norm):
        ps = []
        for v in (x, np.ascontiguousarray(x.swapaxes(-1, -2))):
            reg = fac() if key != "fft-delta" else R.Regularizer_fft(w, fft_filter="delta", norm=dt.DataFidelity_l1())
            reg.initialize_sigma_tau(v)
            v = v.copy()
            reg.apply_proximal_primal(v, 0.7)
            ps.append(v)
        c.close(ps[1].swapaxes(-1, -2), ps[0], "commutes", f"{key}: primal", rtol=1e-7, scale=2.0)


@check.family("median", 80, 1000, ["deviation", "constant"])
def median(c):
    rng = c.rng
    vs, dtype = volume(c, 3, 7)
    w = float(np.round(10 ** rng.uniform(-1.5, 0.5), 3))
    size = int(rng.choice([3, 5]))
    l1 = bool(rng.random() < 0.5)
    reg = (R.Regularizer_l1med if l1 else R.Regularizer_l2med)(w, size)
    c.describe(l1=l1, vol=vs, size=size)
    x = rng.standard_normal(vs).astype(dtype)
    reg.initialize_sigma_tau(x)
    q = reg.initialize_dual()
    reg.update_dual(q, x)
    reg.apply_proximal_dual(q)
    d = x.astype(float) - spimg.median_filter(x.astype(float), size)
    c.close(reg.compute_update_primal(q), np.clip(d, -w, w) if l1 else w * d / 2, "deviation", rtol=1e-4, scale=1)
    x = np.full(vs, 1.7, dtype)
    q = reg.initialize_dual()
    reg.update_dual(q, x)
    reg.apply_proximal_dual(q)
    c.expect(not np.any(reg.compute_update_primal(q)), "constant", "constant volumes are penalized")


@check.family("fourier", 100, 1500, ["mean-free", "clipped", "filter"])
def fourier(c):
    """Fourier regularizer: penalizes the modulus of the non-constant frequencies only."""
    rng = c.rng
    vs, dtype = volume(c, 2, 7)
    w = float(np.round(10 ** rng.uniform(-1.5, 0.5), 3))
    ff = str(rng.choice(["delta", "exp", "exp2"]))
    reg = R.Regularizer_fft(w, fft_filter=ff)
    c.describe(vol=vs, filter=ff, weight=w)
    x = rng.standard_normal(vs)
    reg.initialize_sigma_tau(x)
    q = reg.initialize_dual()
    reg.update_dual(q, x)
    f = np.stack(np.meshgrid(*[np.fft.fftfreq(s) for s in vs[-2:]], indexing="ij"))
    r2 = (f**2).sum(0)
    g = {"delta": (r2 > 0).astype(float), "exp": 1 - np.exp(-np.sqrt(r2) * 12), "exp2": 1 - np.exp(-r2 * 36)}[ff]
    F = np.fft.fftn(x, axes=(-2, -1), norm="ortho") * g
    c.close(q[0] + 1j * q[1], F, "filter", rtol=1e-9, atol=1e-12)
    reg.apply_proximal_dual(q)
    n = np.hypot(q[0], q[1])
    c.expect(n.max() <= w * (1 + 1e-5), "clipped", f"{n.max()} > {w}")
    c.close(q[0] + 1j * q[1], ball(np.stack([F.real, F.imag]), w, 0)[0] + 1j * ball(np.stack([F.real, F.imag]), w, 0)[1], "clipped", rtol=1e-9, atol=1e-12)
    u = reg.compute_update_primal(q)
    c.expect(np.abs(u.sum(axis=(-2, -1))).max() <= 1e-9 * max(1, u.size), "mean-free", "the mean is penalized")


@check.family("instances", 200, 3000, ["independent", "re-initialized"])
def instances(c):
    """Several regularizers (also of the same class), interleaved on different volumes, behave as if they were alone."""
    rng = c.rng
    regs = []
    for _ in range(int(rng.integers(2, 5))):
        vs = tuple(int(v) for v in rng.integers(2, 6, 2))
        w = float(np.round(10 ** rng.uniform(-1.5, 0.5), 3))
        cat = catalogue(rng, w, vs)
        key = str(rng.choice(sorted(cat)))
        x = rng.standard_normal(vs)
        alone = cat[key][0]()
        alone.initialize_sigma_tau(x)
        q = alone.initialize_dual()
        for _ in range(2):
            alone.update_dual(q, x)
            alone.apply_proximal_dual(q)
        regs.append((key, cat[key][0](), x, alone.compute_update_primal(q)))
    c.describe(regs=[r[0] for r in regs])
    for r in regs:
        if rng.random() < 0.5:  # a previous life on another volume
            r[1].initialize_sigma_tau(rng.standard_normal((3, 7)))
    life = rng.random(len(regs)) < 0.5  # ... and in another precision
    for r, o in zip(regs, life):
        if o:
            r[1].initialize_sigma_tau(r[2].astype(np.float32))
            c.expect(r[1].initialize_dual().dtype == np.float32, "re-initialized", f"{r[0]}: dual of a float32 volume in {r[1].initialize_dual().dtype}")
        r[1].initialize_sigma_tau(r[2])
        if o and rng.random() < 0.5:
            r[1].initialize_sigma_tau(r[2].astype(np.float32))
            c.expect(r[1].initialize_dual().dtype == np.float32, "re-initialized", f"{r[0]}: dual of a float32 volume in {r[1].initialize_dual().dtype}")
            r[1].initialize_sigma_tau(r[2])
    qs = [r[1].initialize_dual() for r in regs]
    for _ in range(2):
        for i in rng.permutation(len(regs)):
            regs[i][1].update_dual(qs[i], regs[i][2])
        for i in rng.permutation(len(regs)):
            regs[i][1].apply_proximal_dual(qs[i])
    for r, q in zip(regs, qs):
        c.close(r[1].compute_update_primal(q), r[3], "independent", r[0], rtol=1e-12, atol=1e-12)
    c.monitors["re-initialized"] += 1


@check.family("rejections", 60, 400, ["fista-rejects", "invalid"])
def rejections(c):
    """Combinations without a (known) solution are refused up front, not computed wrongly."""
    rng = c.rng
    vs = (4, 4)
    cat = catalogue(rng, 0.1, (2, 4, 4))
    key = str(rng.choice([k for k in sorted(cat) if k != "l1"] + ["med", "vsvd", "tnv", "vtv"]))
    reg = {"med": lambda: R.Regularizer_l1med(0.1), "vsvd": lambda: R.Regularizer_vSVD(0.1), "tnv": lambda: R.Regularizer_TNV(0.1), "vtv": lambda: R.Regularizer_VTV(0.1)}.get(key, cat.get(key, [None])[0])()
    c.describe(reg=key)

    def refused(fun, exc, what):
        try:
            fun()
        except exc:
            c.monitors["fista-rejects" if "FISTA" in what else "invalid"] += 1
            return
        c.violate("fista-rejects" if "FISTA" in what else "invalid", f"{what} was accepted")

    refused(lambda: solvers.FISTA(regularizer=reg), ValueError, f"FISTA with {key}")
    refused(lambda: solvers.FISTA(regularizer=[R.Regularizer_l1(0.1), R.Regularizer_l1(0.2)]), ValueError, "FISTA with two regularizers")
    refused(lambda: solvers.FISTA(data_term="kl"), ValueError, "FISTA with KL")
    refused(lambda: solvers.FISTA(data_term=dt.DataFidelity_l1()), ValueError, "FISTA with l1")
    refused(lambda: solvers.PDHG(data_term="nope"), ValueError, "unknown data term")
    refused(lambda: solvers.PDHG(regularizer=["tv"]), ValueError, "string regularizer")
    refused(lambda: R.Regularizer_VTV(0.1, pwise_der_norm=3), ValueError, "unknown point-wise norm")
    refused(lambda: R.Regularizer_l1(0.1).compute_update_primal(np.zeros(vs)), ValueError, "use before initialization")
    swl = R.Regularizer_l1swl(0.1, "haar", 1, normalized=False)
    swl.initialize_sigma_tau(np.zeros(vs))
    refused(lambda: swl.apply_proximal_primal(np.zeros(vs), 1.0), NotImplementedError, "primal proximal of a non-tight frame")


if __name__ == "__main__":
    raise SystemExit(check.main())
