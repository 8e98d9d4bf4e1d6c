"""C10 - data-fidelity terms: residuals, proximal operators of the function and its conjugate, slicing."""
import copy

import numpy as np

from corrct import data_terms as dt
from rtm.core import Check
from checks import optim as O

check = Check(
    "C10",
    "Random shapes (1-4 dims), precision, data, scalar and array step sizes, weights, backgrounds and masks for every data term. Proximal operators are compared with independent "
    "formulas and with Moreau's identity, and shown to be minimizers against random competitors. Non-trivial when the term moves at least one entry.",
    scale=(30, 1),
)


def shape_of(rng):
    return tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 5))))


def make(c, names=None):
    """A data term with its independent counterpart (data without background, as the proximal operators act on A x + background)."""
    rng = c.rng
    shape = shape_of(rng)
    dtype = np.float32 if rng.random() < 0.3 else np.float64
    b = (rng.standard_normal(shape) * 2).astype(dtype)
    names = names or ["l2", "wl2", "l2b", "l2b-array", "Huber", "Huber-array", "l1", "l1b", "l1b-array", "KL"]
    key = str(rng.choice(names))
    if key == "KL":
        b = np.where(rng.random(shape) < 0.15, -np.abs(b) * 0.1, np.abs(b)).astype(dtype)
    bgk = str(rng.choice(["none", "scalar", "array"], p=[0.5, 0.25, 0.25]))
    bg = dict(none=None, scalar=float(np.round(rng.uniform(0.1, 1), 2)), array=np.round(rng.uniform(0.1, 1, shape), 2).astype(dtype))[bgk]
    err = float(np.round(rng.uniform(0.05, 0.8), 2))
    erra = np.round(rng.uniform(0.05, 0.8, shape), 2).astype(dtype)
    w = (np.round(rng.uniform(0.2, 2, shape), 2) * (rng.random(shape) < 0.85)).astype(dtype)
    if not w.any():
        w[...] = 1
    term = {
        "l2": lambda: dt.DataFidelity_l2(bg),
        "wl2": lambda: dt.DataFidelity_wl2(w, bg),
        "l2b": lambda: dt.DataFidelity_l2b(err, bg),
        "l2b-array": lambda: dt.DataFidelity_l2b(erra, bg),
        "Huber": lambda: dt.DataFidelity_Huber(err, bg),
        "Huber-array": lambda: dt.DataFidelity_Huber(erra, bg),
        "l1": lambda: dt.DataFidelity_l1(bg),
        "l1b": lambda: dt.DataFidelity_l1b(err, bg),
        "l1b-array": lambda: dt.DataFidelity_l1b(erra, bg),
        "KL": lambda: dt.DataFidelity_KL(bg),
    }[key]()
    d = b.astype(float)
    fun = {
        "l2": lambda: O.l2(d),
        "wl2": lambda: O.l2(d, w=w),
        "l2b": lambda: O.l2b(d, err),
        "l2b-array": lambda: O.l2b(d, erra.astype(float).ravel()),
        "Huber": lambda: O.huber(d, err),
        "Huber-array": lambda: O.huber(d, erra.astype(float).ravel()),
        "l1": lambda: O.l1(d),
        "l1b": lambda: O.l1(d, slack=err),
        "l1b-array": lambda: O.l1(d, slack=erra.astype(float).ravel()),
        "KL": lambda: O.kl(d),
    }[key]()
    c.describe(term=key, shape=shape, dtype=np.dtype(dtype).name, background=bgk)
    return key, term, fun, b, bg, dict(err=erra if key.endswith("array") else err, w=w)


def step(rng, shape, dtype):
    if rng.random() < 0.4:
        return float(np.round(rng.uniform(0.05, 3), 3))
    return np.round(rng.uniform(0.05, 3, shape), 3).astype(dtype)


@check.family("dual-proximal", 500, 8000, ["moreau", "update-dual", "feasible", "inputs"])
def dual_proximal(c):
    rng = c.rng
    key, term, fun, b, bg, par = make(c)
    sg = step(rng, b.shape, b.dtype)
    b0, sg0 = b.copy(), copy.copy(sg)
    term.assign_data(b, sg)
    y = term.initialize_dual()
    c.expect(y.shape == b.shape and not y.any() and y.dtype == b.dtype, "init-dual", f"{y.shape}")
    proj = (rng.standard_normal(b.shape) * 3).astype(b.dtype)
    y += rng.standard_normal(b.shape).astype(b.dtype)
    want = y.astype(float) + (proj.astype(float) + (0 if bg is None else bg)) * sg
    p0 = proj.copy()
    term.update_dual(y, proj)
    tol = 1e-10 if b.dtype == np.float64 else 1e-4
    c.close(y, want, "update-dual", key, rtol=tol, scale=10)
    c.same(proj, p0, "inputs", "projection modified")
    q = y.copy()
    term.apply_proximal_dual(q)
    s = np.broadcast_to(np.asarray(sg, float), b.shape).ravel()
    yf = y.astype(float).ravel()
    want = yf - s * fun.prox(yf / s, 1 / s)
    c.close(q.ravel(), want, "moreau", f"{key}: dual proximal (step {'array' if np.ndim(sg) else 'scalar'})", rtol=tol, scale=max(10, np.abs(yf).max()))
    if key in ("l1", "l1b", "l1b-array", "Huber", "Huber-array"):
        c.expect(np.abs(q).max() <= 1 + 1e-6, "feasible", f"|dual| {np.abs(q).max()}")
    if key == "KL":
        c.expect(q.max() <= 1 + 1e-6, "feasible", f"dual {q.max()}")
    c.same(b, b0, "inputs", "data modified")
    c.same(np.asarray(sg), np.asarray(sg0), "inputs", "step size modified")
    # the data term can be assigned again, also with another shape
    term2_b = (np.abs(rng.standard_normal((3, 2))) + 0.1).astype(b.dtype)
    if bg is None and key in ("l2", "l2b", "Huber", "l1", "l1b", "KL"):
        term.assign_data(term2_b, 0.5)
        fresh = copy.deepcopy(term)
        fresh.__init__(*([par["err"]] if key in ("l2b", "Huber", "l1b") else []))
        fresh.assign_data(term2_b, 0.5)
        d1, d2 = np.ones((3, 2), b.dtype), np.ones((3, 2), b.dtype)
        term.apply_proximal_dual(d1)
        fresh.apply_proximal_dual(d2)
        c.same(d1, d2, "re-assign", key)


@check.family("primal-proximal", 400, 6000, ["formula", "minimizer", "nonexpansive", "inputs"])
def primal_proximal(c):
    rng = c.rng
    key, term, fun, b, bg, par = make(c, ["l2", "wl2", "l2b", "l2b-array", "l1", "l1b", "l1b-array", "KL"])
    b0 = b.copy()
    term.assign_data(b, step(rng, b.shape, b.dtype))
    tau = step(rng, b.shape, b.dtype)
    x = (rng.standard_normal(b.shape) * 3).astype(b.dtype)
    if key == "KL":
        x = np.abs(x) + 0.1
    y = x.copy()
    term.apply_proximal_primal(y, tau)
    t = np.broadcast_to(np.asarray(tau, float), b.shape).ravel()
    tol = 1e-9 if b.dtype == np.float64 else 2e-4
    c.close(y.ravel(), fun.prox(x.astype(float).ravel(), t), "formula", f"{key}: primal proximal", rtol=tol, scale=10)
    c.same(b, b0, "inputs", "data modified")

    def h(v):
        v = np.asarray(v, float).ravel()
        return fun.value(v) + float(np.sum((v - x.astype(float).ravel()) ** 2 / (2 * t)))

    hy = h(y)
    for e in (1e-3, 1e-1, 1.0):
        v = y + e * rng.standard_normal(b.shape)
        if key == "KL":
            v = np.abs(v) + 1e-6
        c.expect(hy <= h(v) + 1e-3 * tol ** 0.5 * max(1, abs(hy)), "minimizer", f"{key}: not the minimizer ({hy} > {h(v)})")
    x2 = x + 0.5 * rng.standard_normal(b.shape).astype(b.dtype)
    if key == "KL":
        x2 = np.abs(x2) + 0.1
    y2 = x2.copy()
    term.apply_proximal_primal(y2, tau)
    lhs, rhs = np.sum((y2 - y).astype(float).ravel() ** 2 / t), np.sum((x2 - x).astype(float).ravel() ** 2 / t)
    c.expect(lhs <= rhs * (1 + 1e-4) + 1e-6, "nonexpansive", f"{lhs} > {rhs}")
    if np.allclose(x, y):
        c.trivial = True


@check.family("residual", 400, 6000, ["residual", "norm", "dot", "inputs"])
def residual(c):
    rng = c.rng
    key, term, fun, b, bg, par = make(c)
    sg = step(rng, b.shape, b.dtype)
    term.assign_data(b, sg)
    proj = (rng.standard_normal(b.shape) * 3).astype(b.dtype)
    mask = None if rng.random() < 0.4 else (rng.random(b.shape) < 0.7).astype(b.dtype)
    if mask is not None and key not in ("l2b", "l2b-array") and rng.random() < 0.25:  # partial confidence
        mask *= np.round(rng.uniform(0.1, 1, b.shape), 2).astype(b.dtype)
    p0 = proj.copy()
    m0 = None if mask is None else mask.copy()
    r = term.compute_residual(proj, mask) if rng.random() < 0.5 else term.compute_residual(proj_primal=proj, mask=mask)
    c.same(proj, p0, "inputs", "projection modified")
    if mask is not None:
        c.same(mask, m0, "inputs", "mask modified")
    m = np.ones(b.shape) if mask is None else mask.astype(float)
    d = b.astype(float) - proj.astype(float) - (0 if bg is None else bg)
    tol = 1e-9 if b.dtype == np.float64 else 1e-3
    soft = lambda v, e: np.sign(v) * np.maximum(np.abs(v) - e, 0)
    if key == "KL":
        y = np.fmax(proj.astype(float) + (0 if bg is None else bg), np.finfo(np.float32).eps)
        q = np.asarray(sg, float) * y
        bb = np.fmax(b.astype(float), 0)
        want = -m * (1 + q - np.sqrt((q - 1) ** 2 + 4 * np.asarray(sg, float) * bb)) / 2
        plain = term.compute_residual(proj, mask, use_proximal=False)
        c.close(plain, m * (bb / y - 1), "residual", "KL gradient", rtol=tol, scale=max(1.0, float((bb / y).max())))
    else:
        want = m * {"wl2": lambda: d * par["w"], "l2b": lambda: soft(d, np.sqrt(par["err"])), "l2b-array": lambda: soft(d, np.sqrt(par["err"]))}.get(key, lambda: d)()
    c.close(r, want, "residual", key, rtol=tol, scale=10)
    a = np.abs(want)
    nrm = {
        "l2": lambda: (want**2).sum(),
        "wl2": lambda: ((m * d) ** 2 * par["w"]).sum(),
        "l2b": lambda: (want**2).sum(),
        "l2b-array": lambda: (want**2).sum(),
        "Huber": lambda: np.where(a <= par["err"], want**2, a).sum(),
        "Huber-array": lambda: np.where(a <= par["err"], want**2, a).sum(),
        "l1": lambda: a.sum(),
        "l1b": lambda: np.maximum(a - par["err"], 0).sum(),
        "l1b-array": lambda: np.maximum(a - par["err"], 0).sum(),
        "KL": lambda: a.sum(),
    }[key]()
    r0 = r.copy()
    c.close(term.compute_residual_norm(r), nrm, "norm", key, rtol=max(tol, 1e-6), scale=max(float(nrm), 1e-3))
    c.same(r, r0, "inputs", "residual modified")
    if mask is None or rng.random() < 0.5:
        dual = rng.standard_normal(b.shape).astype(b.dtype)
        c.close(term.compute_data_dual_dot(dual, mask), (dual.astype(float) * b * m).sum(), "dot", rtol=max(tol, 1e-6), scale=10.0 * b.size)


@check.family("scales", 250, 4000, ["residual", "norm", "dual", "primal"])
def scales(c):
    """Homogeneity: the terms have no built-in scale. Factors are powers of two, hence exact in floating point."""
    rng = c.rng
    shape = shape_of(rng)
    dtype = np.float32 if rng.random() < 0.3 else np.float64
    key = str(rng.choice(["wl2", "l2", "l2b", "Huber", "l1", "l1b"]))
    k = int(rng.integers(-40, 41))
    s = float(2.0**k)
    b, x, u = ((rng.standard_normal(shape) * 2).astype(dtype) for _ in range(3))
    w = (rng.uniform(0.2, 2, shape) * (rng.random(shape) < 0.85)).astype(dtype)
    w.flat[0] = 1
    err = np.round(rng.uniform(0.05, 0.8, shape), 2).astype(dtype) if key in ("l2b", "l1b") and rng.random() < 0.5 else float(np.round(rng.uniform(0.05, 0.8), 2))
    sg = float(rng.uniform(0.2, 2))
    c.describe(term=key, shape=shape, dtype=np.dtype(dtype).name, exponent=k)

    def make_term(f):
        return {
            "wl2": lambda: dt.DataFidelity_wl2((w * f).astype(dtype)), "l2": dt.DataFidelity_l2, "l1": dt.DataFidelity_l1, "Huber": lambda: dt.DataFidelity_Huber(err * f),
            "l2b": lambda: dt.DataFidelity_l2b(err * f**2 if np.ndim(err) == 0 else (err * f**2).astype(dtype)), "l1b": lambda: dt.DataFidelity_l1b(err * f if np.ndim(err) == 0 else (err * f).astype(dtype)),
        }[key]()

    # wl2: the scale of the weights; others: the scale of the data
    dat = 1.0 if key == "wl2" else s
    t1, ts = make_term(1.0), make_term(s)
    t1.assign_data(b, sg)
    ts.assign_data((b * dat).astype(dtype), sg)
    tol = 1e-10 if dtype == np.float64 else 1e-5
    r1, rs = t1.compute_residual(x), ts.compute_residual((x * dat).astype(dtype))
    c.close(rs / s, r1, "residual", "scaled residual", rtol=tol, atol=tol * 4)
    if key != "Huber":
        p = 2 if key in ("l2", "l2b") else 1
        n1 = t1.compute_residual_norm(r1)
        c.close(ts.compute_residual_norm(rs) / s**p, n1, "norm", "scaled norm", rtol=10 * tol, atol=10 * tol)
    # primal proximal: also for data of a higher precision than the volume, the step follows the scale
    if key != "Huber":
        f1, ft = {"wl2": (1.0, 1 / s), "l2": (s, 1.0), "l1": (s, s), "l2b": (s, s**2), "l1b": (s, s)}[key]
        vt = np.float32 if abs(k) < 30 and rng.random() < 0.5 else dtype
        tau = float(rng.uniform(0.1, 2))
        pr1, prs = x.astype(vt), (x * f1).astype(vt)
        t1.apply_proximal_primal(pr1, tau)
        ts.apply_proximal_primal(prs, tau * ft)
        ok = 1e-10 if vt == np.float64 and dtype == np.float64 else 1e-5
        c.close(prs.astype(float) / f1, pr1, "primal", "scaled primal proximal", rtol=ok, atol=ok * 4)
    # dual proximal: the scale moves to sigma for the weights; the l1-like balls do not scale
    if key == "wl2":
        g1, gs = make_term(1.0), make_term(s)
        g1.assign_data(b, sg)
        gs.assign_data(b, sg * s)
        d1, ds = u.copy(), (u * s).astype(dtype)
        g1.apply_proximal_dual(d1)
        gs.apply_proximal_dual(ds)
        c.close(ds / s, d1, "dual", "scaled dual proximal", rtol=tol, atol=tol * 4)
    c.monitors["dual"] += 1


@check.family("gap", 200, 3000, ["fenchel", "tight"])
def gap(c):
    """Fenchel's inequality: gap(y, q) >= <y, q>, with equality for q in the sub-differential of the term at y (l2, l1); KL: distance from the data."""
    rng = c.rng
    key, term, fun, b, bg, par = make(c, ["l2", "l1", "KL"])
    term.assign_data(b, step(rng, b.shape, b.dtype))
    y = (rng.standard_normal(b.shape) * 2).astype(b.dtype)
    tol = 1e-8 if b.dtype == np.float64 else 1e-3
    bgf = 0.0 if bg is None else bg
    sc = max(10.0, 10.0 * b.size)
    if key == "KL":
        y = np.abs(y) + 0.1
        g = term.compute_primal_dual_gap(y, y)
        yy, bb = y.astype(float) + bgf, np.fmax(b.astype(float), np.finfo(np.float32).eps)
        c.close(g, np.sum(np.abs(yy - bb * (1 - np.log(bb) + np.log(yy)))), "fenchel", "KL", rtol=max(tol, 1e-6), scale=sc)
        if bg is None:
            e = term.compute_primal_dual_gap(np.fmax(b, np.finfo(np.float32).eps), y)
            c.expect(abs(e) <= 1e-5 * sc, "tight", f"{e}")
        return
    q = rng.uniform(-1, 1, b.shape).astype(b.dtype)
    full = (y.astype(float) + bgf) * q
    g = term.compute_primal_dual_gap(y, q)
    c.expect(g - full.sum() >= -tol * sc, "fenchel", f"{key}: {g} < {full.sum()}")
    d = (y.astype(float) + bgf) - b
    qs = d if key == "l2" else np.sign(d)
    g = term.compute_primal_dual_gap(y, qs.astype(b.dtype))
    c.close(g, ((y.astype(float) + bgf) * qs).sum(), "tight", key, rtol=tol, scale=sc)


@check.family("grouped", 250, 4000, ["l12", "huber-group", "nuclear", "feasible"])
def grouped(c):
    """l1-l2, grouped Huber, and nuclear norms: their dual proximals are the projections on the dual balls."""
    rng = c.rng
    kind = str(rng.choice(["l12", "huber", "nuclear"]))
    shape = tuple(int(v) for v in rng.integers(2, 5, int(rng.integers(2, 5))))
    ax = int(rng.integers(-len(shape), len(shape)))
    sg = float(np.round(rng.uniform(0.1, 2), 2))
    c.describe(kind=kind, shape=shape, axis=ax)
    y = rng.standard_normal(shape) * rng.uniform(0.3, 3)
    q = y.copy()
    if kind == "l12":
        t = dt.DataFidelity_l12(l2_axis=ax)
        t.assign_data(None, sg)
        w = float(np.round(rng.uniform(0, 2), 2)) if rng.random() < 0.7 else 0.0
        t.apply_proximal_dual(q, w) if rng.random() < 0.8 else (t.apply_proximal_dual(q), w := 1.0)
        n = np.sqrt((y**2).sum(axis=ax, keepdims=True))
        c.close(q, y * np.minimum(1, w / n), "l12", f"weight {w}", rtol=1e-10, atol=1e-12)
        t2 = dt.DataFidelity_l12(l2_axis=ax)
        b = rng.standard_normal(shape)
        t2.assign_data(b, sg)
        q2 = y.copy()
        t2.apply_proximal_dual(q2)
        v = y - sg * b
        c.close(q2, v / np.maximum(1, np.sqrt((v**2).sum(axis=ax, keepdims=True))), "l12", "with data", rtol=1e-10, atol=1e-12)
        c.close(t2.compute_residual_norm(t2.compute_residual(y)), np.sqrt(((b - y) ** 2).sum(axis=ax)).sum(), "l12", "norm", rtol=1e-9)
    elif kind == "huber":
        a = float(np.round(rng.uniform(0.05, 0.8), 2))
        t = dt.DataFidelity_Huber(a, l2_axis=ax)
        t.assign_data(None, sg)
        t.apply_proximal_dual(q)
        v = y / (1 + sg * a)
        c.close(q, v / np.maximum(1, np.sqrt((v**2).sum(axis=ax, keepdims=True))), "huber-group", rtol=1e-10, atol=1e-12)
    else:
        axes = [int(v) for v in rng.permutation(len(shape))[:2]]
        t = dt.DataFidelity_ln(ln_axes=tuple(axes))
        t.assign_data(None, sg)
        t.apply_proximal_dual(q)
        mv = lambda v: np.moveaxis(v, axes, (-2, -1))
        U, s, V = np.linalg.svd(mv(y), full_matrices=False)
        c.close(mv(q), U @ (np.minimum(s, 1)[..., None] * V), "nuclear", f"axes {axes}", rtol=1e-9, atol=1e-11)
        c.expect(np.linalg.svd(mv(q), compute_uv=False).max() <= 1 + 1e-9, "feasible")
        c.close(t.compute_residual_norm(y), s.sum(), "nuclear", "norm", rtol=1e-9)
        # data: one more row, which takes part in the decomposition and is then left out
        t2 = dt.DataFidelity_ln(ln_axes=tuple(axes))
        b = rng.standard_normal([1 if i == axes[0] else n for i, n in enumerate(shape)]) * 2
        t2.assign_data(b, sg)
        q2 = y.copy()
        t2.apply_proximal_dual(q2)
        U, s, V = np.linalg.svd(mv(np.concatenate([y, sg * b], axis=axes[0])), full_matrices=False)
        c.close(mv(q2), (U @ (np.minimum(s, 1)[..., None] * V))[..., :-1, :], "nuclear", f"axes {axes}, with data", rtol=1e-9, atol=1e-11)
    for t in (dt.DataFidelity_l12(), dt.DataFidelity_Huber(0.1), dt.DataFidelity_ln()):
        try:
            t.apply_proximal_primal(q, 1.0)
            c.violate("not-implemented", f"{type(t).__name__} silently accepted a primal proximal it does not have")
        except NotImplementedError:
            c.event("primal-rejected")


@check.family("slicing", 200, 3000, ["slice", "independent"])
def slicing(c):
    """A slice of a data term acts as the data term of the sliced data."""
    rng = c.rng
    key, term, fun, b, bg, par = make(c, ["l2", "wl2", "l2b-array", "l1", "l1b-array", "KL", "Huber", "Huber-array", "l2b"])
    sg = step(rng, b.shape, b.dtype)
    term.assign_data(b, sg)
    ind = int(rng.integers(b.shape[0])) if rng.random() < 0.5 and b.ndim > 1 else slice(0, max(1, b.shape[0] - 1))
    arrays = [b, *([bg] if isinstance(bg, np.ndarray) else []), *([sg] if np.ndim(sg) else []), *([par["w"]] if key == "wl2" else []), *([par["err"]] if key.endswith("array") else [])]
    if b.size == 1 or any(a.size == 1 for a in arrays):
        c.trivial = True
        return
    sub = term[ind]
    y = (rng.standard_normal(b.shape) * 2).astype(b.dtype)
    if key == "wl2" and not par["w"][ind].any():
        c.trivial = True
        return
    full = y.copy()
    term.apply_proximal_dual(full)
    part = y[ind].copy()
    sub.apply_proximal_dual(part)
    c.close(part, full[ind], "slice", f"{key}: dual proximal of the slice", rtol=1e-6)
    c.close(sub.compute_residual(y[ind]), term.compute_residual(y)[ind], "slice", f"{key}: residual of the slice", rtol=1e-6)
    x = np.abs(y) + 0.1
    up, us = np.zeros_like(y), np.zeros_like(y[ind])
    term.update_dual(up, x)
    sub.update_dual(us, x[ind])
    c.close(us, up[ind], "slice", f"{key}: dual update", rtol=1e-6)
    before = term.compute_residual(y)
    sub.assign_data(np.ones_like(b[ind]), 1.0)
    c.same(term.compute_residual(y), before, "independent", "assigning the slice changed the original")
    cp = copy.deepcopy(term)
    cp.assign_data(np.ones_like(b), 0.3)
    c.same(term.compute_residual(y), before, "independent", "assigning a copy changed the original")
    c.expect(sub.info().startswith(term.info().split("(")[0]) and term.upper() == term.info().upper() and term.lower() == term.info().lower(), "info")


if __name__ == "__main__":
    raise SystemExit(check.main())
