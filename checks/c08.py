"""C08 - residual bookkeeping, iteration counts, and stopping on tolerance."""
import numpy as np

from corrct import data_terms as dt
from rtm.core import Check
from checks.solv import ITERATIVE, WITH_TEST, Runner, pick, problem

check = Check(
    "C08",
    "Random problems, solvers, data terms, masks and tolerances. The trace of iterates is recorded by re-running with 0, 1, ..., N iterations; every recorded residual "
    "is compared with the misfit of the iterate it belongs to, computed with an independent formula. Non-trivial when the residual changes along the trace.",
    scale=(4, 1),
)
EPS = np.finfo(np.float32).eps
BEFORE = ("SIRT", "MLEM")  # record the residual of the solution entering the iteration; the others of the one leaving it


def misfit(key, r, p, src, b, x, mask, name, sigma=None):
    """Independent evaluation of the residual norm."""
    y = np.asarray(p.A(x) if p.kind == "proj" else (p.M @ x.ravel()).reshape(p.ps), float)
    m = np.ones(p.ps) if mask is None else np.asarray(mask, float)
    if src is not None and src.background is not None:
        y = y + src.background
    d = (b - y) * m
    if name == "SART":
        return float(np.sqrt(np.sum(d**2)))
    if key in ("l2", "l2-bg", "l2-bg-array"):
        return float(np.sum(d**2))
    if key in ("wl2", "wl2-zeros"):
        return float(np.sum(src.weights * d**2))
    if key == "l1":
        return float(np.sum(np.abs(d)))
    if key == "l2b":
        return float(np.sum((m * np.fmax(np.abs(b - y) - np.sqrt(src.local_error), 0)) ** 2))
    if key == "l1b":
        return float(np.sum(np.fmax(np.abs(d) - src.local_error, 0)))
    if key == "Huber":
        a = src.local_error
        return float(np.sum(np.where(np.abs(d) <= a, d**2, np.abs(d))))
    if key.startswith("kl"):
        s = 1.0 if sigma is None else sigma
        yy = np.fmax(y, EPS) * s
        return float(np.sum(np.abs((1 + yy - np.sqrt((yy - 1) ** 2 + 4 * s * np.fmax(b, 0))) / 2 * m)))
    raise KeyError(key)


def sigma_of(p, bm, xm, relax=1.0):
    """Row scaling used by the diagonally pre-conditioned KL residual."""
    xo = np.ones(p.vs) if xm is None else xm
    s = np.abs(p.M) @ xo.ravel()
    s[s / s.max() < 1e-5] = 1
    return relax / s.reshape(p.ps)


def setup(c, names, noise=0.1):
    rng = c.rng
    p = problem(c, ("dense", "sparse", "proj"), noise=noise)
    r = pick(c, names, p, it=(2, 12))
    if r.name in ("PDHG", "FISTA"):
        r.precondition = True
    if r.name == "MLEM":
        p.b = np.fmax(p.b, 0.01)
    kw = {}
    if rng.random() < 0.5:
        kw["lower_limit"] = 0.0
    if rng.random() < 0.5:
        m = (rng.random(p.ps) < 0.8).astype(float)
        m.flat[0] = 1
        kw["b_mask"] = m
    if rng.random() < 0.3:
        kw["x0"] = rng.uniform(0.1, 1, p.vs)
    return p, r, kw


@check.family("trace", 300, 5000, ["residual-of-iterate", "initial-residual", "relative", "lengths", "count"])
def trace(c):
    p, r, kw = setup(c, ITERATIVE)
    key = c.desc["data_term"]
    src = r.dterm()
    src = None if isinstance(src, str) else src
    if "b_mask" in kw and not p.M[kw["b_mask"].ravel() > 0].any():
        c.trivial = True
        return
    N = r.iterations
    x, info = r.run(solver_kw=dict(tolerance=0.0), **kw)
    c.expect(info.max_iterations == N and len(info.residuals) == N and len(info.residuals_cv) == N, "lengths")
    c.expect(info.iterations == N, "count", f"{info.iterations} iterations reported, {N} performed")
    c.expect(info.tolerance == 0.0, "count", "tolerance not reported")
    its = [r.run(iterations=k, **kw)[0] for k in range(N + 1)]
    c.close(its[N], x, "tolerance-no-influence", "following the residual changes the solution", rtol=1e-12, scale=max(np.abs(x).max(), 1e-6))
    bm = kw.get("b_mask")
    sg = None
    if key.startswith("kl") and r.name != "MLEM":
        sg = sigma_of(p, bm, None, 0.95 if r.name == "PDHG" else 1.0)
    val = [misfit(key, r, p, src, p.b, xi, bm, r.name, sg) for xi in its]
    sc = max(max(val), 1e-12)
    c.close(info.residual0, val[0], "initial-residual", r.name, rtol=1e-5, scale=sc)
    want = val[:-1] if r.name in BEFORE else val[1:]
    c.close(info.residuals, want, "residual-of-iterate", f"{r.name}/{key}", rtol=1e-5, scale=sc)
    c.close(info.residuals_rel, np.asarray(info.residuals) / val[0], "relative", "relative residuals", rtol=1e-4)
    c.expect(bool(c.desc["solver"].lower() in str(info.method).lower()), "method-name", str(info.method))
    if max(val) - min(val) <= 1e-12 * sc:
        c.trivial = True


@check.family("test-trace", 200, 4000, ["test-residual-of-iterate", "initial-test-residual"])
def test_trace(c):
    """Cross-validation residuals: misfit of the iterate on the test data (excluding the masked-out ones)."""
    rng = c.rng
    p, r, kw = setup(c, WITH_TEST)
    key = c.desc["data_term"]
    src = r.dterm()
    src = None if isinstance(src, str) else src
    t = (rng.random(p.ps) < 0.3).astype(float)
    t.flat[-1] = 1
    bm = kw.get("b_mask")
    train = (1 - t) * (1 if bm is None else bm)
    if not p.M[train.ravel() > 0].any():
        c.trivial = True
        return
    N = r.iterations
    use_tol = rng.random() < 0.5
    custom = rng.random() < 0.3 and r.name in ("SIRT", "PDHG") and key == "l2"
    other_bg = not custom and rng.random() < 0.5 and key in ("l2-bg", "l2-bg-array", "kl-bg", "kl-bg-array")
    skw = dict(tolerance=0.0) if use_tol else {}
    w = rng.uniform(0.2, 1, p.ps)
    if custom:
        skw["data_term_test"] = dt.DataFidelity_wl2(w)
    if other_bg:  # the test data have the background of the data
        skw["data_term_test"] = type(src)(background=None if rng.random() < 0.5 else 0.7)
        c.event("test-term-with-another-background")
    x, info = r.run(solver_kw=skw, b_test_mask=t, **kw)
    its = [r.run(iterations=k, b_test_mask=t, **kw)[0] for k in range(N + 1)]
    tm = t * (1 if bm is None else bm)
    sg = None
    if key.startswith("kl") and r.name != "MLEM":
        sg = sigma_of(p, train, None, 0.95 if r.name == "PDHG" else 1.0)
    if key.startswith("kl") and r.name == "MLEM":
        sg = None
    if custom:
        val = [misfit("wl2", r, p, dt.DataFidelity_wl2(w), p.b, xi, tm, r.name, sg) for xi in its]
    else:
        val = [misfit(key, r, p, src, p.b, xi, tm, r.name, sg) for xi in its]
    sc = max(max(val), 1e-12)
    c.close(info.residual0_cv, val[0], "initial-test-residual", r.name, rtol=1e-5, scale=sc)
    c.close(info.residuals_cv, val[:-1] if r.name in BEFORE else val[1:], "test-residual-of-iterate", f"{r.name}/{key}", rtol=1e-5, scale=sc)
    if val[0] > 0:
        c.close(info.residuals_cv_rel, np.asarray(info.residuals_cv) / val[0], "relative", rtol=1e-4)
    c.describe(custom_test_term=custom, tolerance=use_tol)


@check.family("stop", 300, 5000, ["stops-first", "stopped-solution", "not-before"])
def stop(c):
    """The iterations end exactly when the residual first falls below the tolerance, with the solution of that moment."""
    rng = c.rng
    p, r, kw = setup(c, ITERATIVE, noise=float(rng.choice([0, 0.05])))
    if "b_mask" in kw and not p.M[kw["b_mask"].ravel() > 0].any():
        c.trivial = True
        return
    N = int(rng.integers(5, 30))
    _, full = r.run(iterations=N, solver_kw=dict(tolerance=0.0), **kw)
    res = np.asarray(full.residuals)
    if not np.all(np.isfinite(res)) or res.max() <= 0:
        c.trivial = True
        return
    tol = float(np.quantile(res, rng.uniform(0, 1)) * rng.choice([1.0, 1.0001, 0.98])) if rng.random() < 0.8 else float(res.min() * 0.5)
    below = np.nonzero(res < tol)[0]
    x, info = r.run(iterations=N, solver_kw=dict(tolerance=tol), **kw)
    k = int(below[0]) + 1 if below.size else N
    c.expect(info.iterations == k, "stops-first", f"{r.name}: stopped after {info.iterations}, expected {k} (tolerance {tol:g})")
    c.close(info.residuals[:k], res[:k], "not-before", "residuals up to the stop", rtol=1e-9, scale=res.max())
    ups = k - 1 if (r.name in BEFORE and below.size) else k
    want, _ = r.run(iterations=ups, **kw)
    c.close(x, want, "stopped-solution", f"{r.name}: not the solution of the last iteration", rtol=1e-9, scale=max(np.abs(want).max(), 1e-6))
    c.event("stopped-early", int(k < N))
    c.describe(N=N, k=k)


@check.family("no-tolerance", 120, 1500, ["count", "zero-iterations"])
def no_tolerance(c):
    """Without tolerance all the iterations are performed; with no iterations the initial solution comes back."""
    p, r, kw = setup(c, ITERATIVE)
    if "b_mask" in kw and not p.M[kw["b_mask"].ravel() > 0].any():
        c.trivial = True
        return
    _, info = r.run(**kw)
    c.expect(info.iterations == r.iterations and info.tolerance is None, "count", f"{info.iterations} != {r.iterations}")
    kw["x0"] = c.rng.uniform(0.1, 1, p.vs)
    x, info = r.run(iterations=0, **kw)
    c.expect(info.iterations == 0 and len(info.residuals) == 0, "count")
    c.close(x, kw["x0"], "zero-iterations", rtol=1e-12)


if __name__ == "__main__":
    raise SystemExit(check.main())
