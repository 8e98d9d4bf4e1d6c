"""C06 - excluded data (masked pixels, held-out test data, zero-weight data) never influence the reconstruction."""
import numpy as np

from corrct import data_terms as dt
from rtm.core import Check
from checks.solv import ITERATIVE, WITH_TEST, Problem, Runner, pick, problem

check = Check(
    "C06",
    "Random inverse problems with a random data mask and/or held-out test mask (bool, integer or float; whole projections or scattered pixels), every iterative solver and data "
    "term. The excluded values are replaced with arbitrary ones, or the rows are removed from the system altogether: the reconstruction must be the same. Non-trivial when at "
    "least one datum is excluded and changing it without the mask does change the reconstruction.",
    scale=(3, 1),
)


def a_mask(c, shape, p_keep=(0.5, 0.9), rows_ok=True):
    rng = c.rng
    m = rng.random(shape) < rng.uniform(*p_keep)
    if rows_ok and rng.random() < 0.3:
        m = np.broadcast_to((rng.random((shape[0], 1)) < 0.7), shape).copy()
    if m.all():
        m.flat[int(rng.integers(m.size))] = False
    if not m.any():
        m.flat[int(rng.integers(m.size))] = True
    return m


def corrupt(c, b, where):
    """Arbitrary (but finite) values at the selected positions."""
    out = b.copy()
    kind = int(c.rng.integers(0, 3))
    new = [c.rng.uniform(0, 50, b.shape), c.rng.standard_normal(b.shape) * 1e4, np.zeros(b.shape)][kind]
    out[where] = new[where].astype(b.dtype)
    return out


def cast(c, m, name, dtype=float):
    return m.astype(c.rng.choice([bool, np.uint8, np.float32, np.float64]) if name != "SART" else dtype)


@check.family("data-mask", 500, 8000, ["no-influence", "mask-matters", "mask-dtype", "mask-unmodified"])
def data_mask(c):
    p = problem(c, ("dense", "sparse", "proj"), noise=0.2)
    r = pick(c, ITERATIVE, p, it=(2, 20))
    if r.name == "MLEM":
        p.b = np.fmax(p.b, 0.01)
    m = a_mask(c, p.ps)
    if not p.M[m.ravel()].any():  # no informative data left
        c.trivial = True
        return
    mk = cast(c, m, r.name)
    mk0 = mk.copy()
    tol = dict(tolerance=0.0) if c.rng.random() < 0.5 else {}
    x1, i1 = r.run(b_mask=mk, solver_kw=tol)
    c.same(mk, mk0, "mask-unmodified", "the mask was modified")
    b2 = corrupt(c, p.b, ~m)
    x2, i2 = r.run(b=b2, b_mask=mk, solver_kw=tol)
    sc = max(float(np.abs(x1).max()), 1e-3)
    c.close(x2, x1, "no-influence", f"{r.name}: masked-out data changed the solution", rtol=1e-9, scale=sc)
    if tol and np.all(np.isfinite(i1.residuals)):
        c.close(i2.residuals, i1.residuals, "residuals-no-influence", "masked-out data changed the residuals", rtol=1e-9, scale=max(i1.residuals.max(), 1e-9))
    x3, _ = r.run(b_mask=m.astype(float), solver_kw=tol)
    c.close(x3, x1, "mask-dtype", "the mask's data type matters", rtol=1e-6, scale=sc)
    xf, _ = r.run(b=b2, solver_kw=tol)
    c.monitors["mask-matters"] += int(not np.allclose(xf, x1, rtol=1e-6, atol=1e-9 * sc))
    c.describe(n_masked=int((~m).sum()))


@check.family("rows-removed", 400, 6000, ["same-as-removed"])
def rows_removed(c):
    """Masking data gives the same reconstruction as never having measured it."""
    p = problem(c, ("dense", "sparse"), noise=0.1, zero_cols=False)
    name = str(c.rng.choice(["MLEM", "SIRT", "PDHG", "FISTA"]))
    r = pick(c, [name], p, it=(2, 25), prob_reg=0.4)
    if name == "MLEM":
        p.b = np.fmax(p.b, 0.01)
    if r.name in ("PDHG", "FISTA"):
        r.precondition = True
    key = c.desc["data_term"]
    m = a_mask(c, p.ps)
    red = p.rows(m)
    # every pixel must be clearly seen by the remaining data, and every datum must see something
    if np.any(red.M.sum(0) < 1e-3) or np.any(p.M.sum(1) < 1e-3):
        c.trivial = True
        c.monitors["same-as-removed"] += 1
        return
    x1, _ = r.run(b_mask=m.astype(p.b.dtype))
    mk = lambda v: np.asarray(v).ravel()[m.ravel()][None]  # noqa: E731
    red_terms = {"wl2": "w", "wl2-zeros": "wz", "l2-bg-array": "bg", "kl-bg-array": "bg"}
    if key in red_terms:
        src = r.dterm()
        if key.startswith("wl2"):
            dterm = lambda: dt.DataFidelity_wl2(mk(src.weights))  # noqa: E731
        elif key.startswith("l2"):
            dterm = lambda: dt.DataFidelity_l2(background=mk(src.background))  # noqa: E731
        else:
            dterm = lambda: dt.DataFidelity_KL(background=mk(src.background))  # noqa: E731
    else:
        dterm = r.dterm
    r2 = Runner(c, name, red, r.reg, dterm, r.precondition, r.iterations)
    x2, _ = r2.run()
    c.close(x1, x2, "same-as-removed", f"{name}/{key}", rtol=1e-6, scale=max(np.abs(x2).max(), 1e-3))


@check.family("pixels-removed", 300, 5000, ["same-as-removed"])
def pixels_removed(c):
    """Masking pixels of the solution gives the same values elsewhere as never having had them in the model."""
    p = problem(c, ("dense", "sparse"), noise=0.1, zero_cols=False)
    name = str(c.rng.choice(["MLEM", "SIRT", "PDHG", "FISTA"]))
    r = pick(c, [name], p, it=(2, 25), prob_reg=0.0)
    if name == "MLEM":
        p.b = np.fmax(p.b, 0.01)
    if r.name in ("PDHG", "FISTA"):
        r.precondition = True
    m = a_mask(c, p.vs, rows_ok=False)
    red = p.cols(m)
    if np.any(red.M.sum(1) < 1e-3) or np.any(p.M.sum(0) < 1e-3):
        c.trivial = True
        c.monitors["same-as-removed"] += 1
        return
    x0 = None
    if c.rng.random() < 0.5:  # a start with values in the pixels which are left out
        x0 = (c.rng.uniform(0.1, 2, p.vs) if name == "MLEM" else c.rng.uniform(-1, 2, p.vs)).astype(p.b.dtype)
    c.describe(x0=x0 is not None)
    x1, _ = r.run(x_mask=m.astype(p.b.dtype), x0=x0)
    r2 = Runner(c, name, red, r.reg, r.dterm, r.precondition, r.iterations)
    x2, _ = r2.run(x0=None if x0 is None else x0[m].reshape(red.vs))
    c.close(x1[m], x2.ravel(), "same-as-removed", name, rtol=1e-6, scale=max(np.abs(x2).max(), 1e-3))


@check.family("test-data", 500, 8000, ["no-influence", "cv-sees-test", "cv-only-test", "test-equals-masked", "mask-unmodified"])
def test_data(c):
    """Held-out data never influence the solution nor the data residual; they alone make the cross-validation residual."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "proj"), noise=0.2)
    r = pick(c, WITH_TEST, p, it=(2, 20))
    if r.name == "MLEM":
        p.b = np.fmax(p.b, 0.01)
    t = a_mask(c, p.ps, (0.1, 0.4), rows_ok=False)
    m = a_mask(c, p.ps) if rng.random() < 0.5 else None
    used = (~t) if m is None else (~t & m)
    if not used.any() or not p.M[used.ravel()].any():  # no informative data left
        c.trivial = True
        return
    tk = cast(c, t, "x")
    mk = None if m is None else cast(c, m, "x")
    tk0, mk0 = tk.copy(), None if mk is None else mk.copy()
    tol = dict(tolerance=0.0) if rng.random() < 0.6 else {}
    x1, i1 = r.run(b_mask=mk, b_test_mask=tk, solver_kw=tol)
    c.same(tk, tk0, "mask-unmodified", "the test mask was modified")
    if mk is not None:
        c.same(mk, mk0, "mask-unmodified", "the data mask was modified")
    sc = max(float(np.abs(x1).max()), 1e-3)
    held = t if m is None else (t & m)
    # 1. excluded data (test or masked) do not influence the solution
    b2 = corrupt(c, p.b, t if m is None else (t | ~m))
    x2, i2 = r.run(b=b2, b_mask=mk, b_test_mask=tk, solver_kw=tol)
    c.close(x2, x1, "no-influence", f"{r.name}: held-out data changed the solution", rtol=1e-9, scale=sc)
    if tol:
        c.close(i2.residuals, i1.residuals, "residuals-no-influence", "held-out data changed the data residual", rtol=1e-9, scale=max(i1.residuals.max(), 1e-9))
    # 2. same solution as masking the test data
    mm = (~t if m is None else (m & ~t)).astype(float)
    x3, _ = r.run(b_mask=mm)
    c.close(x3, x1, "test-equals-masked", f"{r.name}", rtol=1e-6, scale=sc)
    # 3. the cross-validation residual is that of the test data only (those not masked out)
    if m is not None:
        b4 = corrupt(c, p.b, t & ~m)
        _, i4 = r.run(b=b4, b_mask=mk, b_test_mask=tk, solver_kw=tol)
        c.close(i4.residuals_cv, i1.residuals_cv, "cv-only-test", "masked-out data changed the test residual", rtol=1e-9, scale=max(np.abs(i1.residuals_cv).max(), 1e-9))
    else:
        c.monitors["cv-only-test"] += 1
    if held.any():
        b5 = p.b.copy()
        b5[held] = b5[held] * 3 + 7
        _, i5 = r.run(b=b5, b_mask=mk, b_test_mask=tk, solver_kw=tol)
        if c.desc["data_term"] != "wl2-zeros":
            c.expect(abs(float(i5.residuals_cv[0]) - float(i1.residuals_cv[0])) > 1e-9 * abs(float(i1.residuals_cv[0])), "cv-sees-test", "test data do not enter the test residual")
    c.describe(n_test=int(t.sum()), masked=m is not None)


@check.family("zero-weight", 200, 3000, ["no-influence"])
def zero_weight(c):
    """Data with zero weight are excluded data."""
    p = problem(c, ("dense", "sparse"), noise=0.2)
    name = str(c.rng.choice(["SIRT", "PDHG", "FISTA"]))
    m = a_mask(c, p.ps)
    if not p.M[m.ravel()].any():
        c.trivial = True
        return
    w = np.where(m, c.rng.uniform(0.2, 1, p.ps), 0.0)
    pre = bool(c.rng.random() < 0.7)
    r = Runner(c, name, p, None, lambda: dt.DataFidelity_wl2(w), pre if name != "SIRT" else None, int(c.rng.integers(2, 25)))
    tol = dict(tolerance=0.0)
    x1, i1 = r.run(solver_kw=tol)
    x2, i2 = r.run(b=corrupt(c, p.b, ~m), solver_kw=tol)
    c.close(x2, x1, "no-influence", name, rtol=1e-9, scale=max(np.abs(x1).max(), 1e-3))
    c.close(i2.residuals, i1.residuals, "residuals-no-influence", name, rtol=1e-9, scale=max(i1.residuals.max(), 1e-9))
    c.finite(x1, "finite")


if __name__ == "__main__":
    raise SystemExit(check.main())
