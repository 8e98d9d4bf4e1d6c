"""Monitors shared by the operator checks."""
import numpy as np


def rand_dtype(rng):
    return rng.choice([np.float32, np.float64])


def eps_of(*arrs):
    return 2e-5 if any(np.asarray(a).dtype == np.float32 for a in arrs) else 1e-9


def monitor_linear(c, A, make_x, tol, name="linear"):
    """A(a x + b y) == a A(x) + b A(y), and A(0) == 0."""
    x, y = make_x(), make_x()
    a, b = c.rng.uniform(-3, 3, 2)
    ax, ay = np.array(A(x), dtype=float), np.array(A(y), dtype=float)
    lhs = np.array(A((a * x + b * y).astype(x.dtype)), dtype=float)
    sc = max(np.abs(ax).max() * abs(a) + np.abs(ay).max() * abs(b), 1e-30)
    c.close(lhs, a * ax + b * ay, name, "superposition", rtol=tol, scale=sc)
    c.expect(not np.any(A(np.zeros_like(x))), name + "-zero", "A(0) != 0")


def monitor_adjoint(c, A, At, make_x, make_y, tol, name="adjoint"):
    """<A x, y> == <x, At y> in float64 accumulation."""
    x, y = make_x(), make_y()
    ax, aty = np.asarray(A(x)), np.asarray(At(y))
    if not c.expect(ax.shape == y.shape and aty.shape == x.shape, name + "-shape", f"{ax.shape} {y.shape} {aty.shape} {x.shape}"):
        return
    d1 = float(np.sum(ax.astype(float) * y.astype(float)))
    d2 = float(np.sum(x.astype(float) * aty.astype(float)))
    sc = max(float(np.linalg.norm(ax) * np.linalg.norm(y)), float(np.linalg.norm(x) * np.linalg.norm(aty)), 1e-30)
    c.expect(abs(d1 - d2) <= tol * sc, name, f"<Ax,y>={d1:.9g} <x,Aty>={d2:.9g} scale={sc:.3g}")


def monitor_pure(c, A, x, name="pure"):
    """A does not modify its argument, and gives bit-identical results when called again."""
    x0 = x.copy()
    r1 = np.array(A(x), copy=True)
    c.expect(np.array_equal(x0, x), name + "-input", "argument was modified")
    r2 = np.array(A(x), copy=True)
    c.same(r2, r1, name + "-repeat", "second call differs from the first")
    return r1


def monitor_integers(c, A, shape, tol=1e-5, name="integers", signed=True):
    """Integer data are transformed as the same floating-point data."""
    kind = [np.int64, np.int32, np.int16][int(c.rng.integers(3))]
    x = c.rng.integers(-20 if signed else 0, 21, shape).astype(kind)
    want = np.asarray(A(x.astype(np.float64)), dtype=float)
    c.close(np.asarray(A(x), dtype=float), want, name, np.dtype(kind).name, rtol=tol, scale=max(float(np.abs(want).max()), 1e-30) if want.size else 1.0)
