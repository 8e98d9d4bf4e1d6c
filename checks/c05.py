"""C05 - reconstructions respect their constraints (limits, masks, positivity) and stay finite."""
import numpy as np

from corrct import operators as ops
from corrct import projectors
from rtm.core import Check
from checks.solv import ITERATIVE, Runner, pick, problem

check = Check(
    "C05",
    "Random inverse problems (dense/sparse/tomographic/deblurring, with empty rows and columns), solver, data term, regularizer, limits (scalar or array, one- or two-sided), "
    "solution and data masks, warm starts inside and outside the limits, float32/float64. Non-trivial when at least one limit or mask is active, i.e. changes the unconstrained result.",
    scale=(5, 1),
)


def limits(c, vs, dtype, signed=False):
    rng = c.rng
    kind = str(rng.choice(["lower", "upper", "both", "array-lower", "array-both", "none"] if not signed else ["upper", "both"]))
    lo = hi = None
    if kind in ("lower", "both"):
        lo = float(rng.choice([0.0, 0.1, -0.2]))
    if kind in ("upper", "both"):
        hi = float(rng.choice([0.3, 0.8, 1.5]))
    if signed and kind in ("upper", "both"):
        hi = float(rng.choice([-0.1, 0.0, 0.3]))
        lo = None if lo is None else hi - float(rng.uniform(0.05, 0.5))
    if kind in ("array-lower", "array-both"):
        lo = rng.uniform(0, 0.3, vs).astype(dtype)
    if kind == "array-both":
        hi = lo + rng.uniform(0.1, 0.8, vs).astype(dtype)
    c.describe(limits=kind)
    return lo, hi


def check_feasible(c, x, vs, lo, hi, mask, prefix=""):
    c.expect(tuple(x.shape) == tuple(vs), prefix + "shape", f"{x.shape} != {vs}")
    c.finite(x, prefix + "finite", "solution")
    inside = np.ones(vs, bool) if mask is None else np.asarray(mask, bool)
    if lo is not None:
        l = np.broadcast_to(np.asarray(lo, x.dtype), vs)
        c.expect(np.all(x[inside] >= l[inside]), prefix + "lower", f"min slack {np.min(x[inside] - l[inside]) if inside.any() else 0}")
    if hi is not None:
        h = np.broadcast_to(np.asarray(hi, x.dtype), vs)
        c.expect(np.all(x[inside] <= h[inside]), prefix + "upper", f"min slack {np.min(h[inside] - x[inside]) if inside.any() else 0}")
    if mask is not None:
        c.expect(not np.any(x[~inside]), prefix + "mask", f"largest value outside the mask {np.abs(x[~inside]).max() if (~inside).any() else 0}")


def do(c, names, kinds, prob_reg=0.4):
    rng = c.rng
    dtype = rng.choice([np.float32, np.float64])
    p = problem(c, kinds, dtype=dtype)
    r = pick(c, names, p, prob_reg)
    if r.name in ("MLEM",):
        p.b = np.fmax(p.b, 0)
    lo, hi = limits(c, p.vs, dtype, signed=r.name != "MLEM" and rng.random() < 0.15)
    mask = None
    if rng.random() < 0.5:
        mask = rng.random(p.vs) < rng.uniform(0.4, 0.9)
        mask.flat[int(rng.integers(mask.size))] = True
        mask = mask.astype(rng.choice([bool, dtype, np.uint8]) if r.name != "SART" else dtype)
    kw = dict(lower_limit=lo, upper_limit=hi, x_mask=mask)
    if r.name != "FBP" and rng.random() < 0.4:
        bm = (rng.random(p.ps) < 0.8).astype(dtype)
        if rng.random() < 0.4:
            bm[int(rng.integers(p.ps[0]))] = 0
        if bm.any():
            kw["b_mask"] = bm
    x0 = None
    if rng.random() < 0.4 and r.name != "FBP":
        x0 = (rng.uniform(0.05, 3, p.vs) if r.name == "MLEM" else rng.uniform(-2, 3, p.vs)).astype(dtype)
    solver_kw = {}
    c.describe(x_mask=None if mask is None else str(mask.dtype), b_mask="b_mask" in kw, x0=x0 is not None)
    x, info = r.run(x0=x0, solver_kw=solver_kw, **kw)
    check_feasible(c, x, p.vs, lo, hi, mask)
    if r.name == "MLEM":
        c.expect(np.all(x >= -(1e-9 if x.dtype == np.float64 else 1e-5) * max(1.0, float(np.abs(x).max()))), "nonnegative", f"min {x.min()}")
    if mask is None and lo is None and hi is None:
        c.event("unconstrained")
    else:
        free, _ = r.run(x0=x0, **{k: v for k, v in kw.items() if k == "b_mask"})
        if not np.array_equal(free, x):
            c.event("constraint-active")


@check.family("iterative", 900, 12000, ["finite", "lower", "upper", "mask", "shape", "nonnegative"])
def iterative(c):
    do(c, ITERATIVE, ("dense", "sparse"))


@check.family("projector", 240, 3000, ["finite", "lower", "upper", "mask", "shape"])
def projector(c):
    do(c, ITERATIVE, ("proj",))


@check.family("deblur", 200, 2000, ["finite", "lower", "upper", "mask"])
def deblur(c):
    do(c, ["MLEM", "SIRT", "PDHG", "FISTA"], ("blur",))


@check.family("signed", 240, 3000, ["finite", "lower", "upper", "mask"])
def signed(c):
    do(c, ["PDHG", "FISTA"], ("signed",), 0.6)


@check.family("fbp", 120, 1000, ["finite", "lower", "upper", "mask", "unclipped-values"])
def fbp(c):
    rng = c.rng
    dtype = rng.choice([np.float32, np.float64])
    p = problem(c, ("proj",), dtype=dtype)
    r = Runner(c, "FBP", p)
    filt = str(rng.choice(["ramp", "shepp-logan", "cosine", "hamming", "hann"]))
    pad = str(rng.choice(["constant", "edge"]))
    c.describe(filter=filt, pad=pad)
    lo, hi = limits(c, p.vs, dtype, signed=rng.random() < 0.3)
    mask = (rng.random(p.vs) < 0.7).astype(dtype) if rng.random() < 0.6 else None
    kw = dict(fbp_filter=filt, pad_mode=pad)
    x, _ = r.run(solver_kw=kw, lower_limit=lo, upper_limit=hi, x_mask=mask)
    check_feasible(c, x, p.vs, lo, hi, mask)
    free, _ = r.run(solver_kw=kw)
    want = np.clip(free, lo, hi) if lo is not None or hi is not None else free
    want = want * mask if mask is not None else want
    c.close(x, want, "unclipped-values", "values inside the limits changed", rtol=1e-5)


@check.family("tolerance", 300, 4000, ["lower", "upper", "mask", "finite"])
def tolerance(c):
    """Constraints also hold when stopping early, after at least one update."""
    rng = c.rng
    p = problem(c, ("dense", "sparse"), noise=0.0)
    name = str(rng.choice(["SART", "SIRT", "PDHG", "FISTA", "MLEM"]))
    if name == "MLEM":
        p.b = np.fmax(p.b, 0)
    r = Runner(c, name, p, iterations=60)
    lo, hi = limits(c, p.vs, np.float64)
    mask = (rng.random(p.vs) < 0.8).astype(float)
    mask.flat[0] = 1
    frac = float(10 ** rng.uniform(-3, -0.3))
    _, i0 = r.run(solver_kw=dict(tolerance=0.0), lower_limit=lo, upper_limit=hi, x_mask=mask)
    tol = float(i0.residual0) * frac
    x, info = r.run(solver_kw=dict(tolerance=tol), lower_limit=lo, upper_limit=hi, x_mask=mask)
    c.event("stopped-early", int(info.iterations < 60))
    updates = info.iterations - (1 if name in ("SIRT", "MLEM") and info.iterations < 60 else 0)
    c.describe(tol_frac=frac, updates=int(updates))
    if updates >= 1:
        check_feasible(c, x, p.vs, lo, hi, mask)
    else:
        c.finite(x, "finite")


@check.family("batched", 120, 2000, ["lower", "upper", "mask", "finite"])
def batched(c):
    """Stacks of slices / channels: the constraints hold for each slice, and slices do not talk to each other (no regularizer)."""
    rng = c.rng
    nz = int(rng.integers(2, 4))
    p = problem(c, ("dense",))
    Mz = np.kron(np.eye(nz), p.M)
    vs, ps = (nz, *p.vs), (nz, *p.ps)
    A = projectors.ProjectorMatrix(Mz, vs, ps)
    b = np.stack([p.b * rng.uniform(0.5, 1.5) for _ in range(nz)])
    name = str(rng.choice(["MLEM", "SIRT", "PDHG", "FISTA"]))
    r = Runner(c, name, p, iterations=int(rng.integers(1, 20)))
    b = np.fmax(b, 0)
    lo, hi = limits(c, p.vs, np.float64)
    mask = (rng.random(p.vs) < 0.8).astype(float)
    mask.flat[0] = 1
    r2 = Runner(c, name, p, iterations=r.iterations)
    pz = type(p)(A, Mz, vs, ps, b, np.stack([p.x_true] * nz), "dense")
    kw = dict(lower_limit=lo, upper_limit=hi)
    x, _ = r2.run(p=pz, b=b, x_mask=np.broadcast_to(mask, vs).copy(), **kw)
    check_feasible(c, x, vs, lo, hi, np.broadcast_to(mask, vs))
    for z in range(nz):
        xz, _ = r.run(b=b[z], x_mask=mask, **kw)
        c.close(x[z], xz, "slices-independent", f"slice {z}", rtol=1e-7, scale=max(np.abs(xz).max(), 1e-3))


if __name__ == "__main__":
    raise SystemExit(check.main())
