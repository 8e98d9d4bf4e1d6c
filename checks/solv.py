"""Random inverse problems and solver configurations shared by the solver checks (C05-C09)."""
import numpy as np
import scipy.sparse as sps

import corrct as cct
from corrct import data_terms as dt
from corrct import operators as ops
from corrct import projectors, regularizers as R, solvers

ITERATIVE = ["SART", "MLEM", "SIRT", "PDHG", "FISTA"]
WITH_TEST = ["MLEM", "SIRT", "PDHG", "FISTA"]


class Problem:
    """A x = b with a known dense matrix, plus the shapes."""

    def __init__(self, A, M, vs, ps, b, x_true, kind):
        self.A, self.M, self.vs, self.ps, self.b, self.x_true, self.kind = A, M, tuple(vs), tuple(ps), b, x_true, kind

    def rows(self, keep):
        """The same problem with only the selected data entries."""
        keep = np.asarray(keep, bool).ravel()
        M = self.M[keep]
        return Problem(projectors.ProjectorMatrix(M, self.vs, (1, int(keep.sum()))), M, self.vs, (1, int(keep.sum())), self.b.ravel()[keep][None], self.x_true, "dense")

    def cols(self, keep):
        keep = np.asarray(keep, bool).ravel()
        M = np.ascontiguousarray(self.M[:, keep])
        return Problem(projectors.ProjectorMatrix(M, (1, int(keep.sum())), self.ps), M, (1, int(keep.sum())), self.ps, self.b, self.x_true.ravel()[keep][None], "dense")

    def sart_kwargs(self):
        """SART on a matrix: single-projection callables (works on [rows, pixels] data, 1 slice per projection)."""
        nr = self.ps[0]
        M3 = self.M.reshape(self.ps[0], self.ps[1], -1)
        return dict(
            A=lambda x, ii: M3[ii] @ x.ravel(),
            At=lambda y, ii: (M3[ii].T @ y.ravel()).reshape(-1),
            A_num_rows=nr,
        )


def pix(rng, lo=3, hi=7):
    return int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1))


def phantom(rng, shape):
    x = np.zeros(shape)
    for _ in range(int(rng.integers(1, 4))):
        y0, x0 = (int(rng.integers(0, s)) for s in shape)
        y1, x1 = (int(rng.integers(1, s + 1)) for s in shape)
        x[y0 : y0 + y1, x0 : x0 + x1] += rng.uniform(0.3, 2)
    return x if x.any() else x + 1.0


def problem(c, kinds=("dense", "sparse", "proj"), over=None, noise=None, zero_cols=True, dtype=np.float64):
    rng = c.rng
    kind = str(rng.choice(list(kinds)))
    if kind in ("dense", "signed", "sparse"):
        vs = pix(rng)
        n = vs[0] * vs[1]
        over = bool(rng.random() < 0.6) if over is None else over
        m_want = int(n * (rng.uniform(1.3, 2.5) if over else rng.uniform(0.4, 0.9)))
        p0 = int(rng.integers(2, 7))
        ps = (p0, max(2, -(-m_want // p0)))
        m = ps[0] * ps[1]
        if kind == "dense":
            M = rng.uniform(0.05, 1, (m, n))
        elif kind == "signed":
            M = rng.standard_normal((m, n))
        else:
            M = rng.uniform(0.2, 1, (m, n)) * (rng.random((m, n)) < rng.uniform(0.15, 0.5))
            if zero_cols and rng.random() < 0.5:
                M[:, rng.integers(0, n)] = 0
            if zero_cols and rng.random() < 0.5:
                M[rng.integers(0, m)] = 0
        M = M.astype(dtype)
        A = projectors.ProjectorMatrix(sps.csr_array(M) if kind == "sparse" and rng.random() < 0.5 else M, vs, ps)
    elif kind in ("proj", "ray"):
        n = int(rng.integers(6, 12))
        na = int(rng.integers(2, 9))
        ang = np.sort(rng.uniform(0, np.pi, na)) if rng.random() < 0.5 else np.linspace(0, np.pi, na, endpoint=False)
        vs, ps = (n, n), (na, n)
        A = projectors.ProjectorUncorrected((n, n), ang, create_single_projs=True)
        M = None
    elif kind == "blur":
        vs = ps = pix(rng, 5, 9)
        k = np.abs(rng.standard_normal((3, 3))) + 0.1
        k = k + k[::-1, ::-1]
        A = ops.TransformConvolution(vs, k / k.sum(), pad_mode="constant")
        M = None
    else:
        raise ValueError(kind)
    if M is None:
        n_el = int(np.prod(vs))
        M = np.stack([np.asarray(A(e.reshape(vs)), float).ravel() for e in np.eye(n_el, dtype=dtype)], axis=1)
        if kind == "ray":  # the ray transform, with its exact transpose
            A = projectors.ProjectorMatrix(M.astype(dtype), vs, ps)
    xt = phantom(rng, vs)
    b = (M @ xt.ravel()).reshape(ps)
    noise = float(rng.choice([0, 0.02, 0.2])) if noise is None else noise
    b = b + noise * max(np.abs(b).mean(), 1e-3) * rng.standard_normal(ps)
    c.describe(kind=kind, vol=vs, data=ps, noise=noise, dtype=np.dtype(dtype).name)
    return Problem(A, M.astype(float), vs, ps, b.astype(dtype), xt.astype(dtype), kind)


def regs_for(c, name, vs, prob=0.4):
    """A regularizer factory valid for the solver (a fresh instance per call)."""
    rng = c.rng
    if name == "SART" or rng.random() > prob:
        return lambda: None
    w = float(10 ** rng.uniform(-3, 0))
    opts = {
        "l1": lambda: R.Regularizer_l1(w),
        "tv2d": lambda: R.Regularizer_TV2D(w),
        "lap2d": lambda: R.Regularizer_lap2D(w),
        "smooth2d": lambda: R.Regularizer_smooth2D(w),
        "hubtv2d": lambda: R.Regularizer_HubTV2D(w, 0.1),
        "l1+tv": lambda: [R.Regularizer_l1(w), R.Regularizer_TV2D(w)],
        "lower": lambda: R.Constraint_LowerLimit(0.05),
    }
    if name == "FISTA":
        opts = {k: opts[k] for k in ("l1", "lower")}
    key = str(rng.choice(list(opts)))
    c.describe(reg=key, reg_weight=w)
    return opts[key]


def data_term_for(c, name, ps, b, nonneg=True):
    rng = c.rng
    w = np.round(rng.uniform(0.2, 1, ps), 3).astype(b.dtype)
    wz = w * (rng.random(ps) < 0.85)
    bg = np.round(rng.uniform(0.01, 0.3, ps), 3)
    opts = {
        "l2": lambda: "l2",
        "wl2": lambda: dt.DataFidelity_wl2(w),
        "wl2-zeros": lambda: dt.DataFidelity_wl2(wz),
        "l2-bg": lambda: dt.DataFidelity_l2(background=0.1),
        "l2-bg-array": lambda: dt.DataFidelity_l2(background=bg),
        "l2b": lambda: dt.DataFidelity_l2b(0.01),
    }
    if name == "PDHG":
        opts |= {"l1": lambda: "l1", "Huber": lambda: dt.DataFidelity_Huber(0.2), "l1b": lambda: dt.DataFidelity_l1b(0.05)}
        if nonneg:
            opts |= {"kl": lambda: "kl"}
    if name == "SIRT" and nonneg:
        opts |= {"kl": lambda: "kl"}
    if name == "MLEM":
        opts = {"kl": lambda: "kl", "kl-bg": lambda: dt.DataFidelity_KL(background=0.1), "kl-bg-array": lambda: dt.DataFidelity_KL(background=bg), "l2": lambda: "l2"}
    if name in ("SART", "FBP"):
        opts = {"l2": lambda: "l2"}
    key = str(rng.choice(list(opts)))
    c.describe(data_term=key)
    return key, opts[key], dict(w=w, wz=wz, bg=bg)


class Runner:
    """A solver configuration that can be instantiated afresh and run on a problem."""

    def __init__(self, c, name, p, reg=None, dterm=None, precondition=None, iterations=None, relaxation=None):
        self.name, self.p = name, p
        self.reg = reg or (lambda: None)
        self.dterm = dterm or (lambda: "kl" if name == "MLEM" else "l2")
        self.precondition = precondition
        self.iterations = iterations
        self.relaxation = relaxation
        c.describe(solver=name, precondition=precondition, iterations=iterations)

    def solver(self, **kw):
        cls = getattr(solvers, self.name)
        if self.name == "SART":
            args = {}
        elif self.name == "FBP":
            return cls(**kw)
        else:
            args = dict(regularizer=self.reg(), data_term=self.dterm())
        if self.relaxation is not None and self.name in ("SART", "SIRT", "PDHG", "FISTA"):
            args["relaxation"] = self.relaxation
        return cls(**(args | kw))

    def run(self, b=None, p=None, solver=None, iterations=None, x0=None, solver_kw=None, **kw):
        p = p or self.p
        s = solver or self.solver(**(solver_kw or {}))
        b = p.b if b is None else b
        it = self.iterations if iterations is None else iterations
        np.random.seed(12345)
        if self.name == "SART":
            if p.kind == "proj":
                return s(p.A, b, it, x0=x0, **kw)
            sk = p.sart_kwargs()
            flat = {k: (np.asarray(v).ravel() if k in ("x_mask", "lower_limit", "upper_limit") and np.ndim(v) else v) for k, v in kw.items()}
            # SART keeps the volume as [..., pixels]; use a single "slice"
            x, info = s(sk["A"], b, it, A_num_rows=sk["A_num_rows"], At=sk["At"], x0=None if x0 is None else np.array(x0).ravel(), **flat)
            return x.reshape(p.vs), info
        if self.name == "FBP":
            return s(p.A, b, x0=x0, **kw)
        if self.name in ("PDHG", "FISTA") and self.precondition is not None:
            kw["precondition"] = self.precondition
        return s(p.A, b, it, x0=x0, **kw)


def pick(c, names, p, prob_reg=0.4, nonneg=True, it=(1, 25)):
    name = str(c.rng.choice(list(names)))
    reg = regs_for(c, name, p.vs, prob_reg) if name != "FBP" else (lambda: None)
    _, dterm, _ = data_term_for(c, name, p.ps, p.b, nonneg=nonneg)
    pre = None
    if name in ("PDHG", "FISTA"):
        pre = bool(c.rng.random() < 0.7)
    return Runner(c, name, p, reg, dterm, pre, int(c.rng.integers(it[0], it[1] + 1)))
