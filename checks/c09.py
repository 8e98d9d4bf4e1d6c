"""C09 - the solvers converge to the optimum of the problem they are given, at the guaranteed rates."""
import numpy as np
import scipy.optimize as spo

from corrct import data_terms as dt
from corrct import operators
from corrct import regularizers as R
from corrct import projectors, solvers
from rtm.core import Check
from checks import optim as O
from checks.solv import Problem, Runner, problem

check = Check(
    "C09",
    "Random small problems (dense, sparse, signed, blur, ray transform), data terms, regularizers, limits, masks, relaxations, with and without pre-conditioning. The objective "
    "reached is compared with the best feasible point found by an independent ADMM (or bounded least squares), and the whole trace with the theoretical rates. Non-trivial when the "
    "starting point is not already optimal.",
)


class ScaledIdentity(operators.ProjectorOperator):
    """Data that is the volume itself, times a gain."""

    def __init__(self, shape, gain):
        self.vol_shape, self.prj_shape, self.gain = shape, shape, gain
        super().__init__()

    def fp(self, x):
        return x * self.gain

    def bp(self, x):
        return x * self.gain

    def absolute(self):
        return self


def limits(c, p, prob=0.5):
    rng = c.rng
    kw = {}
    if rng.random() < prob:
        kw["lower_limit"] = 0.0 if rng.random() < 0.7 else np.round(rng.uniform(0, 0.2, p.vs), 2)
    if rng.random() < prob * 0.6:
        kw["upper_limit"] = float(np.round(rng.uniform(0.5, 3), 2))
    if rng.random() < 0.3:
        m = (rng.random(p.vs) < 0.85).astype(float)
        m.flat[rng.integers(m.size)] = 1
        kw["x_mask"] = m
    if rng.random() < 0.3:
        m = (rng.random(p.ps) < 0.85).astype(float)
        m.flat[0] = 1
        kw["b_mask"] = m
    c.describe(limits=sorted(kw))
    return kw


def box(p, kw):
    return dict(lower=kw.get("lower_limit"), upper=kw.get("upper_limit"), x_mask=kw.get("x_mask"))


def diag(p, kw):
    """Row and column sums used by the diagonal scaling, computed from the matrix."""
    bm = np.ones(p.M.shape[0]) if "b_mask" not in kw else kw["b_mask"].ravel()
    xm = np.ones(p.M.shape[1]) if "x_mask" not in kw else kw["x_mask"].ravel()
    row, col = np.abs(p.M) @ xm, np.abs(p.M).T @ bm
    return row, col, bm


def usable(c, p, kw):
    """Rows/columns are either well visible or not at all (no near-zero scaling)."""
    row, col, bm = diag(p, kw)
    for v in (row, col):
        if v.max() <= 0 or np.any((v > 0) & (v < 1e-4 * v.max())):
            c.trivial = True
            return False
    return True


def reg_terms(c, p, names):
    rng = c.rng
    n = int(np.prod(p.vs))
    w = float(10 ** rng.uniform(-2.5, 0) * max(np.abs(p.M).sum(0).max(), 1e-3) * 0.3)
    name = str(rng.choice(list(names)))
    c.describe(reg=name, reg_weight=w)
    D, L = (lambda: O.grad_matrix(p.vs)), (lambda: O.lap_matrix(p.vs))
    I = np.eye(n)
    warr = w * rng.uniform(0.2, 1, p.vs)
    a = float(np.round(rng.uniform(0.05, 0.5), 2))
    pad = "constant"
    opts = {
        "none": lambda: (None, []),
        "l1": lambda: (R.Regularizer_l1(w), [(I, O.absw(w))]),
        "l1-array": lambda: (R.Regularizer_l1(warr), [(I, O.absw(warr.ravel()))]),
        "tv2d": lambda: (R.Regularizer_TV2D(w), [(D(), O.group(w, 2))]),
        "tv2d-array": lambda: (R.Regularizer_TV2D(warr), [(D(), O.group(warr.ravel(), 2))]),
        "tv2d-aniso": lambda: (R.Regularizer_TV2D(w, norm=dt.DataFidelity_l1()), [(D(), O.absw(w))]),
        "tv2d-constant": lambda: (R.Regularizer_TV2D(w, pad_mode=pad), [(O.grad_matrix(p.vs, mode="constant"), O.group(w, 2))]),
        "tv2d-wrap": lambda: (R.Regularizer_TV2D(w, pad_mode="wrap"), [(O.grad_matrix(p.vs, mode="wrap"), O.group(w, 2))]),
        "tv1d": lambda: (R.Regularizer_TV1D(w), [(O.grad_matrix(p.vs, [1]), O.absw(w))]),
        "tv1d-axis0": lambda: (R.Regularizer_TV1D(w, axes=(-2,)), [(O.grad_matrix(p.vs, [0]), O.absw(w))]),
        "lap2d": lambda: (R.Regularizer_lap2D(w), [(L(), O.absw(w))]),
        "lap1d": lambda: (R.Regularizer_lap1D(w), [(O.lap_matrix(p.vs, [1]), O.absw(w))]),
        "smooth2d": lambda: (R.Regularizer_smooth2D(w), [(D(), O.sq(w))]),
        "smooth1d": lambda: (R.Regularizer_smooth1D(w), [(O.grad_matrix(p.vs, [1]), O.sq(w))]),
        "hubtv2d": lambda: (R.Regularizer_HubTV2D(w, a), [(D(), O.group_huber(w, a, 2))]),
        "l1+tv2d": lambda: ([R.Regularizer_l1(w * 0.3), R.Regularizer_TV2D(w)], [(I, O.absw(w * 0.3)), (D(), O.group(w, 2))]),
        "l1+smooth2d+tv2d": lambda: ([R.Regularizer_l1(w * 0.3), R.Regularizer_smooth2D(w * 0.5), R.Regularizer_TV2D(w)], [(I, O.absw(w * 0.3)), (D(), O.sq(w * 0.5)), (D(), O.group(w, 2))]),
    }
    return opts[name]()


def data_fun(c, p, names, kw):
    rng = c.rng
    name = str(rng.choice(list(names)))
    c.describe(data_term=name)
    m = kw.get("b_mask")
    b = p.b
    w = np.round(rng.uniform(0.2, 1.5, p.ps), 2)
    bg = np.round(rng.uniform(0.05, 0.3, p.ps), 2)
    opts = {
        "l2": lambda: ("l2", O.l2(b, mask=m)),
        "l2-bg": lambda: (dt.DataFidelity_l2(background=bg), O.l2(b, bg=bg.ravel(), mask=m)),
        "wl2": lambda: (dt.DataFidelity_wl2(w), O.l2(b, w=w, mask=m)),
        "l1": lambda: ("l1", O.l1(b, mask=m)),
        "l1-bg": lambda: (dt.DataFidelity_l1(background=0.2), O.l1(b, bg=0.2, mask=m)),
        "l1b": lambda: (dt.DataFidelity_l1b(0.05), O.l1(b, mask=m, slack=0.05)),
        "l2b": lambda: (dt.DataFidelity_l2b(0.01), O.l2b(b, 0.01, mask=m)),
        "Huber": lambda: (dt.DataFidelity_Huber(0.2), O.huber(b, 0.2, mask=m)),
        "kl": lambda: ("kl", O.kl(b, mask=m)),
        "kl-bg": lambda: (dt.DataFidelity_KL(background=bg), O.kl(b, bg=bg.ravel(), mask=m)),
    }
    return name, *opts[name]()


@check.family("pdhg", 160, 1600, ["optimum"])
def pdhg(c):
    """PDHG reaches the optimum of data term + regularizers over the limits, with and without pre-conditioning."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "signed", "blur", "ray"), noise=float(rng.choice([0.02, 0.2])), over=True)
    kw = limits(c, p)
    kl_ok = p.kind in ("dense", "sparse")
    name, term, f = data_fun(c, p, ["l2", "l2", "l2-bg", "wl2", "l1", "l1-bg", "l1b", "l2b", "Huber"] + (["kl", "kl-bg"] if kl_ok else []), kw)
    if name.startswith("kl"):
        p.b[:] = np.fmax(p.b, 0.02)
        kw["lower_limit"] = 0.0
        f = O.kl(p.b, bg=0.0 if name == "kl" else np.asarray(term.background).ravel(), mask=kw.get("b_mask"))
    if not usable(c, p, kw):
        return
    reg, rt = reg_terms(c, p, ["none", "l1", "l1-array", "tv2d", "tv2d", "tv2d-array", "tv2d-aniso", "tv2d-constant", "tv2d-wrap", "tv1d", "tv1d-axis0", "lap2d", "lap1d", "smooth2d", "smooth1d", "hubtv2d", "l1+tv2d", "l1+smooth2d+tv2d"])
    pre = bool(rng.random() < 0.7)
    c.describe(precondition=pre)
    obj = O.Objective(p.M.shape[1], [(p.M, f), *rt], **box(p, kw))
    xr, Fr = obj.solve(4000)
    F0 = obj(obj.feasible(np.zeros(obj.n)))
    judge(c, p, obj, Fr, F0, term, reg, pre, kw, f"PDHG/{name}/{c.desc['reg']}")
    if F0 - Fr < 1e-9 * max(abs(F0), 1):
        c.trivial = True


def judge(c, p, obj, Fr, F0, term, reg, pre, kw, what):
    span = max(F0 - Fr, 1e-9)
    # slow instances get more iterations before being judged
    for N, tol in ((1200, 2e-3 * span), (6000, 5e-3 * span), (30000, 1e-2 * span + 1e-3 * abs(F0))):
        np.random.seed(1)
        x, _ = solvers.PDHG(data_term=term, regularizer=reg)(p.A, p.b, N, precondition=pre, **kw)
        F = obj(x)
        if F - Fr <= tol:
            break
    c.event(f"converged-in-{N}-iterations")
    c.event("oracle-worse", int(F - Fr < -1e-6 * span))
    c.describe(relgap=float((F - Fr) / span))
    c.expect(F - Fr <= tol, "optimum", f"{what}: objective {F:.6g}, but {Fr:.6g} is attainable (start {F0:.6g})")


def op_matrix(op, vs):
    """Matrix of a linear transform (verified separately, by C01)."""
    n = int(np.prod(vs))
    return np.stack([np.asarray(op(e.reshape(vs)), float).ravel() for e in np.eye(n)], axis=1)


@check.family("pdhg-structured", 80, 900, ["optimum"])
def pdhg_structured(c):
    """PDHG with 3D, multi-channel, Fourier and wavelet regularizers."""
    rng = c.rng
    key = str(rng.choice(["tv3d", "smooth3d", "lap3d", "hubtv3d", "tnv", "vtv-22", "vtv-11", "tv2d-channels", "fft-delta", "fft-exp", "fft-exp2", "swl", "swl-db2", "dwl", "vl1wl-12"]))
    w = float(10 ** rng.uniform(-2, 0.3))
    if key in ("tv3d", "smooth3d", "lap3d", "hubtv3d"):
        vs = tuple(int(v) for v in rng.integers(2, 4, 3))
    elif key in ("tnv", "vtv-22", "vtv-11", "tv2d-channels"):
        vs = (int(rng.integers(2, 4)), int(rng.integers(3, 5)), int(rng.integers(3, 5)))
    elif key == "vl1wl-12":
        vs = (2, 4, 4)
    elif key.startswith("fft"):
        vs = (int(rng.integers(3, 6)), int(rng.integers(3, 6)))
    else:
        vs = (int(rng.choice([4, 8])), 4)
    n = int(np.prod(vs))
    n_c = vs[0] if key in ("tnv", "vtv-22", "vtv-11", "tv2d-channels", "vl1wl-12") else 1
    m = int(n / n_c * rng.uniform(0.6, 1.6)) + 2
    M = np.kron(np.eye(n_c), rng.uniform(0.0, 1, (m, n // n_c)) * (rng.random((m, n // n_c)) < 0.7) + 0.01)
    xt = rng.uniform(0, 1, n) * (rng.random(n) < 0.5) + 0.2
    b = M @ xt
    b = (b + 0.05 * b.mean() * rng.standard_normal(b.size))[None]
    p = Problem(projectors.ProjectorMatrix(M, vs, (1, M.shape[0])), M, vs, (1, M.shape[0]), b, xt.reshape(vs), "dense")
    D = lambda k: O.grad_matrix(vs, list(range(len(vs) - k, len(vs))))
    a = 0.1
    from corrct import operators as ops

    lvl = 2 if vs[0] % 4 == 0 and len(vs) == 2 and rng.random() < 0.5 else 1
    swl = lambda wl: op_matrix(ops.TransformStationaryWavelet(vs, wl, lvl, axes=(-2, -1), normalized=True), vs)
    four = lambda: op_matrix(ops.TransformFourier(vs), vs)

    def no_dc():
        wf = np.full(vs, w)
        wf[0, 0] = 0
        return wf.ravel()

    reg, terms = {
        "tv3d": lambda: (R.Regularizer_TV3D(w), [(D(3), O.group(w, 3))]),
        "smooth3d": lambda: (R.Regularizer_smooth3D(w), [(D(3), O.sq(w))]),
        "lap3d": lambda: (R.Regularizer_lap3D(w), [(O.lap_matrix(vs), O.absw(w))]),
        "hubtv3d": lambda: (R.Regularizer_HubTV3D(w, a), [(D(3), O.group_huber(w, a, 3))]),
        "tnv": lambda: (R.Regularizer_TNV(w), [(D(2), O.nuclear(w, n_c, 2))]),
        "vtv-22": lambda: (R.Regularizer_VTV(w, pwise_chan_norm=2), [(D(2), O.group(w, 2 * n_c))]),
        "vtv-11": lambda: (R.Regularizer_VTV(w, pwise_der_norm=1, pwise_chan_norm=1), [(D(2), O.absw(w))]),
        "tv2d-channels": lambda: (R.Regularizer_TV2D(w), [(D(2), O.group(w, 2))]),
        "fft-delta": lambda: (R.Regularizer_fft(w, fft_filter="delta"), [(four(), O.group(no_dc(), 2))]),
        "fft-exp": lambda: (R.Regularizer_fft(w, fft_filter="exp"), [(four(), O.group(no_dc(), 2))]),
        "fft-exp2": lambda: (R.Regularizer_fft(w, fft_filter="exp2"), [(four(), O.group(no_dc(), 2))]),
        "swl": lambda: (R.Regularizer_l1swl(w, "haar", lvl, normalized=True), [(swl("haar"), O.absw(w))]),
        "swl-db2": lambda: (R.Regularizer_l1swl(w, "db2", lvl, normalized=True), [(swl("db2"), O.absw(w))]),
        "dwl": lambda: (R.Regularizer_l1dwl(w, "haar", lvl), [(op_matrix(ops.TransformDecimatedWavelet(vs, "haar", lvl, axes=(-2, -1)), vs), O.absw(w))]),
        "vl1wl-12": lambda: (R.Regularizer_vl1wl(w, "haar", lvl, normalized=True, pwise_lvl_norm=1, pwise_chan_norm=2), [(swl("haar"), chan_group(w, 4, n_c))]),
    }[key]()
    kw = dict(lower_limit=0.0) if rng.random() < 0.5 else {}
    pre = bool(rng.random() < 0.7)
    c.describe(reg=key, weight=w, vol=vs, level=lvl, precondition=pre, limits=sorted(kw))
    obj = O.Objective(n, [(M, O.l2(b)), *terms], **box(p, kw))
    xr, Fr = obj.solve(4000)
    judge(c, p, obj, Fr, obj(np.zeros(n)), "l2", reg, pre, kw, f"PDHG/{key}")


def chan_group(w, n_bands, n_c):
    """Bands independent, channels grouped."""
    g = O.group(w, n_c)
    part = lambda z: z.reshape(n_bands, -1)
    return O.Fun(lambda z: sum(g.value(v) for v in part(z)), lambda z, t: np.concatenate([g.prox(v, t) for v in part(z)]))


@check.family("pdhg-wavelets", 50, 900, ["closed-form"])
def pdhg_wavelets(c):
    """Denoising with orthogonal wavelets of any depth: PDHG reaches the closed-form optimum (thresholded coefficients)."""
    rng = c.rng
    import pywt

    nd = int(rng.choice([1, 2, 2, 2, 3]))
    lvl = int(rng.integers(1, {1: 7, 2: 6, 3: 4}[nd]))
    vs = tuple(int(2**lvl * rng.integers(1, 3 if 2**lvl < 16 else 2)) for _ in range(nd))
    if nd == 1:
        vs = (2, *vs)
    key = str(rng.choice(["l1dwl", "l12dwl"]))
    g = float(np.round(10 ** rng.uniform(-1, 0.7), 3))
    w = float(np.round(g * g * 10 ** rng.uniform(-1.5, 1.2), 4))
    mina = bool(rng.random() < 0.7)
    A = ScaledIdentity(vs, g)
    x_true = np.zeros(vs)
    x_true[tuple(slice(s // 4, 3 * s // 4 + 1) for s in vs)] = 1
    b = g * (x_true * float(rng.integers(0, 3)) + rng.standard_normal(vs))
    c.describe(reg=key, vol=vs, level=lvl, gain=g, weight=w, min_approx=mina)
    reg = (R.Regularizer_l1dwl if key == "l1dwl" else R.Regularizer_l12dwl)(w, "haar", lvl, ndims=nd, min_approx=mina)
    ax = tuple(range(-nd, 0))
    W = lambda v: pywt.wavedecn(v, "haar", mode="constant", level=lvl, axes=ax)

    def value(v):
        cs = W(v)
        f = w * np.abs(cs[0]).sum() if mina else 0.0
        for d in cs[1:]:
            z = np.stack(list(d.values()))
            f += w * (np.abs(z).sum() if key == "l1dwl" else np.sqrt((z**2).sum(0)).sum())
        return 0.5 * np.sum((g * v - b) ** 2) + f

    t = w / g**2
    shrink = lambda z, n: z * np.maximum(0, 1 - t / np.maximum(n, 1e-300))
    cs = W(b / g)
    if mina:
        cs[0] = shrink(cs[0], np.abs(cs[0]))
    for d in cs[1:]:
        n2 = np.sqrt(np.sum([v**2 for v in d.values()], axis=0))
        for k, v in d.items():
            d[k] = shrink(v, np.abs(v) if key == "l1dwl" else n2)
    best = pywt.waverecn(cs, "haar", mode="constant", axes=ax)
    F0, Fr = value(np.zeros(vs)), value(best)
    span = max(F0 - Fr, 1e-9)
    pre = bool(rng.random() < 0.7)
    for N, tol in ((500, 1e-3), (4000, 2e-3), (30000, 5e-3)):
        x, _ = solvers.PDHG(regularizer=reg)(A, b, N, precondition=pre)
        F = value(x)
        if F - Fr <= tol * span + 1e-6 * F0:
            break
    c.event(f"converged-in-{N}-iterations")
    c.describe(relgap=float((F - Fr) / span))
    c.trivial = bool(F0 - Fr < 1e-6 * F0)
    c.expect(Fr - F <= 1e-6 * abs(F0), "closed-form", f"the closed form is not the optimum: {Fr} > {F}")
    c.expect(F - Fr <= tol * span + 1e-6 * F0, "closed-form", f"{key}, {lvl} levels: objective {F:.6g}, but {Fr:.6g} is attainable (start {F0:.6g})")


@check.family("sirt", 200, 3000, ["rate", "monotone", "fejer", "same-trace"])
def sirt(c):
    """SIRT is projected gradient descent on the row-scaled least squares: monotone, with the O(1/k) rate."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "signed", "ray"), noise=float(rng.choice([0, 0.02, 0.2])))
    kw = limits(c, p)
    if not usable(c, p, kw):
        return
    relax = float(np.round(rng.choice([rng.uniform(0.3, 1), 1.0, rng.uniform(1, 1.95), 1.95]), 3))
    c.describe(relax=relax)
    row, col, bm = diag(p, kw)
    s = np.where(row > 0, 1 / np.where(row > 0, row, 1), 1.0) * bm
    W = np.sqrt(s)[:, None]
    tinv = np.where(col > 0, col, 1.0)
    N = int(rng.integers(5, 40))
    f = lambda x: 0.5 * float(np.sum(s * (p.M @ np.asarray(x, float).ravel() - p.b.ravel()) ** 2))
    lo = np.broadcast_to(np.asarray(kw.get("lower_limit", -np.inf), float), p.vs).ravel()
    hi = np.broadcast_to(np.asarray(kw.get("upper_limit", np.inf), float), p.vs).ravel()
    xm = np.broadcast_to(np.asarray(kw.get("x_mask", 1.0), float), p.vs).ravel() > 0
    ref = np.zeros(p.M.shape[1])
    ref[xm] = spo.lsq_linear((W * p.M)[:, xm], np.sqrt(s) * p.b.ravel(), bounds=(lo[xm] - 1e-15, hi[xm] + 1e-15), method="bvls" if np.isfinite(hi).any() or np.isfinite(lo).any() else "trf").x
    ref = np.clip(ref, np.where(xm, lo, -np.inf), np.where(xm, hi, np.inf))
    x0 = np.zeros(p.vs) if rng.random() < 0.6 else rng.uniform(0, 2, p.vs)
    x0 = (np.clip(x0.ravel(), lo, hi) * xm).reshape(p.vs)
    xs = [x0]
    for _ in range(N):
        xs.append(solvers.SIRT(relaxation=relax)(p.A, p.b, 1, x0=xs[-1], **kw)[0])
    xk, _ = solvers.SIRT(relaxation=relax)(p.A, p.b, N, x0=x0, **kw)
    fs = [f(x) for x in xs]
    c.close(f(xk), fs[-1], "same-trace", rtol=1e-7, scale=max(fs[0], 1e-12))
    tol = 1e-9 * max(fs[0], 1e-9)
    c.expect(all(b <= a + tol for a, b in zip(fs, fs[1:])), "monotone", f"weighted residual increased: {max(b - a for a, b in zip(fs, fs[1:])):.3g}")
    R2 = float(np.sum(tinv * (x0.ravel() - ref) ** 2))
    f_ref = f(ref)
    if relax <= 1:
        bound = R2 / (2 * relax * N)
    else:
        # projected gradient with a step in (1, 2)/L: distances to a minimizer do not increase, and the decrease is (2 - relax) / relax of the step
        bound = max(2 * R2 / (relax * (2 - relax) * N), R2 / (2 * N)) * 2
    c.expect(fs[-1] - f_ref <= bound + tol, "rate", f"f(x_{N}) - f* = {fs[-1] - f_ref:.4g} > {bound:.4g}")
    dist = [float(np.sum(tinv * (x.ravel() - ref) ** 2)) for x in xs]
    c.expect(all(b <= a * (1 + 1e-7) + 1e-7 for a, b in zip(dist, dist[1:])), "fejer", "distance from a minimizer increased")
    if fs[0] - f_ref < 1e-9 * max(fs[0], 1e-9):
        c.trivial = True


@check.family("sirt-optimum", 60, 600, ["optimum"])
def sirt_optimum(c):
    """Many SIRT iterations: the row-scaled (bounded) least-squares solution."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "signed"), noise=0.1, over=True)
    kw = limits(c, p)
    if not usable(c, p, kw):
        return
    row, col, bm = diag(p, kw)
    s = np.where(row > 0, 1 / np.where(row > 0, row, 1), 1.0) * bm
    obj = O.Objective(p.M.shape[1], [(p.M, O.l2(p.b, w=s))], **box(p, kw))
    x, _ = solvers.SIRT()(p.A, p.b, 3000, **kw)
    xr, Fr = obj.solve(3000)
    F0, F = obj(obj.feasible(np.zeros(obj.n))), obj(x)
    c.describe(relgap=float((F - Fr) / max(F0 - Fr, 1e-12)))
    c.expect(F - Fr <= 1e-2 * max(F0 - Fr, 1e-9), "optimum", f"{F:.6g} vs attainable {Fr:.6g} (start {F0:.6g})")


@check.family("sirt-regularized", 80, 900, ["monotone"])
def sirt_regularized(c):
    """SIRT with regularizers descends the row-scaled least squares plus the smoothed (Moreau envelope of the) regularizer."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "ray"), noise=0.1)
    kw = limits(c, p)
    if not usable(c, p, kw):
        return
    w = float(10 ** rng.uniform(-2.5, 0))
    key = str(rng.choice(["l1", "tv2d", "smooth2d", "lap2d"]))
    # (regularizer, K, sigma, envelope of the dual step)
    D = O.grad_matrix(p.vs)
    hub = lambda n, s: np.where(n * s <= w, s * n**2 / 2, w * n - w**2 / (2 * s))
    reg, env, coln = {
        "l1": lambda: (R.Regularizer_l1(w), lambda x: hub(np.abs(x), 1.0).sum(), 1.0),
        "tv2d": lambda: (R.Regularizer_TV2D(w), lambda x: hub(np.sqrt(((D @ x).reshape(2, -1) ** 2).sum(0)), 0.5).sum(), 4.0),
        "smooth2d": lambda: (R.Regularizer_smooth2D(w), lambda x: w * ((D @ x) ** 2).sum() * 0.5 / 1.5 / 2, 4.0 * w),
        "lap2d": lambda: (R.Regularizer_lap2D(w), lambda x: hub(np.abs(O.lap_matrix(p.vs) @ x), 0.25).sum(), 8.0),
    }[key]()
    relax = float(rng.choice([1.0, 0.7, 1.9]))
    c.describe(reg=key, weight=w, relax=relax)
    row, col, bm = diag(p, kw)
    s = np.where(row > 0, 1 / np.where(row > 0, row, 1), 1.0) * bm
    f = lambda x: 0.5 * float(np.sum(s * (p.M @ x.ravel() - p.b.ravel()) ** 2)) + float(env(x.ravel()))
    x0 = np.zeros(p.vs)
    if "lower_limit" in kw or "upper_limit" in kw:
        x0 = np.clip(x0, kw.get("lower_limit", -np.inf), kw.get("upper_limit", np.inf))
    if "x_mask" in kw:
        x0 = x0 * kw["x_mask"]
    xs = [x0]
    N = int(rng.integers(5, 25))
    for _ in range(N):
        xs.append(solvers.SIRT(relaxation=relax, regularizer=reg)(p.A, p.b, 1, x0=xs[-1], **kw)[0])
    fs = [f(x) for x in xs]
    tol = 1e-8 * max(fs[0], 1e-9)
    c.expect(all(b <= a + tol for a, b in zip(fs, fs[1:])), "monotone", f"{key}: objective increased by {max(b - a for a, b in zip(fs, fs[1:])):.3g} of {fs[0]:.3g}")


@check.family("regularizer-lists", 80, 1200, ["any-order", "every-one"])
def regularizer_lists(c):
    """Every regularizer of a list takes part, whatever its place: any order gives the same solution, and leaving one out another."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "ray"), noise=0.1)
    kw = limits(c, p)
    if not usable(c, p, kw):
        return
    w = lambda: float(10 ** rng.uniform(-1.5, 0))
    make = [
        lambda v: R.Regularizer_l1(v),
        lambda v: R.Regularizer_TV2D(v),
        lambda v: R.Regularizer_lap2D(v),
        lambda v: R.Regularizer_smooth2D(v),
        lambda v: R.Regularizer_HubTV2D(v, 0.1),
        lambda v: R.Regularizer_TV1D(v),
        lambda v: R.Regularizer_l1dwl(v, "haar", 1),
    ]
    k = int(rng.integers(2, 6))
    pick = [(int(i), w()) for i in rng.choice(len(make), k, replace=False)]
    regs = lambda which: [make[i](v) for i, v in which]
    name = str(rng.choice(["SIRT", "PDHG"]))
    pre = bool(rng.random() < 0.6)
    N = int(rng.integers(2, 20))
    c.describe(solver=name, regs=pick, precondition=pre, N=N)

    def run(which, **kw):
        np.random.seed(3)
        return getattr(solvers, name)(regularizer=regs(which))(p.A, p.b, N, **(dict(precondition=pre) if name == "PDHG" else {}), **kw)[0]

    x = run(pick, **kw)
    perm = [pick[i] for i in rng.permutation(k)]
    if perm == pick:
        perm = pick[::-1]
    scale = max(np.abs(x).max(), 1e-3)
    c.close(run(perm, **kw), x, "any-order", f"{name}", rtol=1e-5, scale=scale)
    drop = int(rng.integers(k))
    x, y = run(pick), run(pick[:drop] + pick[drop + 1 :])  # limits may hide the difference
    c.expect(not np.allclose(x, y, rtol=0, atol=1e-9 * scale), "every-one", f"{name}: regularizer {drop + 1} of {k} has no effect")


@check.family("fista", 200, 3000, ["rate"])
def fista(c):
    """FISTA satisfies the Beck-Teboulle O(1/k^2) bound at every iteration (pre-conditioned norm), with l1 and limits."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "signed", "ray"), noise=float(rng.choice([0, 0.02, 0.2])))
    kw = limits(c, p)
    if not usable(c, p, kw):
        return
    row, col, bm = diag(p, kw)
    key = str(rng.choice(["l2", "wl2", "l2-bg"]))
    w = np.round(rng.uniform(0.2, 1.0, p.ps), 2)
    term = dict(l2=lambda: "l2", wl2=lambda: dt.DataFidelity_wl2(w), **{"l2-bg": lambda: dt.DataFidelity_l2(background=0.1)})[key]()
    relax = float(rng.choice([1.0, 1.0, 0.6]))
    wr = float(10 ** rng.uniform(-3, 0)) if rng.random() < 0.6 else 0.0
    s = np.where(row > 0, 1 / np.where(row > 0, row, 1), 1.0) * bm * (w.ravel() if key == "wl2" else 1)
    c.describe(data_term=key, relax=relax, l1=wr)
    terms = [(p.M, O.l2(p.b, w=s, bg=0.1 if key == "l2-bg" else 0.0))]
    n = p.M.shape[1]
    if wr:
        terms.append((np.eye(n), O.absw(wr)))
    obj = O.Objective(n, terms, **box(p, kw))
    x0 = rng.uniform(0, 1, p.vs) if rng.random() < 0.4 else np.zeros(p.vs)
    ref, Fr = obj.solve(1500)
    tinv = np.where(col > 0, col, 1.0) / relax
    x0m = x0 * kw.get("x_mask", 1.0)
    R2 = float(np.sum(tinv * (x0m.ravel() - ref) ** 2))
    F0 = obj(obj.feasible(x0m))
    worst = -np.inf
    for N in sorted(set(int(v) for v in rng.integers(1, 80, 6))):
        x, _ = solvers.FISTA(relaxation=relax, data_term=term, regularizer=R.Regularizer_l1(wr) if wr else None)(p.A, p.b, N, x0=x0, **kw)
        gap = obj(x) - Fr
        bound = 2 * R2 / (N + 1) ** 2
        worst = max(worst, gap / max(bound, 1e-300))
        c.expect(gap <= bound * (1 + 1e-6) + 1e-9 * max(abs(F0), 1e-9), "rate", f"F(x_{N}) - F* = {gap:.4g} > {bound:.4g}")
    c.describe(worst=float(worst))
    if F0 - Fr < 1e-9 * max(abs(F0), 1e-9):
        c.trivial = True


@check.family("fista-restart", 60, 1200, ["restart"])
def fista_restart(c):
    """Restarting every p iterations is the same as starting again every p iterations from the solution so far."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "signed", "ray"), noise=float(rng.choice([0, 0.02, 0.2])))
    kw = limits(c, p)
    if not usable(c, p, kw):
        return
    pre = bool(rng.random() < 0.5)
    period = int(rng.integers(1, 14))
    N = int(rng.integers(period, 4 * period + 2))
    wr = float(10 ** rng.uniform(-3, 0)) if rng.random() < 0.6 else 0.0
    relax = float(rng.choice([1.0, 0.6]))
    c.describe(precondition=pre, restart=period, iterations=N, l1=wr, relax=relax)

    def run(n, x0, restart):
        np.random.seed(3)
        s = solvers.FISTA(relaxation=relax, regularizer=R.Regularizer_l1(wr) if wr else None, restart_period=restart)
        return s(p.A, p.b, n, x0=x0, precondition=pre, **kw)[0]

    got = run(N, None, period)
    x, left = None, N
    while left > 0:
        x = run(min(left, period), x, None)
        left -= period
    c.close(got, x, "restart", f"period {period}, {N} iterations", rtol=1e-5, scale=max(float(np.abs(x).max()), 1e-6))
    c.trivial = N <= period


@check.family("fista-plain", 80, 900, ["optimum"])
def fista_plain(c):
    """Un-preconditioned and restarted FISTA reach the optimum of 1/2 ||Ax - b||^2 + w |x|_1 over the limits."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "blur"), noise=0.1, over=True)
    kw = limits(c, p)
    if not usable(c, p, kw):
        return
    pre = bool(rng.random() < 0.3)
    restart = int(rng.integers(20, 60)) if rng.random() < 0.5 else None
    wr = float(10 ** rng.uniform(-3, 0)) if rng.random() < 0.7 else 0.0
    c.describe(precondition=pre, restart=restart, l1=wr)
    if pre:
        row, col, bm = diag(p, kw)
        f = O.l2(p.b, w=np.where(row > 0, 1 / np.where(row > 0, row, 1), 1.0) * bm)
    else:
        f = O.l2(p.b, mask=kw.get("b_mask"))
    n = p.M.shape[1]
    terms = [(p.M, f)] + ([(np.eye(n), O.absw(wr))] if wr else [])
    obj = O.Objective(n, terms, **box(p, kw))
    np.random.seed(3)
    x, _ = solvers.FISTA(regularizer=R.Regularizer_l1(wr) if wr else None, restart_period=restart)(p.A, p.b, 1500, precondition=pre, **kw)
    xr, Fr = obj.solve(2000)
    F0, F = obj(obj.feasible(np.zeros(n))), obj(x)
    c.describe(relgap=float((F - Fr) / max(F0 - Fr, 1e-12)))
    c.expect(F - Fr <= 1e-2 * max(F0 - Fr, 1e-9), "optimum", f"{F:.6g} vs attainable {Fr:.6g} (start {F0:.6g})")


@check.family("mlem", 200, 3000, ["monotone", "counts", "rate"])
def mlem(c):
    """MLEM: the Poisson log-likelihood never decreases, the total counts are those measured, and the gap shrinks as 1/k."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "ray"), noise=float(rng.choice([0, 0.05])), over=bool(rng.random() < 0.7))
    p.b[:] = np.fmax(p.b, 0)
    kw = {}
    if rng.random() < 0.3:
        m = (rng.random(p.ps) < 0.85).astype(float)
        m.flat[0] = 1
        kw["b_mask"] = m
    if rng.random() < 0.3:
        m = (rng.random(p.vs) < 0.85).astype(float)
        m.flat[0] = 1
        kw["x_mask"] = m
    row, col, bm = diag(p, kw)
    xm = np.asarray(kw.get("x_mask", np.ones(p.vs))).ravel()
    if col.max() <= 0 or np.any((col < 1e-4 * col.max()) & (xm > 0)) or (p.M * xm)[bm > 0].min() < 0:
        c.trivial = True
        return
    use = bm > 0
    # data that no (used) pixel sees must be empty, otherwise no solution explains them
    p.b.ravel()[use & (row <= 0)] = 0
    bgv = float(np.round(rng.uniform(0.05, 0.3), 2)) if rng.random() < 0.3 else 0.0
    b = p.b.ravel()
    N = int(rng.integers(3, 40))
    term = dt.DataFidelity_KL(background=bgv) if bgv else "kl"
    c.describe(background=bgv, N=N, masks=sorted(kw))
    f = lambda x: float(np.sum(np.where(use, (p.M @ x.ravel() + bgv) - b * np.log(np.fmax(p.M @ x.ravel() + bgv, 1e-30)), 0)))
    x0 = rng.uniform(0.2, 2, p.vs)
    xs = [x0 * xm.reshape(p.vs)]
    for k in range(N):
        xs.append(solvers.MLEM(data_term=term)(p.A, p.b, 1, x0=xs[-1], **kw)[0])
    xn, _ = solvers.MLEM(data_term=term)(p.A, p.b, N, x0=x0, **kw)
    fs = [f(x) for x in xs]
    c.close(xn, xs[-1], "same-trace", rtol=1e-7, scale=max(xn.max(), 1e-6))
    if any(np.any((p.M @ x.ravel() + bgv)[use & (b > 0)] < 1e-4 * max(b.max(), 1e-9)) for x in xs):
        c.trivial = True  # positive counts where (almost) nothing is expected: the likelihood is dominated by the floor on the expected counts
        return
    span = max(abs(fs[0] - min(fs)), 1e-9)
    c.expect(all(v <= u + 1e-6 * span + 1e-6 * np.abs(b).sum() * 1e-3 for u, v in zip(fs, fs[1:])), "monotone", f"negative log-likelihood increased by {max(v - u for u, v in zip(fs, fs[1:])):.3g}")
    if not bgv:
        c.close([(col * x.ravel()).sum() for x in xs[1:]], np.full(N, b[use].sum()), "counts", "total counts", rtol=1e-5)
    # f(x_k) - f(x*) <= sum_j col_j KL(x*_j || x0_j) / k for any reference point x*
    obj = O.Objective(p.M.shape[1], [(p.M, O.kl(p.b, bg=bgv, mask=bm))], lower=0.0, x_mask=xm)
    for ref in (p.x_true.ravel() * xm, obj.solve(1500)[0]):
        pos = ref > 0
        y0 = xs[0].ravel()
        d = float(np.sum((col * (y0 - ref))[xm > 0])) + float(np.sum((col * ref)[pos] * np.log(ref[pos] / y0[pos])))
        c.expect(fs[-1] - f(ref) <= d / N + 1e-6 * max(abs(fs[0]), 1e-6), "rate", f"f(x_{N}) - f(ref) = {fs[-1] - f(ref):.4g} > {d / N:.4g}")


@check.family("sart", 80, 1000, ["each-projection-once", "kaczmarz-sweep", "fixed-point"])
def sart(c):
    """SART sweeps over every projection exactly once per iteration; each visit is the row/column-scaled correction of that projection only."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "ray"), noise=float(rng.choice([0, 0.1])), zero_cols=bool(rng.random() < 0.5))
    relax = float(rng.choice([1.0, 0.8, 1.5]))
    kw = {}
    if rng.random() < 0.5:
        kw["lower_limit"] = 0.0
    if rng.random() < 0.4:
        kw["upper_limit"] = 1.5
    if rng.random() < 0.4:
        kw["b_mask"] = (rng.random(p.ps) < 0.8).astype(float)
        kw["b_mask"].flat[0] = 1
    if rng.random() < 0.4:
        kw["x_mask"] = (rng.random(p.vs) < 0.8).astype(float).ravel()
        kw["x_mask"][0] = 1
    N = int(rng.integers(1, 8))
    n_a = p.ps[0]
    M3 = p.M.reshape(*p.ps, -1)
    bm = np.asarray(kw.get("b_mask", np.ones(p.ps)))
    xm = np.asarray(kw.get("x_mask", np.ones(M3.shape[-1])))
    tau = np.stack([np.abs(M3[a].T @ bm[a]) for a in range(n_a)])
    sigma = np.stack([np.abs(M3[a] @ xm) for a in range(n_a)])
    c.describe(relax=relax, N=N, options=sorted(kw))
    if tau.max() <= 0 or sigma.max() <= 0 or any(np.any((v > 0) & (v < 1e-3 * v.max()) & (v > 1e-12)) for v in (tau, sigma)):
        c.trivial = True
        return
    tau = relax / np.where(tau < 1e-5 * tau.max(), 1, tau)
    sigma = 1 / np.where(sigma < 1e-5 * sigma.max(), 1, sigma)
    log = []

    def A(x, ii):
        log.append(("A", int(ii)))
        return M3[ii] @ x.ravel()

    def At(y, ii):
        log.append(("At", int(ii)))
        return M3[ii].T @ y.ravel()

    x0 = rng.uniform(0, 1, M3.shape[-1]) if rng.random() < 0.5 else None
    x, _ = solvers.SART(relaxation=relax)(A, p.b, N, A_num_rows=n_a, At=At, x0=x0, **kw)
    visits = [k for w, k in log if w == "At"][-N * n_a :]
    sweeps = [visits[i * n_a : (i + 1) * n_a] for i in range(N)]
    c.expect(all(sorted(s) == list(range(n_a)) for s in sweeps), "each-projection-once", f"{sweeps[:2]}")
    want = np.zeros(M3.shape[-1]) if x0 is None else x0 * xm
    for a in visits:
        res = (M3[a] @ want - p.b[a]) * bm[a]
        want = want - M3[a].T @ (res * sigma[a]) * tau[a]
        want = np.clip(want, kw.get("lower_limit", -np.inf), kw.get("upper_limit", np.inf)) * xm
    c.close(x, want, "kaczmarz-sweep", f"order {visits[:n_a]}", rtol=1e-8, scale=max(np.abs(want).max(), 1e-6))
    if "x_mask" not in kw and p.x_true.max() < kw.get("upper_limit", np.inf):
        b = (p.M @ p.x_true.ravel()).reshape(p.ps)
        kf = {k: v for k, v in kw.items()}
        xf, _ = solvers.SART(relaxation=relax)(A, b, N, A_num_rows=n_a, At=At, x0=p.x_true.ravel(), **kf)
        c.close(xf, p.x_true.ravel(), "fixed-point", rtol=1e-9, scale=p.x_true.max())


@check.family("sart-tomography", 40, 400, ["converges"])
def sart_tomography(c):
    """Noise-free tomography of an object inside the field of view: SART explains the data."""
    rng = c.rng
    n = int(rng.integers(8, 16))
    na = int(rng.integers(6, 20))
    ang = np.linspace(0, np.pi, na, endpoint=False)
    yy, xx = np.mgrid[:n, :n] - (n - 1) / 2
    fov = (np.hypot(yy, xx) <= n / 2 - 1).astype(np.float32)
    xt = np.zeros((n, n), np.float32)
    for _ in range(4):
        cy, cx = rng.uniform(-n / 4, n / 4, 2)
        xt += np.exp(-((yy - cy) ** 2 + (xx - cx) ** 2) / rng.uniform(2, 8)).astype(np.float32) * rng.uniform(0.3, 1)
    xt *= fov
    A = projectors.ProjectorUncorrected((n, n), ang, create_single_projs=True)
    b = A(xt)
    x, _ = solvers.SART()(A, b, 40, x_mask=fov, lower_limit=0.0)
    res = float(np.linalg.norm(A(x) - b) / np.linalg.norm(b))
    c.describe(n=n, angles=na, relres=res)
    c.expect(res < 0.05, "converges", f"relative residual {res:.3g} on noise-free data")


@check.family("step-sizes", 150, 2500, ["stable", "proportional"])
def step_sizes(c):
    """The steps of the pre-conditioned and plain primal-dual iterations: the iterated operator (data and regularizers together) is not expansive, and no step is needlessly short."""
    rng = c.rng
    vs, ps = (int(rng.integers(3, 6)), int(rng.integers(3, 6))), (int(rng.integers(2, 6)), int(rng.integers(3, 7)))
    n, m = int(np.prod(vs)), int(np.prod(ps))
    M = rng.standard_normal((m, n)) if rng.random() < 0.5 else rng.random((m, n))
    M[rng.random((m, n)) < rng.uniform(0, 0.6)] = 0
    spread = float(rng.choice([0, 1.5, 3]))
    if rng.random() < 0.5:
        M *= 10.0 ** -rng.uniform(0, spread, (m, 1))
    else:
        M *= 10.0 ** -rng.uniform(0, spread, (1, n))
    scale = 2.0 ** int(rng.integers(-12, 13))
    M *= scale
    pool = {
        "tv": lambda: R.Regularizer_TV2D(1.0), "tv1": lambda: R.Regularizer_TV1D(1.0), "smooth": lambda: R.Regularizer_smooth2D(1.0), "l1": lambda: R.Regularizer_l1(1.0),
        "l1swl": lambda: R.Regularizer_l1swl(1.0, "haar", 1), "l1dwl": lambda: R.Regularizer_l1dwl(1.0, "haar", 1), "hubtv": lambda: R.Regularizer_HubTV2D(1.0, 0.1), "lower": lambda: R.Constraint_LowerLimit(0.0),
        "lap1": lambda: R.Regularizer_lap1D(1.0),
    }
    if rng.random() < 0.35:
        pool = {}
    # (the regularizers have steps of order 1: they matter next to data of the same order)
    keys = [str(k) for k in rng.permutation(list(pool))[: int(rng.integers(1, 4))]]
    if keys:
        M *= 2.0 ** int(rng.integers(-1, 3)) / np.abs(M).sum(axis=1).max()
    regs = [pool[k]() for k in keys]
    A = projectors.ProjectorMatrix(M, vs, ps)
    rs, rt = float(rng.uniform(0.3, 1)), float(rng.uniform(0.3, 1))
    masks = {}
    x_mask, b_mask = np.ones(vs), np.ones(ps)
    plain = bool(rng.random() < 0.4)
    if not plain and rng.random() < 0.3:
        masks["x_mask"] = x_mask = (rng.random(vs) < 0.8).astype(float)
    if not plain and rng.random() < 0.3:
        masks["b_mask"] = b_mask = (rng.random(ps) < 0.8).astype(float)
    c.describe(shape=(m, n), spread=spread, scale=scale, regs=keys, plain=plain, masks=sorted(masks))
    eff = M * b_mask.reshape(-1, 1) * x_mask.reshape(1, -1)
    if np.abs(eff).sum() == 0:
        c.trivial = True
        return
    b = rng.standard_normal(ps)
    if plain:
        np.random.seed(int(rng.integers(2**31)))
        s, t, shape, _ = solvers.compute_Lipschitz_scaling(A, b, regs, relaxation_sigma=rs, relaxation_tau=rt)
        norm = np.linalg.norm(M, 2)
        L = rs / s
        c.expect(0.5 * norm < L < norm * (1 + 1e-6), "proportional", f"norm {L} instead of {norm}")
        allow = max((norm / L) ** 2, 1)
    else:
        s, t, shape, _ = solvers.compute_diagonal_scaling(A.absolute(), A.T.absolute(), b, regs, relaxation_sigma=rs, relaxation_tau=rt, **masks)
        allow = 1.0
    c.expect(tuple(shape) == vs, "proportional", f"volume {shape}")
    t = np.broadcast_to(np.asarray(t, float), vs)
    s = np.broadcast_to(np.asarray(s, float), ps)
    T = t.ravel()
    Q = eff.T @ (s.ravel()[:, None] * eff)
    extra = np.zeros(n)
    for k, reg in zip(keys, regs):
        own = np.zeros((n, n))
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1
            d = reg.initialize_dual()
            reg.update_dual(d, e.reshape(vs))
            own[:, j] = np.asarray(reg.compute_update_primal(d), float).ravel()
        Q = Q + rs * own
        extra = extra + np.broadcast_to(np.asarray(pool[k]().initialize_sigma_tau(np.zeros(vs)), float), vs).ravel()
    # similar to a symmetric matrix
    r = np.abs(np.linalg.eigvals(np.sqrt(T)[:, None] * Q * np.sqrt(T)[None])).max()
    c.expect(r <= allow * (1 + 1e-3), "stable", f"the steps expand by {r}")
    # rows and columns much smaller than the largest are left alone (by documentation of the threshold: 1e-5)
    if not plain:
        col = np.abs(M * b_mask.reshape(-1, 1)).sum(0) + extra
        row = np.abs(M * x_mask.reshape(1, -1)).sum(1)
        for got, w, rel in ((T, col, rt), (s.ravel(), row, rs)):
            ok = w > 1e-4 * w.max()
            c.close(got[ok] * w[ok], np.full(ok.sum(), rel), "proportional", "step x (sum of the absolute weights)", rtol=1e-5)
    else:
        c.close(T * (rs / s.ravel()[0] + extra), np.full(n, rt), "proportional", "plain step", rtol=1e-4)


@check.family("fixed-point", 150, 2500, ["fixed-point", "scaling"])
def fixed_point(c):
    """A feasible point explaining consistent data is a fixed point; solutions scale with the data."""
    rng = c.rng
    p = problem(c, ("dense", "sparse", "signed", "ray", "blur"), noise=0.0)
    name = str(rng.choice(["SIRT", "PDHG", "FISTA", "MLEM"]))
    if name == "MLEM" and p.kind == "signed":
        name = "SIRT"
    pre = bool(rng.random() < 0.7) if name in ("PDHG", "FISTA") else None
    r = Runner(c, name, p, precondition=pre, iterations=int(rng.integers(1, 30)))
    kw = {}
    if rng.random() < 0.5:
        kw["lower_limit"] = 0.0
    if rng.random() < 0.3:
        m = (rng.random(p.ps) < 0.8).astype(float)
        m.flat[0] = 1
        kw["b_mask"] = m
    if not usable(c, p, kw):
        return
    x, _ = r.run(x0=p.x_true, **kw)
    seen = np.abs(p.M).T @ np.asarray(kw.get("b_mask", np.ones(p.ps))).ravel() > 0 if name == "MLEM" else np.ones(p.x_true.size, bool)
    c.close(x.ravel()[seen], p.x_true.ravel()[seen], "fixed-point", name, rtol=1e-6, scale=p.x_true.max())
    g = float(np.round(rng.uniform(2, 20), 1))
    x0 = rng.uniform(0.5, 1, p.vs)
    noisy = p.b + 0.1 * np.abs(p.b).mean() * rng.standard_normal(p.ps)
    if name == "MLEM":
        noisy = np.fmax(noisy, 0.01 * np.abs(p.b).max())
    x1, _ = r.run(b=noisy, x0=x0, **kw)
    x2, _ = r.run(b=noisy * g, x0=x0 * g, **kw)
    c.close(x2, x1 * g, "scaling", f"{name}: data scaled by {g}", rtol=1e-6, scale=max(np.abs(x1).max() * g, 1e-6))


if __name__ == "__main__":
    raise SystemExit(check.main())
