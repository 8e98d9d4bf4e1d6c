"""C07 - solvers do not modify their inputs, keep no memory between calls, and can run side by side."""
import copy
import pickle
import threading

import numpy as np

from corrct import data_terms as dt
from corrct import filters, projectors
from corrct import regularizers as R
from corrct import solvers
from rtm.core import Check
from rtm.sched import ThreadWatch, perturbed
from checks.solv import ITERATIVE, WITH_TEST, Runner, pick, problem

check = Check(
    "C07",
    "Histories of solver calls: the same solver object on different problems/shapes/precisions in random order, shared user-supplied data terms and regularizer norms, warm "
    "starts, and several solvers in concurrent threads under injected delays. Non-trivial when at least two calls of one history are compared with fresh, isolated runs.",
    scale=(2, 1),
)


def conf(c, names=ITERATIVE, kinds=("dense", "sparse", "proj"), it=(1, 15)):
    p = problem(c, kinds, noise=0.1, dtype=c.rng.choice([np.float32, np.float64]))
    r = pick(c, names, p, it=it)
    if r.name == "MLEM":
        p.b = np.fmax(p.b, 0.01).astype(p.b.dtype)
    return p, r


def extras(c, p, r, with_test=True):
    rng = c.rng
    dtype = p.b.dtype
    kw = {}
    if rng.random() < 0.5:
        kw["lower_limit"] = rng.uniform(0, 0.2, p.vs).astype(dtype)
    if rng.random() < 0.3:
        kw["upper_limit"] = rng.uniform(1, 2, p.vs).astype(dtype)
    if rng.random() < 0.4:
        m = (rng.random(p.vs) < 0.8).astype(dtype)
        m.flat[0] = 1
        kw["x_mask"] = m
    if rng.random() < 0.4:
        m = (rng.random(p.ps) < 0.8).astype(dtype)
        m.flat[0] = 1
        kw["b_mask"] = m
    if with_test and r.name != "SART" and rng.random() < 0.4:
        kw["b_test_mask"] = (rng.random(p.ps) < 0.2).astype(dtype)
    if rng.random() < 0.5:
        kw["x0"] = rng.uniform(0.1, 1, p.vs).astype(dtype)
    return kw


def usable(p, kw):
    """Some unmasked datum that is not held out must see something."""
    m = np.ones(p.ps, bool)
    if "b_mask" in kw:
        m &= kw["b_mask"] > 0
    if "b_test_mask" in kw:
        m &= ~(kw["b_test_mask"] > 0)
    return bool(p.M[m.ravel()].any())


@check.family("inputs", 500, 8000, ["inputs-unmodified", "no-alias", "repeat"])
def inputs(c):
    p, r = conf(c)
    kw = extras(c, p, r)
    if not usable(p, kw):
        c.trivial = True
        return
    b0 = p.b.copy()
    kw0 = copy.deepcopy(kw)
    solver = r.solver(tolerance=0.0)
    x1, i1 = r.run(solver=solver, **kw)
    c.same(p.b, b0, "inputs-unmodified", "the data were modified")
    for k, v in kw.items():
        c.same(v, kw0[k], "inputs-unmodified", f"{k} was modified")
    x1c, res1 = x1.copy(), i1.residuals.copy()
    for k, v in [("b", p.b), *kw.items()]:
        c.expect(not np.shares_memory(x1, v), "no-alias", f"the solution shares memory with {k}")
    x1[...] = 7.0  # what the user does with a solution must not matter
    x2, i2 = r.run(solver=solver, **kw)
    c.same(x2, x1c, "repeat", "the same call on the same solver gave a different solution")
    c.same(i2.residuals, res1, "repeat", "the same call on the same solver gave different residuals")
    c.expect(i2 is not i1 and np.array_equal(i1.residuals, res1), "info-independent", "a later call changed the information of an earlier one")
    x3, _ = r.run(solver_kw=dict(tolerance=0.0), **kw)
    c.same(x3, x1c, "repeat", "a fresh solver gave a different solution")
    c.describe(extras=sorted(kw))


@check.family("history", 300, 4000, ["history-independent"])
def history(c):
    """One solver object through a random history of problems gives what fresh solvers give."""
    rng = c.rng
    p, r = conf(c)
    key = c.desc["data_term"]
    array_bound = key in ("wl2", "wl2-zeros", "l2-bg-array", "kl-bg-array")
    first = dict(c.desc)
    probs = [(p, extras(c, p, r))]
    if array_bound:  # bound to the data shape: vary values only
        for _ in range(2):
            q = copy.copy(p)
            q.b = np.abs(p.b * rng.uniform(0.5, 2) + 0.01).astype(p.b.dtype)
            probs.append((q, extras(c, q, r)))
    else:
        for _ in range(2):
            # a scalar background takes the precision of the data: do not mix precisions with it
            q = problem(c, ("dense", "sparse"), noise=0.1, dtype=p.b.dtype if "bg" in key else rng.choice([np.float32, np.float64]))
            if r.name == "MLEM":
                q.b = np.fmax(q.b, 0.01).astype(q.b.dtype)
            probs.append((q, extras(c, q, r)))
    c.desc.update(first)
    probs = [q for q in probs if usable(*q)]
    want = [r.run(p=q, **kw) for q, kw in probs]
    solver = r.solver()
    order = list(rng.integers(0, len(probs), 5)) if probs else []
    for o in order:
        q, kw = probs[int(o)]
        x, info = r.run(p=q, solver=solver, **kw)
        c.same(x, want[o][0], "history-independent", f"{r.name}: result depends on what the solver did before")
        if "b_test_mask" in kw:
            c.same(info.residuals_cv, want[o][1].residuals_cv, "history-independent", "test residuals depend on the history")
        c.event("calls")
    c.describe(order=[int(o) for o in order])


@check.family("shared-objects", 300, 4000, ["shared-data-term", "shared-norm"])
def shared(c):
    """User-supplied data terms and norms can be given to several solvers/regularizers: they do not interfere."""
    rng = c.rng
    p = problem(c, ("dense", "sparse"), noise=0.1)
    q = problem(c, ("dense",), noise=0.1)
    name = str(rng.choice(["SIRT", "PDHG", "FISTA"]))
    mk = [lambda: dt.DataFidelity_l2(background=0.1), lambda: dt.DataFidelity_l2b(0.01), lambda: dt.DataFidelity_wl2(0.7)][int(rng.integers(0, 3))]
    term = mk()
    cls = getattr(solvers, name)
    it = int(rng.integers(2, 15))
    tol = 0.0 if rng.random() < 0.5 else None
    s1, s2 = cls(data_term=term, data_term_test=term, tolerance=tol), cls(data_term=term, tolerance=tol)
    tm = (rng.random(p.ps) < 0.2).astype(float)
    if not p.M[(tm == 0).ravel()].any():
        c.trivial = True
        return
    x1, i1 = s1(p.A, p.b, it, b_test_mask=tm)
    x2, _ = s2(q.A, q.b, it)
    x1b, i1b = s1(p.A, p.b, it, b_test_mask=tm)
    f1, j1 = cls(data_term=mk(), data_term_test=mk(), tolerance=tol)(p.A, p.b, it, b_test_mask=tm)
    f2, _ = cls(data_term=mk(), tolerance=tol)(q.A, q.b, it)
    c.same(x1, f1, "shared-data-term", f"{name}: first solver")
    c.same(x1b, f1, "shared-data-term", f"{name}: first solver again")
    c.same(x2, f2, "shared-data-term", f"{name}: second solver")
    c.same(i1b.residuals_cv, j1.residuals_cv, "shared-data-term", f"{name}: test residuals")
    # norms: default-argument instances and user-supplied ones
    lims = rng.uniform(0.0, 0.5, 2)
    half = np.zeros(p.vs)
    half[: p.vs[0] // 2 + 1] = 1

    def two(norms):
        kw = [dict(norm=n) if n is not None else {} for n in norms]
        return [R.Constraint_LowerLimit(float(lims[0]), upd_mask=half, **kw[0]), R.Constraint_LowerLimit(float(lims[1]) - 1.0, upd_mask=1 - half, **kw[1])]

    one = dt.DataFidelity_l2()
    xa, _ = solvers.SIRT(regularizer=two([one, one]))(p.A, p.b, it)
    xb, _ = solvers.SIRT(regularizer=two([dt.DataFidelity_l2(), dt.DataFidelity_l2()]))(p.A, p.b, it)
    xc, _ = solvers.SIRT(regularizer=two([None, None]))(p.A, p.b, it)
    c.same(xa, xb, "shared-norm", "sharing a norm object between two constraints changes the result")
    c.same(xc, xb, "shared-norm", "default norms of two constraints interfere")
    grads = [lambda n: R.Regularizer_smooth2D(0.1, norm=n), lambda n: R.Constraint_UpperLimit(0.4, norm=n)]
    xd, _ = solvers.SIRT(regularizer=[g(one) for g in grads])(p.A, p.b, it)
    xe, _ = solvers.SIRT(regularizer=[g(dt.DataFidelity_l2()) for g in grads])(p.A, p.b, it)
    c.same(xd, xe, "shared-norm", "sharing a norm object between two regularizers changes the result")
    c.describe(solver=name, it=it)


class Nested:
    """A projector that lets another reconstruction happen in the middle of a projection."""

    def __init__(self, A, when, other):
        self.A, self.when, self.other, self.n = A, when, other, 0

    def wrap(self):
        A = copy.deepcopy(self.A)
        direct = A.fp

        def fp(x):
            self.n += 1
            if self.n == self.when:
                self.other()
            return direct(x)

        A.fp = fp
        return A


@check.family("caller-objects", 200, 3000, ["data-term-state", "norm-state", "nested", "list", "reconfigured"])
def caller_objects(c):
    """Data terms and norms of the caller keep the data which the caller assigned to them, whatever solvers do - also when reconstructions are nested."""
    rng = c.rng
    p = problem(c, ("dense", "sparse"), noise=0.1)
    q = problem(c, ("dense",), noise=0.1)
    name = str(rng.choice(WITH_TEST))
    cls = getattr(solvers, name)
    it = int(rng.integers(2, 10))
    p.b, q.b = np.fmax(p.b, 0.01), np.fmax(q.b, 0.01)
    pool = [lambda: dt.DataFidelity_KL(), lambda: dt.DataFidelity_KL(background=0.2)] if name == "MLEM" else [
        lambda: dt.DataFidelity_l2(), lambda: dt.DataFidelity_l2(background=0.1), lambda: dt.DataFidelity_l2b(0.01), lambda: dt.DataFidelity_wl2(0.7)]
    if name == "PDHG":
        pool += [lambda: dt.DataFidelity_l1(), lambda: dt.DataFidelity_Huber(0.1), lambda: dt.DataFidelity_KL()]
    mk = pool[int(rng.integers(0, len(pool)))]
    tol = 0.0 if rng.random() < 0.5 else None
    if not p.M.any():
        c.trivial = True
        return

    def run(term, A=None, b=None, prob=p, test=None):
        np.random.seed(1)
        s = cls(data_term=term, tolerance=tol, **(dict(data_term_test=test) if test is not None else {}))
        return s(prob.A if A is None else A, prob.b if b is None else b, it)

    # what the caller assigned to the data term remains
    term, test = mk(), mk()
    mine, x = rng.uniform(0.5, 2, (4, 5)), rng.uniform(0.5, 2, (4, 5))
    for t in (term, test):
        t.assign_data(mine)
    want = (term.compute_residual(x).copy(), term.compute_residual_norm(term.compute_residual(x)))
    x1, i1 = run(term, test=test if name != "FISTA" else None)
    for t in (term, test):
        c.same(t.compute_residual(x), want[0], "data-term-state", f"{name}: residual of the caller's data term after a reconstruction")
        c.same(t.compute_residual_norm(t.compute_residual(x)), want[1], "data-term-state", "norm of the residual")
    # re-using the data term after the solver was made does not change the solver
    s = cls(data_term=term, tolerance=tol)
    term.assign_data(rng.uniform(0.5, 2, (4, 5)), 0.5)
    if term.background is not None:
        term.background = np.asarray(term.background) + 5.0
    np.random.seed(1)
    x2, _ = s(p.A, p.b, it)
    c.same(x2, x1, "reconfigured", f"{name}: the data term was used elsewhere after the solver was made")
    # one reconstruction inside the other, on the same data term
    shared = mk()
    alone, info = run(shared)
    inner = []
    nest = Nested(p.A, int(rng.integers(1, it + 1)), lambda: inner.append(run(shared, prob=q)[0]))
    got, ginfo = run(shared, A=nest.wrap())
    c.same(got, alone, "nested", f"{name}: another reconstruction with the same data term took place meanwhile")
    c.same(ginfo.residuals, info.residuals, "nested", "residuals")
    if inner:
        c.same(inner[0], run(mk(), prob=q)[0], "nested", f"{name}: the inner reconstruction")
    # norms of regularizers, lists of regularizers
    norm = dt.DataFidelity_l2()
    norm.assign_data(mine)
    want = norm.compute_residual(x).copy()
    if name != "MLEM":
        regs = [R.Constraint_LowerLimit(0.1, norm=norm)]
        s = cls(regularizer=regs, tolerance=tol)
        np.random.seed(1)
        y1, _ = s(p.A, p.b, it)
        c.same(norm.compute_residual(x), want, "norm-state", f"{name}: norm of the caller after a reconstruction")
        regs.append(R.Constraint_UpperLimit(0.05))
        regs[0] = R.Constraint_LowerLimit(3.0)
        np.random.seed(1)
        y2, _ = s(p.A, p.b, it)
        c.same(y2, y1, "list", f"{name}: the caller's list of regularizers was re-used")
    c.describe(solver=name, it=it)


@check.family("fbp-history", 60, 800, ["history-independent"])
def fbp_history(c):
    """FBP objects on a history of projectors and data give what fresh objects give, for every kind of filter."""
    rng = c.rng
    kind = str(rng.choice(["mr", "data", "ramp", "hann", "array", "filter", "filter-mr"]))
    n = int(rng.integers(6, 12))
    width = int(rng.integers(4, 9))
    arr = rng.uniform(0.1, 1, max(64, int(2 ** np.ceil(np.log2(2 * n)))) // 2 + 1).astype(np.float32)
    probs = []
    for _ in range(3):
        A = projectors.ProjectorUncorrected((n, n), np.sort(rng.uniform(0, np.pi, width)))
        x = rng.uniform(0, 1, (n, n)).astype(np.float32)
        probs.append((A, A(x)))

    def mk(A):
        f = {"array": arr, "filter": None, "filter-mr": None}.get(kind, kind)
        if kind == "filter":
            f = filters.FilterFBP("shepp-logan")
        if kind == "filter-mr":
            f = filters.FilterMR(A)
        return solvers.FBP(fbp_filter=f, pad_mode=mode)

    mode = str(rng.choice(["constant", "edge"]))
    c.describe(filter=kind, n=n, mode=mode)
    if kind == "filter-mr":  # this filter belongs to a projector
        probs = [(probs[0][0], b) for _, b in probs]
    s = mk(probs[0][0])
    for _ in range(5):
        A, b = probs[int(rng.integers(0, 3))]
        got, _ = s(A, b)
        want, _ = mk(A)(A, b)
        c.same(got, want, "history-independent", f"FBP with the {kind} filter")


@check.family("warm-start", 300, 4000, ["continue"])
def warm(c):
    """Stateless methods: k iterations and then m more from the result equal k + m iterations."""
    rng = c.rng
    p, r = conf(c, ["SIRT", "MLEM", "SART"])
    kw = extras(c, p, r, with_test=False)
    if not usable(p, kw):
        c.trivial = True
        return
    k, m = (int(v) for v in rng.integers(1, 12, 2))
    xa, _ = r.run(iterations=k + m, **kw)
    x1, _ = r.run(iterations=k, **kw)
    xb, _ = r.run(iterations=m, **(kw | dict(x0=x1)))
    c.close(xb, xa, "continue", f"{r.name}", rtol=1e-10 if p.b.dtype == np.float64 else 2e-3, scale=max(float(np.abs(xa).max()), 1e-3))
    c.describe(k=k, m=m)


@check.family("counts", 120, 2000, ["integer-data"])
def counts(c):
    """Integer counts are data like any other, also with fractional backgrounds."""
    rng = c.rng
    p = problem(c, ("dense",), noise=0.0)
    b = rng.poisson(np.fmax(p.b, 0.1) * 5)
    name = str(rng.choice(["MLEM", "SIRT", "FISTA"]))
    bg = float(np.round(rng.uniform(0.1, 2.9), 2)) if rng.random() < 0.7 else None
    term = (lambda: dt.DataFidelity_KL(background=bg)) if name == "MLEM" else (lambda: dt.DataFidelity_l2(background=bg))
    r = Runner(c, name, p, None, term, True if name == "FISTA" else None, int(rng.integers(2, 20)))
    dtype = rng.choice([np.int32, np.int64, np.uint16])
    x1, _ = r.run(b=b.astype(dtype))
    x2, _ = r.run(b=b.astype(np.float64))
    c.close(x1, x2, "integer-data", name, rtol=1e-6, scale=max(np.abs(x2).max(), 1e-3))
    c.describe(background=bg, dtype=np.dtype(dtype).name)


@check.family("copies", 80, 1000, ["copy"])
def copies(c):
    """Copied or serialised solvers behave as the original."""
    p, r = conf(c)
    kw = extras(c, p, r)
    if not usable(p, kw):
        c.trivial = True
        return
    s = r.solver(tolerance=0.0)
    want, _ = r.run(solver_kw=dict(tolerance=0.0), **kw)
    for how, t in (("deepcopy", copy.deepcopy(s)), ("pickle", pickle.loads(pickle.dumps(s)))):
        x, _ = r.run(solver=t, **kw)
        c.same(x, want, "copy", how)


@check.family("threads", 40, 500, ["concurrent", "threads-released"])
def threads(c):
    """Independent solvers running concurrently, under injected delays, give their serial results."""
    rng = c.rng
    jobs = []
    for _ in range(int(rng.integers(3, 6))):
        p = problem(c, ("dense", "sparse", "proj"), noise=0.1)
        r = pick(c, ["MLEM", "SIRT", "PDHG", "FISTA"], p, prob_reg=0.8, it=(2, 8))
        if r.name == "MLEM":
            p.b = np.fmax(p.b, 0.01)
        r.precondition = True if r.name in ("PDHG", "FISTA") else None
        kw = extras(c, p, r)
        if usable(p, kw):
            jobs.append((p, r, kw))
    want = [r.run(**kw) for _, r, kw in jobs]
    got = [None] * len(jobs)
    errs = []

    def work(i):
        try:
            got[i] = jobs[i][1].run(**jobs[i][2])
        except Exception as exc:  # noqa: BLE001
            errs.append(exc)

    with ThreadWatch() as tw, perturbed(int(rng.integers(1 << 30)), prob=0.02, max_s=0.001) as ptb:
        th = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        [t.start() for t in th]
        [t.join() for t in th]
    for e in errs:
        raise e
    c.event("delays", ptb.delays)
    c.event("thread-switches", ptb.switches())
    c.describe(schedule=ptb.signature(), solvers=[r.name for _, r, _ in jobs])
    for i, (w, g) in enumerate(zip(want, got)):
        c.same(g[0], w[0], "concurrent", f"{jobs[i][1].name} gave a different solution when run concurrently")
        c.same(g[1].residuals_cv, w[1].residuals_cv, "concurrent", "residuals")
    c.expect(not tw.leaked(), "threads-released")


if __name__ == "__main__":
    raise SystemExit(check.main())
