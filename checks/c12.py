"""C12 - hyper-parameter searches: every value is evaluated exactly once, results stay with their value, failures surface."""
import threading
import time
from concurrent.futures import Executor, ProcessPoolExecutor, ThreadPoolExecutor
import multiprocessing as mp

import matplotlib

matplotlib.use("Agg")
import numpy as np

from corrct import operators as ops
from corrct import param_tuning as pt
from corrct import regularizers as R
from corrct import solvers as S
from rtm.core import Check
from rtm.sched import ThreadWatch, perturbed

check = Check(
    "C12",
    "Random hyper-parameter lists (with repetitions, unsorted, scalars), task functions, executors (serial, int, thread and process pools, a scrambling executor) and task durations, "
    "so that completion orders are scrambled; an event log of every task start/end is checked offline for exactly-once evaluation and association. Non-trivial when at least two tasks complete out of order or two modes are compared.",
    ["Thread schedules are sampled through random task durations, injected delays and a microsecond switch interval."],
    scale=(6, 1),
)


class Log:
    def __init__(self):
        self.ev = []
        self.lock = threading.Lock()

    def add(self, *a):
        with self.lock:
            self.ev.append(a)

    def of(self, kind):
        return [e[1:] for e in self.ev if e[0] == kind]


class ScramblingExecutor(Executor):
    """Runs the tasks in a random order, in threads released at shutdown (or after a while)."""

    def __init__(self, rng, workers=3):
        self.rng, self.inner, self.down, self.kw = rng, ThreadPoolExecutor(workers), 0, None

    def submit(self, fn, /, *a, **k):
        d = float(self.rng.uniform(0, 0.004))

        def run():
            time.sleep(d)
            return fn(*a, **k)

        return self.inner.submit(run)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.down += 1
        self.kw = cancel_futures
        self.inner.shutdown(wait=wait, cancel_futures=cancel_futures)


class Tuner(pt.LCurve):
    pass


def values(c, lo=1, hi=9):
    rng = c.rng
    n = int(rng.integers(lo, hi))
    v = np.round(10 ** rng.uniform(-3, 2, n), 4)
    how = str(rng.choice(["array", "list", "dups", "ints", "scalar"]))
    if how == "dups":
        v = rng.choice(v[: max(1, n // 2)], n)
    if how == "ints":
        v = rng.integers(1, 50, n)
    if how == "list":
        v = list(v)
    if how == "scalar":
        v = float(v[0])
    c.describe(n=int(np.size(v)), form=how)
    return v


def info_of(hp, n=3):
    i = S.SolutionInfo(f"hp={hp:.6g}", n, None, residual0=1.0, residual0_cv=2.0)
    i.iterations = n
    i.residuals[:] = hp
    i.residuals_cv[:] = hp * 2
    return i


def make_mode(c, rng):
    mode = str(rng.choice(["serial", "false", "true", "int1", "int3", "pool", "scramble"]))
    c.describe(mode=mode)
    return mode, {"serial": 0, "false": False, "true": True, "int1": 1, "int3": 3}.get(mode)


def open_executor(mode, rng):
    if mode == "pool":
        return ThreadPoolExecutor(int(rng.integers(1, 5)))
    if mode == "scramble":
        return ScramblingExecutor(rng, int(rng.integers(2, 5)))
    return None


@check.family("exactly-once", 120, 2500, ["evaluated-once", "association", "two-stage", "timings", "lengths", "inputs", "executor-open", "threads"])
def exactly_once(c):
    """The event log of the tasks: each value initialized once, executed once, result in its place."""
    rng = c.rng
    hp = values(c)
    hv = np.array(hp, ndmin=1)
    hv0 = np.copy(hv)
    mode, pe = make_mode(c, rng)
    two = bool(rng.random() < 0.6)
    kw_i = dict(alpha=float(rng.random())) if two and rng.random() < 0.5 else None
    kw_e = dict(beta=rng.random(3)) if rng.random() < 0.5 else None
    log = Log()
    seq = iter(range(10**6))
    durs = rng.uniform(0, 0.003, 64)
    spent = {}

    class Tok:
        def __init__(self, hp, n):
            self.hp, self.n = hp, n

    def init0(hp):
        n = next(seq)
        log.add("init", float(hp), n, None)
        time.sleep(durs[n % 64])
        return Tok(hp, n)

    def init1(hp, alpha=None):
        n = next(seq)
        log.add("init", float(hp), n, alpha)
        time.sleep(durs[n % 64])
        return Tok(hp, n)

    def exe(s, beta=None):
        n, h = (s.n, s.hp) if isinstance(s, Tok) else (next(seq), s)
        log.add("start", float(h), n, beta)
        t0 = time.perf_counter()
        time.sleep(durs[(n * 7 + 3) % 64])
        spent[n] = time.perf_counter() - t0
        log.add("end", float(h), n)
        return np.full((2, 3), float(h)) + n * 1e-9, info_of(h)

    ex = open_executor(mode, rng)
    t = Tuner(lambda r: float(r.flat[0]), parallel_eval=ex if ex is not None else pe, verbose=bool(rng.random() < 0.2))
    t.task_exec_function = exe
    if two:
        t.task_init_function = init1 if kw_i else init0
    b0 = None if kw_e is None else kw_e["beta"].copy()
    with ThreadWatch() as w, perturbed(int(rng.integers(1 << 30)), prob=0.1, max_s=5e-4) as pert:
        recs, infos, perf = t.process_hp_vals(hp, init_fun_kwds=kw_i, exec_fun_kwds=kw_e)
        if ex is not None:
            try:
                ok = ex.submit(lambda: 5).result() == 5
            except RuntimeError:
                ok = False
            c.expect(ok, "executor-open", "the executor of the user was shut down after a successful search")
            ex.shutdown()
        else:
            c.monitors["executor-open"] += 1
    c.expect(not w.leaked(), "threads", f"worker threads left behind: {w.leaked()}")
    starts, ends, inits = log.of("start"), log.of("end"), log.of("init")
    c.expect(sorted(s[0] for s in starts) == sorted(map(float, hv)), "evaluated-once", "values evaluated a different number of times than requested")
    c.expect(len(ends) == len(starts) == len(hv), "evaluated-once", "tasks lost or repeated")
    c.expect(len({s[1] for s in starts}) == len(starts), "two-stage", "an initialized solver was executed twice")
    if two:
        c.expect(sorted(s[0] for s in inits) == sorted(map(float, hv)), "two-stage", "solvers initialized a different number of times")
        c.expect({s[1] for s in inits} == {s[1] for s in starts}, "two-stage", "executed solvers are not the initialized ones")
        c.expect(all(s[2] == (kw_i or {}).get("alpha") for s in inits), "two-stage", "initialization parameters not delivered")
    c.expect(all((s[2] is None) == (kw_e is None) and (kw_e is None or s[2] is kw_e["beta"]) for s in starts), "two-stage", "execution parameters not delivered")
    if kw_e is not None:
        c.same(kw_e["beta"], b0, "inputs")
        c.expect(list(kw_e) == ["beta"], "inputs", "parameters modified")
    c.same(np.array(hp, ndmin=1), hv0, "inputs", "values modified")
    c.expect(len(recs) == len(infos) == len(perf.tasks_perf) == len(hv), "lengths", "results lost")
    ns = []
    for h, r, i in zip(hv, recs, infos):
        c.expect(abs(r.flat[0] - float(h)) < 1e-4 and i.method == f"hp={h:.6g}", "association", "result not associated to its value")
        ns.append(int(round((r.flat[0] - float(h)) * 1e9)))
    c.expect(len(set(ns)) == len(ns), "association", "a result was returned twice")
    low = [(round(x.exec_time_s, 6), round(spent.get(n, 0), 6)) for x, n in zip(perf.tasks_perf, ns)]
    c.expect(all(x.exec_time_s >= spent.get(n, 0) - 1e-7 for x, n in zip(perf.tasks_perf, ns)), "timings", f"times not associated to their values: (reported, at least) {low}")
    p = perf
    c.expect(all(x.init_time_s >= 0 and x.exec_time_s >= 0 and abs(x.total_time_s - x.init_time_s - x.exec_time_s) < 1e-9 for x in p.tasks_perf), "timings", "task times do not add up")
    c.expect(abs(p.total_time_s - p.init_time_s - p.proc_time_s) < 1e-9 and p.total_time_s >= 0, "timings", "batch times do not add up")
    c.expect(all(x.total_time_s <= p.total_time_s + 1e-9 for x in p.tasks_perf), "timings", "a task took longer than the batch")
    order = [e[1] for e in ends]
    c.event("out-of-order completions", sum(a > b for a, b in zip(order, order[1:])))
    c.event("thread switches", pert.switches())
    c.trivial = len(hv) < 2


@check.family("modes-agree", 60, 1000, ["same-everywhere", "losses"])
def modes_agree(c):
    """Serial, thread-parallel and executor-based searches of real reconstructions return the same results."""
    rng = c.rng
    n, m = int(rng.integers(4, 9)), int(rng.integers(6, 14))
    M = np.abs(rng.standard_normal((m, n)))
    x = np.abs(rng.standard_normal(n))
    b = (M @ x + 0.05 * rng.standard_normal(m)).astype(np.float64)
    hv = np.round(10 ** rng.uniform(-3, 0, int(rng.integers(2, 6))), 4)
    solver = str(rng.choice(["pdhg", "fista", "sirt"]))
    its = int(rng.integers(3, 25))
    shared = bool(rng.random() < 0.5)
    c.describe(solver=solver, m=m, n=n, values=len(hv), shared_operator=shared)
    A1 = S_matrix(M)

    def task(hp):
        reg = [R.Regularizer_l1(float(hp))]
        return {"pdhg": S.PDHG, "fista": S.FISTA, "sirt": S.SIRT}[solver](regularizer=reg)

    def exe(s):
        A = A1 if shared else S_matrix(M)
        return s(A, b, its)

    def run(pe):
        t = Tuner(lambda r: float(np.sum(np.abs(r))), parallel_eval=pe, data_dtype=np.float64)
        t.task_init_function, t.task_exec_function = task, exe
        return t.compute_loss_values(hv, return_all=True)

    direct = [exe(task(h)) for h in hv]
    with perturbed(int(rng.integers(1 << 30)), prob=0.02, max_s=3e-4) as pert:
        outs = {"serial": run(0), "threads": run(3), "bool": run(True)}
        with ThreadPoolExecutor(2) as ex:
            outs["pool"] = run(ex)
    for k, (f, recs, infos, _) in outs.items():
        for d, r, i, h, fv in zip(direct, recs, infos, hv, f):
            c.close(r, d[0], "same-everywhere", f"{k} search, value {h}", rtol=1e-6, atol=1e-9)
            c.close(i.residuals_rel if np.isfinite(i.residual0) else i.residuals, d[1].residuals_rel if np.isfinite(d[1].residual0) else d[1].residuals, "same-everywhere", f"{k} search, residuals", rtol=1e-5, atol=1e-9)
            c.close(fv, np.sum(np.abs(d[0])), "losses", f"{k} search", rtol=1e-6)
    c.event("thread switches", pert.switches())


def S_matrix(M):
    from corrct.projectors import ProjectorMatrix

    return ProjectorMatrix(M, (M.shape[1],), (M.shape[0],))


def _top_init(hp):
    return hp * 2


def _top_exec(s, beta=0.0):
    time.sleep(0.001 * (int(s * 1000) % 3))
    return np.array([s + beta]), info_of(s)


@check.family("processes", 4, 40, ["association"])
def processes(c):
    """Process pools."""
    rng = c.rng
    hv = values(c, 2, 8)
    t = Tuner(lambda r: float(r[0]), data_dtype=np.float64)
    with ProcessPoolExecutor(2, mp_context=mp.get_context("fork")) as ex:
        t.parallel_eval = ex
        t.task_init_function, t.task_exec_function = _top_init, _top_exec
        f = t.compute_loss_values(hv, exec_fun_kwds=dict(beta=0.5))
    c.close(f, np.array(hv, ndmin=1) * 2 + 0.5, "association", "process pool", rtol=1e-12)


class Boom(RuntimeError):
    pass


@check.family("faults", 100, 2000, ["raised", "threads", "recovers", "nothing-invented"])
def faults(c):
    """A failing task (initialization, execution, or loss) reaches the caller, and leaves nothing behind."""
    rng = c.rng
    hv = np.arange(1, int(rng.integers(2, 9))) * 1.0
    mode, pe = make_mode(c, rng)
    where = str(rng.choice(["init", "exec", "loss"]))
    exc = [ValueError, Boom, KeyError, MemoryError][int(rng.integers(4))]
    bad = set(rng.choice(hv, int(rng.integers(1, len(hv) + 1)), replace=False).tolist())
    c.describe(where=where, exc=exc.__name__, failing=len(bad), of=len(hv))
    armed = [True]
    log = Log()
    ds = rng.uniform(0, 0.002, 64)

    def init(h):
        time.sleep(ds[int(h)])
        if armed[0] and where == "init" and h in bad:
            raise exc(f"injected {h}")
        return h

    def exe(h):
        log.add("start", h)
        time.sleep(ds[int(h) + 20])
        if armed[0] and where == "exec" and h in bad:
            raise exc(f"injected {h}")
        return np.array([h]), info_of(h)

    def loss(r):
        if armed[0] and where == "loss" and r[0] in bad:
            raise exc(f"injected {r[0]}")
        return float(r[0])

    ex = open_executor(mode, rng)
    t = Tuner(loss, parallel_eval=ex if ex is not None else pe, verbose=bool(rng.random() < 0.3))
    t.task_init_function, t.task_exec_function = init, exe
    with ThreadWatch() as w:
        got = None
        try:
            out = t.compute_loss_values(hv)
            c.violate("raised", f"failure of a task was swallowed: {out}")
        except exc as e:
            got = e
        c.expect(got is not None and "injected" in str(got), "raised", "a different failure was raised")
        if ex is not None:
            ex.shutdown()
    c.expect(not w.leaked(), "threads", "worker threads left behind after a failure")
    if mode in ("serial", "false") and where == "exec":
        c.expect([e[0] for e in log.of("start")] == [h for h in hv if h <= min(bad)], "nothing-invented", "serial search carried on after the failure")
    else:
        s = [e[0] for e in log.of("start")]
        c.expect(len(s) == len(set(s)), "nothing-invented", "tasks repeated after the failure")
    armed[0] = False
    if ex is not None:
        t.parallel_eval = 2
    c.close(t.compute_loss_values(hv), hv, "recovers", "search after a failed one", rtol=1e-6)


@check.family("cancels", 10, 100, ["cancelled", "raised"])
def cancels(c):
    """After a failure the evaluations that did not start yet are dropped: the caller does not wait for all of them."""
    rng = c.rng
    n = 40
    exc = [ValueError, Boom, KeyError, MemoryError, KeyboardInterrupt][int(rng.integers(5))]
    first = int(rng.integers(0, 4))
    log = Log()

    def exe(h):
        log.add("start", h)
        if h == first:
            raise exc("injected")
        time.sleep(0.03)
        return np.array([h]), info_of(h)

    ex = ThreadPoolExecutor(2) if rng.random() < 0.5 else None
    t = Tuner(lambda r: float(r[0]), parallel_eval=ex if ex is not None else 2)
    t.task_exec_function = exe
    c.describe(exc=exc.__name__, failing=first, external=ex is not None)
    with ThreadWatch() as w:
        try:
            t.compute_loss_values(np.arange(n) * 1.0)
            c.violate("raised", "failure of a task was swallowed")
        except exc as e:
            c.expect("injected" in str(e), "raised", "a different failure was raised")
        started = len(log.of("start"))
        if ex is not None:
            ex.shutdown(cancel_futures=True)
    c.event("tasks-started-after-failure", started)
    c.expect(started < n, "cancelled", f"all the {started} evaluations were carried out after the first one had failed")
    c.expect(not w.leaked(), "cancelled", "worker threads left behind")


@check.family("cv-exactly-once", 80, 1500, ["evaluated-once", "masks", "association", "inputs"])
def cv_once(c):
    """Cross-validation: each (value, fold) is evaluated exactly once, with the mask of the fold."""
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(2, 7, int(rng.integers(1, 4))))
    k = int(rng.integers(1, 5))
    kf = bool(rng.random() < 0.5) and np.prod(shape) >= k
    hv = np.unique(np.round(10 ** rng.uniform(-3, 2, int(rng.integers(1, 6))), 4))
    rng.shuffle(hv)
    mode, pe = make_mode(c, rng)
    name = str(rng.choice(["b_test_mask", "cv_mask"]))
    c.describe(shape=shape, folds=k, kfold=kf, values=len(hv), name=name)
    ex = open_executor(mode, rng)
    t = pt.CrossValidation(shape, None if kf else 0.3, k, mask_param_name=name, parallel_eval=ex if ex is not None else pe, dtype=np.float64)
    masks0 = [m.copy() for m in t.data_cv_masks]
    log = Log()
    ds = rng.uniform(0, 0.002, 64)

    def body(h, mask, gain):
        which = [i for i, m in enumerate(t.data_cv_masks) if m is mask]
        log.add("start", float(h), tuple(which), mask.copy())
        time.sleep(ds[int(h * 1000) % 64])
        i = info_of(h)
        i.residuals_cv[:] = 2 * h * gain * (1 + which[0])
        return np.full(2, h * (1 + which[0])), i

    if name == "b_test_mask":

        def exe(h, b_test_mask, gain=1.0):
            return body(h, b_test_mask, gain)
    else:

        def exe(h, cv_mask=None, gain=1.0):
            return body(h, cv_mask, gain)

    t.task_exec_function = exe
    kw = dict(gain=3.0)
    with perturbed(int(rng.integers(1 << 30)), prob=0.1, max_s=3e-4):
        avg, std, res = t.compute_loss_values(hv, exec_fun_kwds=kw, return_all=True)
    if ex is not None:
        ex.shutdown()
    c.expect(kw == dict(gain=3.0), "inputs", "parameters of the caller modified")
    seen = sorted((h, i[0]) for h, i, _ in log.of("start") if i)
    c.expect(seen == sorted((float(h), f) for h in hv for f in range(k)), "evaluated-once", "some (value, fold) was not evaluated exactly once")
    for h, i, m in log.of("start"):
        c.same(m, masks0[i[0]], "masks", "mask changed during the search")
    for m, m0 in zip(t.data_cv_masks, masks0):
        c.same(m, m0, "masks")
    want = 3.0 * hv[None, :] * (1 + np.arange(k))[:, None]
    c.close(avg, want.mean(0), "association", "averages", rtol=1e-9)
    c.close(std, want.std(0), "association", "deviations", rtol=1e-9, atol=1e-12)
    c.expect(len(res) == k, "association", "rounds lost")
    for f, (recs, infos, _) in enumerate(res):
        c.close([r[0] for r in recs], hv * (1 + f), "association", "reconstructions of the round", rtol=1e-9)


@check.family("concurrent", 12, 200, ["isolated"])
def concurrent(c):
    """Searches running at the same time do not mix."""
    rng = c.rng
    ex = ThreadPoolExecutor(3)
    outs = {}
    hvs = [np.round(rng.uniform(1, 9, int(rng.integers(2, 6))), 3) for _ in range(4)]
    c.describe(sizes=[len(h) for h in hvs])

    def one(i):
        t = Tuner(lambda r: float(r[0]), parallel_eval=ex if i % 2 else 2, data_dtype=np.float64)
        t.task_exec_function = lambda h, gain: (time.sleep(0.0007 * (int(h * 100) % 3)), (np.array([h * gain]), info_of(h)))[1]
        outs[i] = t.compute_loss_values(hvs[i], exec_fun_kwds=dict(gain=10.0**i))

    with perturbed(int(rng.integers(1 << 30)), prob=0.1, max_s=3e-4):
        th = [threading.Thread(target=one, args=(i,)) for i in range(4)]
        [x.start() for x in th]
        [x.join() for x in th]
    ex.shutdown()
    for i in range(4):
        c.close(outs.get(i, np.nan), hvs[i] * 10.0**i, "isolated", "concurrent searches", rtol=1e-9)


@check.family("rejections", 20, 60, ["refused", "accepted"])
def rejections(c):
    rng = c.rng
    t = Tuner(lambda r: 0.0)

    def refused(f, exc, what):
        try:
            f()
        except exc:
            c.expect(True, "refused")
            return
        except Exception as e:  # noqa: BLE001
            c.violate("refused", f"{what}: {type(e).__name__} instead of {exc.__name__}")
            return
        c.violate("refused", f"{what} accepted")

    c.describe(i=c.idx)
    refused(lambda: t.process_hp_vals([1.0]), ValueError, "search without a task")
    refused(lambda: t.compute_loss_values([1.0]), ValueError, "losses without a task")
    refused(lambda: t.task_exec_function, ValueError, "reading a missing task")
    refused(lambda: setattr(t, "task_exec_function", 3), ValueError, "non-callable task")
    refused(lambda: setattr(t, "task_exec_function", lambda: 3), ValueError, "task without parameters")
    refused(lambda: setattr(t, "task_init_function", 3), ValueError, "non-callable initialization")
    refused(lambda: setattr(t, "task_init_function", lambda: 3), ValueError, "initialization without parameters")
    refused(lambda: pt.LCurve(3), ValueError, "non-callable loss")
    refused(lambda: pt.LCurve(lambda a, b: 3), ValueError, "loss with two parameters")
    cv = pt.CrossValidation((4,), 0.5, 2, parallel_eval=0)
    refused(lambda: cv.compute_loss_values([1.0]), ValueError, "cross-validation without a task")
    cv.task_exec_function = lambda s: (np.zeros(1), info_of(1.0))
    refused(lambda: cv.compute_loss_values([1.0]), ValueError, "cross-validation task without the mask parameter")
    t.task_exec_function = lambda h: (np.array([h]), info_of(h))
    t.parallel_eval = "many"
    refused(lambda: t.process_hp_vals([1.0]), ValueError, "unknown executor")
    t.parallel_eval = True
    t.task_init_function = None
    f, r, i, p = pt.LCurve.compute_loss_values(t, float(rng.uniform(1, 2)), return_all=True)
    c.expect(f.shape == (1,) and len(r) == 1, "accepted", "scalar value")
    t.solver_spawning_function = lambda h: h
    t.solver_calling_function = lambda h: (np.array([h]), info_of(h))
    c.expect(t.solver_spawning_function is t.task_init_function and t.solver_calling_function is t.task_exec_function, "accepted", "deprecated names")


if __name__ == "__main__":
    raise SystemExit(check.main())
