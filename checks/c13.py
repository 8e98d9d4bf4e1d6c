"""C13 - hyper-parameter statistics: test masks, value ranges, cross-validation losses, errors, and the fitted minimum."""
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from corrct import param_tuning as pt
from corrct import regularizers as R
from corrct import solvers as S
from corrct.projectors import ProjectorMatrix
from rtm.core import Check

check = Check(
    "C13",
    "Random data shapes, fractions, folds, value ranges, loss curves (exact parabolas in linear/log scale, noisy, constant, concave, decreasing order, minima at the borders) and real "
    "reconstructions (with and without early stopping), against independent formulas and direct solver calls. Non-trivial when masks have both values, or curves at least three points.",
    scale=(3, 1),
)


@check.family("random-masks", 120, 3000, ["count", "binary", "shape"])
def random_masks(c):
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(1, 12, int(rng.integers(1, 4))))
    fr = float(np.round(rng.uniform(0, 1), 3)) if rng.random() < 0.8 else float(rng.choice([0.0, 1.0, 0.5, 0.05]))
    dtype = rng.choice([np.float32, np.float64, np.uint8, np.bool_])
    np.random.seed(int(rng.integers(1 << 30)))
    c.describe(shape=shape, fraction=fr, dtype=np.dtype(dtype).name)
    cv = rng.random() < 0.4
    if cv:
        ms = pt.CrossValidation(shape, fr, 3, dtype=dtype, parallel_eval=0).data_cv_masks
        c.expect(len(ms) == 3, "count", "number of test sets")
    else:
        ms = [pt.create_random_test_mask(shape, fr, dtype)]
    for m in ms:
        c.expect(m.shape == shape and m.dtype == dtype, "shape", f"{m.shape} {m.dtype}")
        c.expect(set(np.unique(m.astype(float))) <= {0.0, 1.0}, "binary", "mask values")
        n = float(m.astype(float).sum())
        want = np.prod(shape) * fr
        c.expect(want - 1e-6 <= n <= want + 1 + 1e-6, "count", f"{n} test points of {np.prod(shape)} x {fr}")
    c.trivial = not 0 < fr < 1


@check.family("uniform-masks", 10, 100, ["uniform"])
def uniform_masks(c):
    """Every data point is equally likely to be held out, and different sets differ."""
    rng = c.rng
    shape = (int(rng.integers(2, 5)), int(rng.integers(2, 6)))
    np.random.seed(int(rng.integers(1 << 30)))
    N, fr = 600, 0.3
    ms = np.stack([pt.create_random_test_mask(shape, fr) for _ in range(N)])
    p = np.ceil(np.prod(shape) * fr - 1e-9) / np.prod(shape)
    c.describe(shape=shape)
    c.expect(np.all(np.abs(ms.mean(0) - p) < 7 * np.sqrt(p * (1 - p) / N) + 1e-9), "uniform", "some points are favoured")
    kf = [np.argmax(np.stack(pt.create_k_fold_test_masks(shape, 3)).reshape(3, -1), 0) for _ in range(N)]
    cnt = np.stack([(np.stack(kf) == f).mean(0) for f in range(3)])
    c.expect(np.all(np.abs(cnt - 1 / 3) < 7 * np.sqrt(0.25 / N) + 0.5 / np.prod(shape)), "uniform", "folds favour some points")


@check.family("k-folds", 200, 5000, ["partition", "balanced", "binary", "seed"])
def kfolds(c):
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(1, 9, int(rng.integers(1, 4))))
    if rng.random() < 0.2:
        shape = list(shape)
    k = int(rng.integers(1, 9))
    seed = int(rng.integers(1000)) if rng.random() < 0.7 else None
    dtype = rng.choice([np.float32, np.float64, np.uint8])
    c.describe(shape=shape, k=k, seed=seed)
    ms = pt.create_k_fold_test_masks(shape, k, dtype, seed)
    tot = np.sum([m.astype(int) for m in ms], axis=0)
    c.expect(len(ms) == k and all(m.shape == tuple(shape) and m.dtype == dtype for m in ms), "partition", "number, shape, or type of the folds")
    c.expect(np.all(tot == 1), "partition", "folds do not partition the data")
    n = [int(m.sum()) for m in ms]
    c.expect(max(n) - min(n) <= 1, "balanced", f"fold sizes {n}")
    c.expect(all(set(np.unique(m)) <= {0, 1} for m in ms), "binary")
    if seed is not None:
        c.expect(all(np.array_equal(a, b) for a, b in zip(ms, pt.create_k_fold_test_masks(shape, k, dtype, seed))), "seed", "same seed, different folds")
        if np.prod(shape) > 60 and k > 1:
            o = pt.create_k_fold_test_masks(shape, k, dtype, seed + 1)
            c.expect(not all(np.array_equal(a, b) for a, b in zip(ms, o)), "seed", "different seeds, same folds")
    cv = pt.CrossValidation(shape, None, k, parallel_eval=0)
    c.expect(len(cv.data_cv_masks) == k and np.all(np.sum(cv.data_cv_masks, axis=0) == 1), "partition", "cross-validation folds")


@check.family("range", 300, 8000, ["within", "covers", "spacing", "aligned"])
def lambda_range(c):
    rng = c.rng
    n = int(rng.integers(1, 13))
    al = bool(rng.random() < 0.6)
    s = float(rng.choice([1, 2, 3, 5, 7])) * 10.0 ** int(rng.integers(-12, 9)) if rng.random() < 0.7 else 10 ** rng.uniform(-8, 5)
    e = s * 10 ** (float(rng.integers(1, 6)) if rng.random() < 0.5 else rng.uniform(0.2, 5))
    c.describe(start=s, end=e, n=n, aligned=al)
    v = pt.get_lambda_range(s, e, n, al)
    step = 10 ** (1 / n)
    c.expect(v.ndim == 1, "within")
    if not al or e / s >= step * 1.01:
        c.expect(len(v) >= 1, "covers", "empty range")
    if len(v):
        c.expect(v.min() >= s * (1 - 1e-9), "within", f"{v.min()} before the start {s}")
        if al:
            c.expect(v.max() <= e * (1 + 2e-3), "within", f"{v.max()} beyond the end {e}")
            c.expect(v[0] < s * step * (1 + 1e-6), "covers", "values missing at the start")
            c.expect(v[-1] * step > e * (1 - 1e-6), "covers", "values missing at the end")
            ex = np.log10(v) * n
            c.close(ex, np.round(ex), "aligned", "not aligned to the orders of magnitude", rtol=0, atol=1e-6 * n)
        else:
            c.expect(abs(v[0] / s - 1) < 1e-9, "covers", "does not start at the start")
            c.expect(v[-1] >= e * (1 - 3e-3), "covers", f"ends at {v[-1]} before {e}")
            c.expect(v[-1] <= e * step * (1 + 1e-6), "within", "goes too far beyond the end")
            c.expect(True, "aligned")
        if len(v) > 1:
            c.close(v[1:] / v[:-1], np.full(len(v) - 1, step), "spacing", rtol=1e-9)
    # from one order of magnitude to another: both ends belong to the range
    k, m = int(rng.integers(-14, 13)), int(rng.integers(1, 4))
    v2 = pt.get_lambda_range(float(f"1e{k}"), float(f"1e{k + m}"), n, al)
    c.close(v2, 10.0 ** (k + np.arange(n * m + 1) / n), "covers", f"from 1e{k} to 1e{k + m}", rtol=1e-9)
    if al:
        c.expect(np.array_equal(v, pt.BaseParameterTuning.get_lambda_range(s, e, n)), "within", "deprecated name differs")


def tiny(c):
    rng = c.rng
    n, m = int(rng.integers(4, 9)), int(rng.integers(8, 16))
    two = bool(rng.random() < 0.5)
    M = np.abs(rng.standard_normal((m, n)))
    x = np.abs(rng.standard_normal(n)) + 0.1
    ps = (m,) if not two else (2, m // 2)
    if two:
        M = M[: 2 * (m // 2)]
    b = (M @ x).reshape(ps) * (1 + 0.1 * rng.standard_normal(ps))
    return ProjectorMatrix(M, (n,), ps), b, x


@check.family("cv-losses", 100, 2000, ["loss", "averages", "held-out", "rounds"])
def cv_losses(c):
    """Losses are the relative residuals on the held-out data of the last iteration that was performed."""
    rng = c.rng
    A, b, x = tiny(c)
    k = int(rng.integers(2, 5))
    kf = bool(rng.random() < 0.5)
    hv = np.round(10 ** rng.uniform(-3, 0, int(rng.integers(1, 6))), 4)
    early = bool(rng.random() < 0.5)
    its = int(rng.integers(5, 40))
    solver = {"sirt": S.SIRT, "pdhg": S.PDHG, "fista": S.FISTA}[str(rng.choice(["sirt", "pdhg", "fista"]))]
    np.random.seed(int(rng.integers(1 << 30)))
    t = pt.CrossValidation(b.shape, None if kf else float(rng.choice([0.1, 0.3])), k, parallel_eval=int(rng.integers(0, 3)), dtype=np.float64)
    tol = float(10 ** rng.uniform(-2.5, -0.5)) if early else None
    c.describe(solver=solver.__name__, folds=k, kfold=kf, early=early, its=its, values=len(hv))
    mk = lambda hp: solver(regularizer=R.Regularizer_l1(float(hp)), tolerance=tol)
    run = lambda s, b_test_mask=None: s(A, b, its, b_test_mask=b_test_mask)
    t.task_init_function, t.task_exec_function = mk, run
    ikw, ekw = {"iw": 1.0}, {"its": its}
    t.task_init_function, t.task_exec_function = lambda hp, iw=None: mk(hp), lambda s, its=None, b_test_mask=None: run(s, b_test_mask)
    avg, std, res = t.compute_loss_values(hv, init_fun_kwds=ikw, exec_fun_kwds=ekw)
    c.expect(ikw == {"iw": 1.0} and ekw == {"its": its}, "rounds", f"modified arguments {list(ikw)} {list(ekw)}")
    t.task_init_function, t.task_exec_function = mk, run
    want, stopped = [], 0
    for m in t.data_cv_masks:
        row = []
        for h in hv:
            y, i = run(mk(h), m)
            n = i.iterations
            stopped += n < its
            row.append(i.residuals_cv[n - 1] / i.residual0_cv)
            c.expect(i.residuals_cv[n - 1] >= 0, "held-out")
            if solver is S.SIRT and not early:
                c.expect(row[-1] > 0, "held-out", "zero residual on held-out noisy data")
        want.append(row)
    c.event("early stopped reconstructions", stopped)
    want = np.array(want)
    c.close(res, want, "loss", "losses of the folds", rtol=1e-6, atol=1e-9)
    c.close(avg, want.mean(0), "averages", "average", rtol=1e-6, atol=1e-9)
    c.close(std, want.std(0), "averages", "standard deviation", rtol=1e-5, atol=1e-8)
    a2, s2, r2 = t.compute_loss_values(hv, return_all=True)
    c.close(a2, avg, "rounds", "second computation", rtol=1e-6, atol=1e-9)
    c.expect(len(r2) == k and all(len(r) == 3 and len(r[0]) == len(r[1]) == len(hv) for r in r2), "rounds", "all the information of each round")


@check.family("errors", 100, 2000, ["l1", "l2", "lcurve", "plots", "inputs"])
def errors(c):
    """Reconstruction errors and L-curve values; plotting and printing do not change them."""
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(1, 8, int(rng.integers(1, 4))))
    gt = rng.standard_normal(shape)
    hv = np.round(10 ** rng.uniform(-3, 2, int(rng.integers(1, 6))), 4)
    recs = {float(h): rng.standard_normal(shape) * 10 ** rng.uniform(-1, 2) for h in hv}
    c.describe(shape=shape, values=len(hv))
    plot = c.idx % 10 == 0
    kw = dict(parallel_eval=int(rng.integers(0, 3)), plot_result=plot, verbose=bool(rng.random() < 0.3), print_timings=bool(rng.random() < 0.3))

    def exe(h, gain=1.0):
        i = S.SolutionInfo("x", 2, None, 1.0, 2.0)
        i.iterations = 2
        i.residuals_cv[:] = [3.0, float(h)]
        return recs[float(h)] * gain, i

    np.random.seed(1)
    t = pt.CrossValidation(shape, 0.5, 2, dtype=np.float64, **kw)
    t.task_exec_function = exe
    g0 = gt.copy()
    l1, l2 = t.compute_reconstruction_error(hv, gt, exec_fun_kwds=dict(gain=2.0))
    c.close(l1, [np.sum(np.abs(2 * recs[float(h)] - gt)) for h in hv], "l1", rtol=1e-10)
    c.close(l2, [np.sum((2 * recs[float(h)] - gt) ** 2) for h in hv], "l2", rtol=1e-10)
    c.same(gt, g0, "inputs")
    lc = pt.LCurve(lambda r: float(np.abs(r).sum()), data_dtype=np.float64, **kw)
    lc.task_exec_function = exe
    c.close(lc.compute_loss_values(hv), [np.abs(recs[float(h)]).sum() for h in hv], "lcurve", rtol=1e-10)
    l1b, l2b = lc.compute_reconstruction_error(hv, gt)
    c.close(l1b, [np.sum(np.abs(recs[float(h)] - gt)) for h in hv], "l1", rtol=1e-10)
    if plot:
        t.task_exec_function = lambda h, b_test_mask: exe(h)
        avg, std, res = t.compute_loss_values(hv)
        c.close(avg, hv / 2, "plots", "plotted cross-validation", rtol=1e-10)
        pt.plot_cv_curves([exe(h)[1] for h in hv], hv)
        if len(hv) >= 3:
            hs = np.sort(hv)
            t.fit_loss_min(hs, (np.log10(hs) - 0.1) ** 2, np.full(len(hs), 0.1))
            t.fit_loss_min(hs, (np.log10(hs) - 0.1) ** 2, scale="linear")
        plt.close("all")


@check.family("fit", 500, 15000, ["vertex", "bounded", "not-worse", "scaling", "order", "inputs", "warned"])
def fit(c):
    """The fitted minimum."""
    rng = c.rng
    n = int(rng.integers(3, 15))
    scale = str(rng.choice(["log", "linear", "LOG", "Linear"]))
    log = scale.lower() == "log"
    u = np.sort(np.cumsum(rng.uniform(0.2, 1.0, n))) + rng.uniform(-3, 1)
    h = 10**u if log else u
    kind = str(rng.choice(["parabola", "parabola-outside", "noise", "constant", "concave", "monotone", "quartic"]))
    a, f0 = rng.uniform(0.1, 5), rng.uniform(-3, 3)
    v = rng.uniform(u[0], u[-1]) if kind != "parabola-outside" else (u[-1] + rng.uniform(0.1, 2) if rng.random() < 0.5 else u[0] - rng.uniform(0.1, 2))
    f = {
        "parabola": a * (u - v) ** 2 + f0,
        "parabola-outside": a * (u - v) ** 2 + f0,
        "noise": rng.standard_normal(n),
        "constant": np.full(n, rng.choice([0.0, 1.0, f0])),
        "concave": -a * (u - v) ** 2 + f0,
        "monotone": np.cumsum(rng.uniform(0.1, 1, n)) * rng.choice([-1, 1]),
        "quartic": a * (u - v) ** 4 + (u - v) ** 2 + f0,
    }[kind]
    c.describe(n=n, scale=scale, kind=kind, vertex=round(float(v), 4), loss=round(float(f.sum()), 6))
    h0, f0_ = h.copy(), f.copy()
    hm, fm = pt.fit_func_min(h, f, scale=scale)
    c.same(h, h0, "inputs")
    c.same(f, f0_, "inputs")
    sp = float(np.ptp(f)) + float(np.abs(f).max()) * 1e-6
    c.expect(np.isfinite(hm) and h[0] - 1e-9 * abs(h[0]) <= hm <= h[-1] + 1e-9 * abs(h[-1]), "bounded", f"{hm} outside [{h[0]}, {h[-1]}]")
    c.expect(fm <= f.min() + 1e-6 * sp + 1e-9, "not-worse", f"fitted minimum {fm} above the measured one {f.min()}")
    cond = (np.abs(u).max() + 1) ** 2
    if kind == "parabola":
        c.close(np.log10(hm) if log else hm, v, "vertex", "vertex position", rtol=0, atol=1e-7 * cond * (1 + sp / a))
        c.close(fm, f0, "vertex", "vertex value", rtol=0, atol=1e-8 * cond * (sp + abs(f0) + 1))
    elif kind in ("parabola-outside", "concave"):
        i = int(np.argmin(f))
        c.expect(hm == h[i] and fm == f[i], "vertex", "the measured minimum is expected")
    interior = 0 < int(np.argmin(f)) < n - 1
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter("always")
        pt.fit_func_min(h, f, scale=scale)
    said = [str(w.message) for w in said if w.category is UserWarning]
    c.expect(bool(said) or interior, "warned", "the smallest loss is at an end of the range, and nothing was said")
    c.expect(not said or not interior or kind == "constant" or kind == "parabola-outside", "warned", f"regular minimum, but: {said}")
    if kind in ("noise", "quartic") and interior:
        i = int(np.argmin(f))
        c.expect(h[i - 1] <= hm <= h[i + 1], "bounded", "minimum away from the bracketing values")
        p = np.polyfit(u[i - 1 : i + 2] - u[i], f[i - 1 : i + 2], 2)
        c.close(np.log10(hm) if log else hm, u[i] - p[1] / (2 * p[0]), "vertex", "parabola through the three bracketing values", rtol=0, atol=1e-6 * cond)
    g, o = float(rng.uniform(0.1, 10)), float(rng.uniform(-5, 5))
    if kind in ("parabola", "quartic") and interior:
        h2, f2 = pt.fit_func_min(h, f * g + o, scale=scale)
        c.close(np.log10(h2 / hm) if log else h2 - hm, 0, "scaling", "loss scaling moves the minimum", rtol=0, atol=1e-5 * cond)
        c.close(f2, fm * g + o, "scaling", "loss scaling", rtol=0, atol=1e-6 * cond * (g * (sp + abs(f0)) + abs(o) + 1))
        s = float(10 ** rng.uniform(-2, 2))
        h3, _ = pt.fit_func_min(h * s, f, scale=scale)
        c.close(np.log10(h3 / hm / s) if log else (h3 - hm * s) / s, 0, "scaling", "value scaling", rtol=0, atol=1e-5 * cond)
        h4, f4 = pt.fit_func_min(h[::-1].copy(), f[::-1].copy(), scale=scale)
        c.close([np.log10(h4 / hm) if log else h4 - hm, f4 - fm], [0, 0], "order", "decreasing values", rtol=0, atol=1e-5 * cond * (1 + sp))
    h5, f5 = pt.fit_func_min(list(h), f, scale=scale)
    c.expect(h5 == hm and f5 == fm, "inputs", "list of values")
    t = pt.CrossValidation((3,), 0.5, 2, parallel_eval=0)
    h6, f6 = t.fit_loss_min(h, f, scale=scale)
    c.expect(h6 == hm and f6 == fm, "inputs", "method and function differ")


@check.family("perf", 100, 1000, ["format", "batch", "text"])
def perf(c):
    rng = c.rng
    s = float(np.round(10 ** rng.uniform(-4, 5.2), 4))
    c.describe(seconds=s)
    t = pt.format_time(s)
    hh, mm, rest = t.split(":")
    ss, ms = rest.split(".")
    c.expect(len(hh) >= 2 and len(mm) == len(ss) == 2 and len(ms) == 3 and int(mm) < 60 and int(ss) < 60, "format", t)
    c.close(int(hh) * 3600 + int(mm) * 60 + int(ss) + int(ms) / 1000, s, "format", t, rtol=0, atol=1.0011e-3)

    def batch():
        b = pt.PerfMeterBatch(init_time_s=float(rng.uniform(0, 3)))
        b.total_time_s = b.init_time_s
        for _ in range(int(rng.integers(0, 4))):
            i, e = rng.uniform(0, 2, 2)
            b.append(pt.PerfMeterTask(float(i), float(e), float(i + e)))
        return b

    a, b = batch(), batch()
    na, nb = list(a.tasks_perf), list(b.tasks_perf)
    d = a + b
    c.close([d.init_time_s, d.proc_time_s, d.total_time_s], np.add([a.init_time_s, a.proc_time_s, a.total_time_s], [b.init_time_s, b.proc_time_s, b.total_time_s]), "batch", "sum", rtol=1e-12)
    c.expect(d.tasks_perf == na + nb and a.tasks_perf == na and b.tasks_perf == nb and d.tasks_perf is not a.tasks_perf, "batch", "tasks of the sum")
    c.close(a.proc_time_s, sum(x.total_time_s for x in na), "batch", "processing time", rtol=1e-9, atol=1e-12)
    for z in (a, b, d):
        c.expect(pt.format_time(z.proc_time_s) in str(z) and pt.format_time(z.total_time_s) in str(z), "text")
    c.expect(pt.PerfMeterBatch().tasks_perf is not pt.PerfMeterBatch().tasks_perf, "batch", "tasks shared between batches")


@check.family("rejections", 10, 30, ["refused"])
def rejections(c):
    c.describe(i=c.idx)

    def refused(f):
        try:
            f()
        except ValueError:
            return c.expect(True, "refused")
        c.violate("refused", "accepted")

    refused(lambda: pt.fit_func_min([1, 2], np.array([1.0, 2.0])))
    refused(lambda: pt.fit_func_min([1, 2, 3, 4], np.array([1.0, 2.0, 3.0])))
    refused(lambda: pt.fit_func_min([1, 2, 3], np.array([1.0, 2.0])))
    refused(lambda: pt.fit_func_min([1, 2, 3], np.array([1.0, 2.0, 3]), scale="cubic"))


if __name__ == "__main__":
    raise SystemExit(check.main())
