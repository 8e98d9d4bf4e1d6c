"""C01 - linear operators: adjointness, linearity, matrix views, perfect reconstruction."""
import itertools

import numpy as np
import pywt

import corrct.operators as ops
from rtm.core import Check
from rtm.ops import eps_of, monitor_adjoint, monitor_integers, monitor_linear, monitor_pure, rand_dtype

check = Check(
    "C01",
    "Each case draws an operator class, a shape (1-4 dims, odd/even/size-1 axes), axes subset, padding, wavelet/level, kernel and "
    "dtype at random; non-trivial when at least one adjoint/linearity/reconstruction monitor was evaluated on a random vector. "
    "Distinct = distinct (family, parameters).",
    scale=(4, 1),
)


def shape_of(rng, ndim=None, lo=1, hi=12):
    ndim = int(rng.integers(1, 4)) if ndim is None else ndim
    return tuple(int(s) for s in rng.integers(lo, hi + 1, ndim))


def subset_axes(rng, ndim):
    n = int(rng.integers(1, ndim + 1))
    ax = rng.choice(ndim, n, replace=False)
    if rng.random() < 0.6:
        ax = np.sort(ax)
    if rng.random() < 0.5:
        ax = ax - ndim
    return [int(a) for a in ax]


def views(c, A, x, y, tol):
    """The LinearOperator views (matvec, rmatvec, T, T.T, H, matmul, explicit) agree with the functional calls."""
    ax, aty = np.asarray(A(x), float), np.asarray(A.T(y), float)
    c.close(A.matvec(x.ravel()), ax.ravel(), "view-matvec", rtol=tol, atol=1e-12)
    c.close(A.rmatvec(y.ravel()), aty.ravel(), "view-rmatvec", rtol=tol, atol=1e-12)
    c.close(A @ x.ravel(), ax.ravel(), "view-matmul", rtol=tol, atol=1e-12)
    c.close(A.T @ y.ravel(), aty.ravel(), "view-T-matmul", rtol=tol, atol=1e-12)
    c.close(A.H @ y.ravel(), aty.ravel(), "view-H-matmul", rtol=tol, atol=1e-12)
    c.close(A.T.rmatvec(x.ravel()), ax.ravel(), "view-T-rmatvec", rtol=tol, atol=1e-12)
    c.close(A.T.T(x), ax, "view-T-T", "transpose is an involution", rtol=tol, atol=1e-12)
    c.close(A.T.T @ x.ravel(), ax.ravel(), "view-T-T-matmul", rtol=tol, atol=1e-12)
    c.expect(tuple(A.shape) == (y.size, x.size) and tuple(A.T.shape) == (x.size, y.size), "view-shape", str(A.shape))
    if x.size * y.size <= 40000:
        m = A.explicit()
        c.close(m @ x.ravel().astype(float), ax.ravel(), "view-explicit", rtol=max(tol, 3e-5), scale=max(np.abs(ax).max(), np.abs(m).sum(axis=1).max() * np.abs(x).max(), 1e-30))
        mt = A.T.explicit()
        c.close(mt @ y.ravel().astype(float), aty.ravel(), "view-T-explicit", rtol=max(tol, 3e-5), scale=max(np.abs(aty).max(), np.abs(mt).sum(axis=1).max() * np.abs(y).max(), 1e-30))
    # calling the transposed view must not disturb the original
    c.close(A(x), ax, "view-original-undisturbed", rtol=tol, atol=1e-12)


def mk(c, shape, dtype, support=None):
    def f():
        v = c.rng.standard_normal(tuple(shape)).astype(dtype)
        if support is not None:
            v = v * support
        return v

    return f


def full(c, A, dtype, adj_exact=True, tol=None, do_views=True):
    sx, sy = tuple(int(s) for s in A.dir_shape), tuple(int(s) for s in A.adj_shape)
    mx, my = mk(c, sx, dtype), mk(c, sy, dtype)
    x, y = mx(), my()
    tol = tol or (3e-5 if dtype == np.float32 else 1e-9)
    monitor_linear(c, A, mx, tol, "linear")
    monitor_linear(c, A.T, my, tol, "linear-T")
    monitor_pure(c, A, x)
    monitor_pure(c, A.T, y, "pure-T")
    if adj_exact:
        monitor_adjoint(c, A, A.T, mx, my, tol)
    monitor_integers(c, A, sx)
    monitor_integers(c, A.T, sy)
    if do_views:
        views(c, A, x, y, tol * 10)
    return x, y


COMMON = ["integers", "linear", "linear-T", "adjoint", "pure-input", "pure-repeat", "view-T-T", "view-explicit", "view-T-explicit"]


@check.family("gradient", 120, 3000, COMMON + ["oracle", "oracle-T", "interior-adjoint"])
def gradient(c):
    rng = c.rng
    shape = shape_of(rng, lo=2)
    axes = None if rng.random() < 0.3 else subset_axes(rng, len(shape))
    mode = str(rng.choice(["edge", "constant", "wrap", "reflect", "symmetric"]))
    dtype = rand_dtype(rng)
    c.describe(shape=shape, axes=axes, mode=mode, dtype=str(dtype))
    A = ops.TransformGradient(shape, axes=axes, pad_mode=mode)
    full(c, A, dtype, adj_exact=mode != "reflect")
    # reference: forward differences with the given boundary
    x = mk(c, shape, np.float64)()
    ax_list = list(range(len(shape))) if axes is None else [a % len(shape) for a in axes]
    g = A(x)
    for ii, ax in enumerate(ax_list):
        want = np.roll(x, -1, axis=ax) - x
        n = shape[ax]
        sl = [slice(None)] * len(shape)
        sl[ax] = slice(0, n - 1)
        c.close(g[ii][tuple(sl)], want[tuple(sl)], "oracle", "forward difference", rtol=1e-12, atol=1e-12)
        last = np.take(g[ii], n - 1, axis=ax)
        xl = np.take(x, n - 1, axis=ax)
        bd = dict(edge=0 * xl, symmetric=0 * xl, constant=-xl, wrap=np.take(x, 0, axis=ax) - xl, reflect=np.take(x, n - 2, axis=ax) - xl)[mode]
        c.close(last, bd, "oracle-boundary", mode, rtol=1e-12, atol=1e-12)
    y = mk(c, A.adj_shape, np.float64)()
    d = A.T(y)
    inner = tuple(slice(1, None) if a in ax_list else slice(None) for a in range(len(shape)))
    if mode in ("edge", "symmetric"):  # the last difference is zero by definition
        y = y.copy()
        for ii, ax in enumerate(ax_list):
            np.moveaxis(y[ii], ax, 0)[-1] = 0
    want = sum(np.roll(y[ii], 1, axis=ax) - y[ii] for ii, ax in enumerate(ax_list))
    c.close(d[inner], want[inner], "oracle-T", "negative divergence", rtol=1e-11, atol=1e-12)
    # adjointness away from the boundary holds for every padding
    if all(s >= 4 for s in shape):
        sup = np.zeros(shape)
        sup[tuple(slice(1, -1) for _ in shape)] = 1
        monitor_adjoint(c, A, A.T, mk(c, shape, np.float64, sup), mk(c, A.adj_shape, np.float64, sup), 1e-9, "interior-adjoint")


@check.family("laplacian", 100, 2500, COMMON + ["oracle"])
def laplacian(c):
    rng = c.rng
    shape = shape_of(rng, lo=2)
    axes = None if rng.random() < 0.3 else subset_axes(rng, len(shape))
    mode = str(rng.choice(["edge", "constant", "wrap"]))
    dtype = rand_dtype(rng)
    c.describe(shape=shape, axes=axes, mode=mode, dtype=str(dtype))
    A = ops.TransformLaplacian(shape, axes=axes, pad_mode=mode)
    full(c, A, dtype)
    x = mk(c, shape, np.float64)()
    ax_list = list(range(len(shape))) if axes is None else [a % len(shape) for a in axes]
    want = np.zeros(shape)
    for ax in ax_list:
        p = np.pad(x, [(1, 1) if a == ax else (0, 0) for a in range(len(shape))], mode=mode)
        n = shape[ax]
        want += np.take(p, range(0, n), axis=ax) + np.take(p, range(2, n + 2), axis=ax) - 2 * x
    c.close(A(x), want, "oracle", "second difference", rtol=1e-11, atol=1e-11)


@check.family("fourier", 80, 2000, COMMON + ["oracle", "roundtrip", "parseval"])
def fourier(c):
    rng = c.rng
    shape = shape_of(rng)
    axes = None if rng.random() < 0.3 else subset_axes(rng, len(shape))
    dtype = rand_dtype(rng)
    c.describe(shape=shape, axes=axes, dtype=str(dtype))
    A = ops.TransformFourier(shape, axes=axes)
    full(c, A, dtype)
    x = mk(c, shape, np.float64)()
    F = A(x)
    axs = tuple(range(len(shape))) if axes is None else tuple(axes)
    want = np.fft.fftn(x, axes=axs) / np.sqrt(np.prod([shape[a] for a in axs]))
    c.close(F[0] + 1j * F[1], want, "oracle", rtol=1e-10, atol=1e-12)
    c.close(A.T(F), x, "roundtrip", rtol=1e-10, atol=1e-12)
    c.close(np.linalg.norm(F), np.linalg.norm(x), "parseval", rtol=1e-10)


@check.family("scaling", 60, 1500, COMMON + ["oracle", "absolute"])
def scaling(c):
    rng = c.rng
    shape = shape_of(rng)
    dtype = rand_dtype(rng)
    kind = str(rng.choice(["scalar", "full", "bcast", "identity"]))
    c.describe(shape=shape, kind=kind, dtype=str(dtype))
    scale = {"scalar": rng.uniform(-2, 2), "full": rng.standard_normal(shape), "bcast": rng.standard_normal(shape[-1:]), "identity": 1.0}[kind]
    A = ops.TransformIdentity(shape) if kind == "identity" else ops.TransformDiagonalScaling(shape, scale)
    x, _ = full(c, A, dtype)
    c.close(A(x), scale * x, "oracle", rtol=1e-6)
    c.close(A.absolute().explicit(), np.abs(A.explicit()), "absolute", rtol=1e-6, atol=1e-12)


@check.family("convolution", 160, 4000, COMMON + ["oracle", "absolute", "interior-adjoint"])
def convolution(c):
    rng = c.rng
    ndim = int(rng.integers(1, 4))
    shape = shape_of(rng, ndim, lo=3, hi=11 if ndim < 3 else 7)
    kshape = tuple(int(1 + 2 * rng.integers(0, (min(s, 5) + 1) // 2)) for s in shape)
    kernel = rng.standard_normal(kshape)
    if rng.random() < 0.4:
        kernel = np.abs(kernel)
    symm = bool(rng.random() < 0.5)
    if symm:
        kernel = (kernel + np.flip(kernel)) / 2
        flip = bool(rng.random() < 0.5)
    else:
        flip = True
    mode = str(rng.choice(["constant", "wrap", "edge"]))
    dtype = rand_dtype(rng)
    c.describe(shape=shape, kshape=kshape, symm=symm, flip=flip, mode=mode, dtype=str(dtype))
    A = ops.TransformConvolution(shape, kernel, pad_mode=mode, flip_adjoint=flip)
    exact = mode != "edge" or all(k == 1 for k in kshape)
    full(c, A, dtype, adj_exact=exact)
    # reference linear convolution on the padded data
    x = mk(c, shape, np.float64)()
    pw = [(k - 1) // 2 for k in kshape]
    xp = np.pad(x, [(p, p) for p in pw], mode=mode)
    want = np.zeros(shape)
    for pos in itertools.product(*[range(k) for k in kshape]):
        sl = tuple(slice(2 * p - o, 2 * p - o + s) for p, o, s in zip(pw, pos, shape))
        want += kernel[pos] * xp[sl]
    c.close(A(x), want, "oracle", "linear convolution", rtol=1e-9, atol=1e-10)
    mar = [max(2 * p, 0) for p in pw]
    if all(s > 2 * m for s, m in zip(shape, mar)):
        sup = np.zeros(shape)
        sup[tuple(slice(m, s - m) for m, s in zip(mar, shape))] = 1
        monitor_adjoint(c, A, A.T, mk(c, shape, np.float64, sup), mk(c, shape, np.float64, sup), 1e-9, "interior-adjoint")
    B = A.absolute()
    if mode == "constant" or np.all(kernel >= 0):
        c.close(B.explicit(), np.abs(A.explicit()), "absolute", rtol=1e-5, atol=1e-6)
        c.close(B.T.explicit(), np.abs(A.T.explicit()), "absolute-T", rtol=1e-5, atol=1e-6)


ORTH = ["haar", "db1", "db2", "db3", "db4", "sym2", "sym4", "coif1"]
BIOR = ["bior1.3", "bior2.2", "rbio1.3", "bior4.4"]


@check.family("stationary-wavelet", 120, 2500, ["integers", "linear", "adjoint", "reconstruct", "oracle", "pure-input", "energy"])
def swt(c):
    rng = c.rng
    ndim = int(rng.integers(1, 4))
    level = int(rng.integers(1, 4 if ndim < 3 else 3))
    axes = None if rng.random() < 0.3 else subset_axes(rng, ndim)
    ax_list = [a % ndim for a in (range(ndim) if axes is None else axes)]
    aligned = bool(rng.random() < 0.5)
    hi = {1: 40, 2: 20, 3: 9}[ndim]
    shape = list(shape_of(rng, ndim, lo=2, hi=hi))
    for a in ax_list:
        if aligned:
            shape[a] = int(2**level * rng.integers(1, max(2, hi // 2**level + 1)))
    wl = str(rng.choice(ORTH + BIOR))
    norm = bool(rng.random() < 0.7)
    pad = str(rng.choice(["edge", "constant", "reflect", "symmetric", "wrap"]))
    if aligned and rng.random() < 0.3:
        pad = None
    dtype = rand_dtype(rng)
    if norm and wl in BIOR:
        norm = False  # pywt: normalisation is only meaningful for orthogonal wavelets
    c.describe(shape=shape, axes=axes, wavelet=wl, level=level, norm=norm, pad=pad, dtype=str(dtype), aligned=aligned)
    A = ops.TransformStationaryWavelet(shape, wl, level, axes=axes, pad_on_demand=pad, normalized=norm)
    sx, sy = tuple(shape), tuple(int(s) for s in A.adj_shape)
    tol = 1e-4 if dtype == np.float32 else 1e-8
    mx, my = mk(c, sx, dtype), mk(c, sy, dtype)
    x = mx()
    monitor_linear(c, A, mx, tol)
    monitor_linear(c, A.T, my, tol, "linear-T")
    w = monitor_pure(c, A, x)
    monitor_pure(c, A.T, my(), "pure-T")
    monitor_integers(c, A, sx)
    monitor_integers(c, A.T, sy)
    c.expect(w.shape == sy, "shape", f"{w.shape} {sy}")
    c.close(A.T(w), x, "reconstruct", "inverse of the forward transform", rtol=tol)
    c.close(A.T.T(x), w, "view-T-T", rtol=1e-6)
    if all(shape[a] % 2**level == 0 for a in ax_list):
        ref = pywt.swtn(x, wl, level, axes=ax_list, norm=norm, trim_approx=True)
        lab = [k for k in sorted(ref[1])]
        flat = [ref[0]] + [lv[k] for lv in ref[1:] for k in lab]
        c.close(w, np.array(flat), "oracle", "sub-band layout", rtol=tol)
        if norm and wl in ORTH:
            monitor_adjoint(c, A, A.T, mx, my, tol)
            c.close(np.linalg.norm(w.astype(float)), np.linalg.norm(x.astype(float)), "energy", rtol=tol)
    if np.prod(sx) * np.prod(sy) < 60000:
        views_T = A.T.explicit() @ w.ravel().astype(float)
        c.close(views_T, x.ravel(), "explicit-reconstruct", rtol=1e-3)


@check.family("decimated-wavelet", 100, 2000, ["integers", "linear", "adjoint", "reconstruct", "default-args"])
def dwt(c):
    rng = c.rng
    ndim = int(rng.integers(1, 4))
    wl = str(rng.choice(ORTH + BIOR))
    level = int(rng.integers(1, 3))
    shape = shape_of(rng, ndim, lo=max(4, 2**level * (pywt.Wavelet(wl).dec_len - 1)) if ndim == 1 else 4, hi=60 if ndim == 1 else {2: 24, 3: 10}[ndim])
    axes = None if rng.random() < 0.3 else subset_axes(rng, ndim)
    ax_list = [a % ndim for a in (range(ndim) if axes is None else axes)]
    mode = str(rng.choice(["periodization", "symmetric", "zero", "constant", "reflect", "periodic"]))
    dtype = rand_dtype(rng)
    c.describe(shape=shape, axes=axes, wavelet=wl, level=level, mode=mode, dtype=str(dtype))
    A = ops.TransformDecimatedWavelet(shape, wl, level, axes=axes, pad_on_demand=mode)
    sx, sy = tuple(shape), tuple(int(s) for s in A.adj_shape)
    tol = 1e-4 if dtype == np.float32 else 1e-8
    mx, my = mk(c, sx, dtype), mk(c, sy, dtype)
    # the adjoint may be used before any direct application
    y = my()
    z1 = np.array(A.T(y))
    x = mx()
    w = monitor_pure(c, A, x)
    c.expect(w.shape == sy, "shape", f"{w.shape} {sy}")
    c.close(A.T(w), x, "reconstruct", "inverse of the forward transform", rtol=tol)
    monitor_integers(c, A, sx)
    monitor_integers(c, A.T, sy)
    c.close(A.T(y), z1, "adjoint-stateless", "adjoint changed after a direct application", rtol=1e-6, atol=1e-9)
    monitor_linear(c, A, mx, tol)
    monitor_linear(c, A.T, my, tol, "linear-T")
    if mode == "periodization" and wl in ORTH and all(shape[a] % 2**level == 0 for a in ax_list):
        monitor_adjoint(c, A, A.T, mx, my, tol)
        c.close(np.linalg.norm(w.astype(float)), np.linalg.norm(x.astype(float)), "energy", rtol=tol)
    B = ops.TransformDecimatedWavelet(shape, wl, level, axes=axes)
    c.close(B.T(B(x)), x, "default-args", "reconstruction with default padding", rtol=tol)


@check.family("svd", 60, 1500, ["reconstruct", "singular-values"])
def svd(c):
    rng = c.rng
    ndim = int(rng.integers(2, 5))
    shape = shape_of(rng, ndim, lo=1, hi=7)
    perm = rng.permutation(ndim)
    nr = int(rng.integers(1, ndim))
    ncl = int(rng.integers(1, ndim - nr + 1))
    rows, cols = [int(a) for a in perm[:nr]], [int(a) for a in perm[nr : nr + ncl]]
    if rng.random() < 0.5:
        cols = [a - ndim for a in cols]
    rescale = bool(rng.random() < 0.5)
    c.describe(shape=shape, rows=rows, cols=cols, rescale=rescale)
    A = ops.TransformSVD(shape, axes_rows=rows, axes_cols=cols, rescale=rescale)
    x = rng.standard_normal(shape)
    x0 = x.copy()
    s = A(x)
    c.expect(np.array_equal(x, x0), "pure-input")
    c.expect(s.shape == tuple(A.adj_shape), "shape", f"{s.shape} {A.adj_shape}")
    c.close(A.T.T(x), s, "view-T-T", rtol=1e-9, atol=1e-12)
    c.close(A._op_adjoint(s) if False else adj_svd(A, s), x, "reconstruct", rtol=1e-9, atol=1e-11)
    inv = [a for a in range(ndim) if a not in rows and a % ndim not in [q % ndim for q in cols]]
    m = np.transpose(x, inv + rows + [q % ndim for q in cols]).reshape([shape[i] for i in inv] + [int(np.prod([shape[i] for i in rows])), int(np.prod([shape[i % ndim] for i in cols]))])
    ref = np.linalg.svd(m, compute_uv=False)
    if rescale:
        ref = ref / np.sqrt(m.shape[-1] * m.shape[-2])
    c.close(s, ref, "singular-values", rtol=1e-9, atol=1e-11)


def adj_svd(A, s):
    # the decomposition basis of the last direct application is stored in the operator; its transpose view uses it
    return A.T(s)


@check.family("functions", 30, 600, COMMON)
def functions(c):
    rng = c.rng
    sx, sy = shape_of(rng, hi=6), shape_of(rng, hi=6)
    M = rng.standard_normal((int(np.prod(sy)), int(np.prod(sx))))
    symm = bool(rng.random() < 0.3)
    if symm:
        sy = sx
        M = rng.standard_normal((int(np.prod(sx)),) * 2)
        M = M + M.T
    c.describe(sx=sx, sy=sy, symm=symm)
    At = None if symm else (lambda y: (M.T @ y.ravel()).reshape(sx))
    A = ops.TransformFunctions(sx, sy, lambda x: (M @ x.ravel()).reshape(sy), At)
    full(c, A, np.float64)


if __name__ == "__main__":
    raise SystemExit(check.main())
