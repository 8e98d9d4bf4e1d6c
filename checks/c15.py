"""C15 - FBP filters: the filtered data are the linear convolution with the documented kernel, for any size, padding, FFT and filter type."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from corrct import filters as F
from corrct import solvers as S
from corrct.projectors import ProjectorMatrix, ProjectorUncorrected
from rtm.core import Check

check = Check(
    "C15",
    "Random data shapes (2-4 dims, odd/even/tiny), filters, padding modes, real/complex FFT, float types, custom and multiple filters, filter bases, and data-driven filters on random "
    "matrices; oracles: direct (non-FFT) convolution with the analytic band-limited ramp kernel and windows, explicit least squares, explicit back-projection matrices. "
    "Non-trivial when the filtered data are not zero.",
    scale=(9, 1),
)


def pad_size(n):
    return max(64, int(2 ** np.ceil(np.log2(2 * n))))


def window(name, size):
    """Frequency response of the documented windows (ramp: 1), in FFT order."""
    f = np.fft.fftfreq(size)
    w = np.ones(size)
    if name == "shepp-logan":
        w = np.sinc(f)
    elif name == "cosine":
        w = np.cos(np.pi * f)
    elif name == "hamming":
        w = np.fft.ifftshift(np.hamming(size))
    elif name == "hann":
        w = np.fft.ifftshift(np.hanning(size))
    return w


def ramp_kernel(size):
    """Band-limited ramp: h[0] = 1/4, h[odd] = -1/(pi n)^2, h[even] = 0, circular of the given size, doubled."""
    k = np.fft.fftfreq(size, 1 / size)
    h = np.zeros(size)
    odd = np.mod(k, 2) == 1
    h[odd] = -1 / (np.pi * k[odd]) ** 2
    h[0] = 0.25
    return 2 * h


def kernel(name, size, rfft=True):
    """Real-space kernel (circular, FFT order), through an explicit cosine sum instead of an FFT.

    The hamming and hann windows (of numpy and scikit-image) are not exactly symmetric in FFT order: the real FFT only sees the positive frequencies.
    """
    h = ramp_kernel(size)
    if name == "ramp":
        return h
    k = np.arange(size)
    C = np.cos(2 * np.pi * np.outer(k, k) / size)
    H = (C @ h) * window(name, size)
    if rfft:
        H[size // 2 + 1 :] = H[1 : size // 2][::-1]
    return C @ H / size


def circ_filter(data, h, mode):
    """Explicit circular convolution of the padded rows with h."""
    n, N = data.shape[-1], len(h)
    pl, pr = int(np.ceil((N - n) / 2)), int(np.floor((N - n) / 2))
    rows = np.pad(data.reshape(-1, n).astype(float), ((0, 0), (pl, pr)), mode=mode)
    T = h[(np.arange(N)[:, None] - np.arange(N)[None]) % N]
    return (rows @ T.T)[:, pl : pl + n].reshape(data.shape)


def lin_filter(data, h):
    """Direct linear convolution (zeros outside)."""
    n = data.shape[-1]
    T = h[(np.arange(n)[:, None] - np.arange(n)[None]) % len(h)]
    return data.astype(float) @ T.T


def some_data(c, nd=None):
    rng = c.rng
    nd = nd or int(rng.choice([2, 2, 2, 3, 4]))
    n = int(rng.choice([1, 2, 3, 5, 8, 13, 16, 31, 32, 33, 40, 64, 65])) if rng.random() < 0.9 else int(rng.integers(66, 200))
    shape = (*[int(v) for v in rng.integers(1, 4, nd - 2)], int(rng.integers(1, 9)), n)
    dtype = rng.choice([np.float32, np.float64])
    d = rng.standard_normal(shape)
    if rng.random() < 0.15:
        d = np.round(d * 5).astype(rng.choice([np.int32, np.int16]))
    else:
        d = d.astype(dtype)
    c.describe(shape=shape, dtype=d.dtype.name)
    return d


@check.family("analytic", 400, 10000, ["convolution", "rfft", "inputs", "history", "shape"])
def analytic(c):
    """The FBP filters against direct convolutions."""
    rng = c.rng
    d = some_data(c)
    name = str(rng.choice(F.FilterFBP.FILTERS))
    mode = str(rng.choice(["constant", "constant", "edge", "reflect", "wrap", "Edge"])) if d.shape[-1] > 2 else "constant"
    rf = bool(rng.random() < 0.5)
    c.describe(filter=name, pad=mode, rfft=rf)
    f = F.FilterFBP(name if rng.random() < 0.8 else name.upper(), pad_mode=mode, use_rfft=rf)
    if rng.random() < 0.5:  # history: other data first
        f(some_data(c))
        c.describe(history=True)
    d0 = d.copy()
    out = f(d)
    c.same(d, d0, "inputs")
    h = kernel(name, pad_size(d.shape[-1]), rf) * np.pi / (2 * d.shape[-2])
    sc = float(np.abs(d).max()) * np.abs(h).sum() + 1e-30
    want = lin_filter(d, h) if mode == "constant" else circ_filter(d, h, mode.lower())
    c.expect(out.shape == d.shape, "shape", f"{out.shape}")
    c.close(out, want, "convolution", f"{name}/{mode}", rtol=3e-6 if d.dtype == np.float32 else 1e-9, scale=sc)
    out2 = f(d)
    c.same(np.asarray(out2), np.asarray(out), "history", "second application")
    g = F.FilterFBP(name, pad_mode=mode, use_rfft=not rf)
    rt = 0.1 if name in ("hamming", "hann") else 3e-6 if d.dtype == np.float32 else 1e-9
    c.close(g(d), out, "rfft", "real and complex FFT differ", rtol=rt, scale=sc)
    c.same(np.asarray(F.FilterFBP(name, pad_mode=mode, use_rfft=rf)(d)), np.asarray(out), "history", "fresh filter")
    c.trivial = not np.any(want)


@check.family("linear", 200, 4000, ["superposition", "rows-independent", "angles-normalized"])
def linear(c):
    rng = c.rng
    d = some_data(c).astype(np.float64)
    e = rng.standard_normal(d.shape)
    name = str(rng.choice(F.FilterFBP.FILTERS))
    mode = str(rng.choice(["constant", "edge"]))
    c.describe(filter=name, pad=mode)
    f = F.FilterFBP(name, pad_mode=mode)
    a = float(rng.uniform(-3, 3))
    sc = np.abs(d).max() + 1e-9
    c.close(f(d + a * e), f(d) + a * f(e), "superposition", rtol=1e-9, scale=10 * sc + 10)
    z = d.copy()
    keep = rng.random(d.shape[:-1]) < 0.5
    z[~keep] = 0
    out = np.where(keep[..., None], f(d), 0)
    c.close(f(z), out, "rows-independent", "rows mix", rtol=1e-10, scale=sc)
    rep = np.concatenate([d, d], axis=-2)
    c.close(f(rep) * 2, np.concatenate([f(d), f(d)], axis=-2), "angles-normalized", rtol=1e-9, scale=sc)


@check.family("custom", 250, 6000, ["identity", "convolution", "multi", "real-space", "inputs", "fourier"])
def custom(c):
    """Custom filters, in Fourier and real space, one or many."""
    rng = c.rng
    d = some_data(c)
    n, N = d.shape[-1], pad_size(d.shape[-1])
    rf = bool(rng.random() < 0.6)
    dtype = np.float64 if d.dtype != np.float32 else np.float32
    tol = dict(rtol=3e-5 if dtype == np.float32 else 1e-9, scale=float(np.abs(d).max()) * 10 + 1e-9)
    c.describe(rfft=rf)
    mode = str(rng.choice(["constant", "edge"]))
    c.close(F.FilterCustom(None, pad_mode=mode, use_rfft=rf)(d), d, "identity", rtol=1e-6, scale=float(np.abs(d).max()) + 1e-9)
    # a symmetric kernel of limited support
    K = int(rng.integers(0, 6))
    half = rng.standard_normal(K + 1)
    hs = np.zeros(N)
    for k in range(K + 1):
        hs[k] = hs[-k if k else 0] = half[k]
    H = np.fft.rfft(hs) if rf else np.fft.fft(hs)
    H0 = H.copy()
    f = F.FilterCustom(H, pad_mode=mode, use_rfft=rf, dtype=dtype)
    out = f(d)
    c.same(H, H0, "inputs")
    c.close(out, lin_filter(d, hs) if mode == "constant" else circ_filter(d, hs, mode), "convolution", rtol=tol["rtol"], scale=tol["scale"] * 5)
    c.close(f.filter_real, np.fft.fftshift(hs), "real-space", "real-space representation is not the kernel", rtol=0, atol=1e-5 if dtype == np.float32 else 1e-10)
    c.close(f.filter_fourier, H.real, "fourier", rtol=0, atol=1e-4 if dtype == np.float32 else 1e-10)
    q = f.filter_fourier
    q *= 0
    c.close(f(d), out, "inputs", "the filter was changed through its copy", rtol=1e-9, scale=tol["scale"])
    # setting the representation that was read changes nothing
    g = F.FilterCustom(None, pad_mode=mode, use_rfft=rf, dtype=dtype)
    g.filter_real = f.filter_real
    c.close(g(d), out, "real-space", "setting the real-space filter", rtol=tol["rtol"], scale=tol["scale"] * 5)
    g2 = F.FilterCustom(None, pad_mode=mode, use_rfft=rf, dtype=dtype)
    g2.filter_fourier = f.filter_fourier
    c.close(g2(d), out, "fourier", "setting the Fourier filter", rtol=tol["rtol"], scale=tol["scale"] * 5)
    m = int(rng.integers(2, 5))
    Hs = np.stack([H.real * a for a in rng.uniform(-2, 2, m)])
    fm = F.FilterCustom(Hs, pad_mode=mode, use_rfft=rf, dtype=dtype)
    c.expect(fm.num_filters == m and f.num_filters == 1, "multi", "number of filters")
    o = fm(d)
    c.expect(o.shape == (m, *d.shape), "multi", f"shape {o.shape}")
    for i in range(m):
        c.close(o[i], F.FilterCustom(Hs[i], pad_mode=mode, use_rfft=rf, dtype=dtype)(d), "multi", "filter of the stack", rtol=tol["rtol"], scale=tol["scale"])
    c.close(f.apply_filter(d, Hs[1]), o[1], "multi", "explicit filter", rtol=tol["rtol"], scale=tol["scale"])
    if c.idx % 40 == 0:
        fm.plot_filters()
        f.plot_filters(fourier_abs=True)
        plt.close("all")


@check.family("basis", 250, 5000, ["symmetric", "orthogonal", "disjoint", "normalized", "type", "growth", "covers"])
def basis(c):
    """Bases of the data-driven filters."""
    rng = c.rng
    n = int(rng.choice([8, 16, 17, 31, 32, 64, 128, 101]))
    start = None if rng.random() < 0.2 else int(rng.integers(0, 7))
    typ = str(rng.choice(["exponential", "incremental", "custom"]))
    order = int(rng.integers(0, 2))
    norm = bool(rng.random() < 0.5)
    dtype = rng.choice([np.float32, np.float64])
    c.describe(n=n, start=start, typ=typ, order=order, norm=norm, dtype=np.dtype(dtype).name)
    B = F.create_basis(n, start, typ, norm, order, dtype)
    pos = np.abs(np.fft.fftfreq(n, 1 / n))
    c.expect(B.ndim == 2 and B.shape[1] == n and B.dtype == dtype, "type", f"{B.shape} {B.dtype}")
    # expected windows
    w, p, wins = 1, 0, []
    while p < pos.max():
        wins.append((p, w))
        p += w
        if start is not None and p > start:
            w = 2 * w if typ == "exponential" else w + 1 if typ == "incremental" else w + int(np.sqrt(p - start))
    c.expect(len(B) == len(wins), "growth", f"{len(B)} functions instead of {len(wins)}")
    same = np.stack([B[:, np.isclose(pos, q)].astype(float).ptp(1) if hasattr(B, "ptp") else np.ptp(B[:, np.isclose(pos, q)].astype(float), 1) for q in np.unique(pos)], 1)
    c.expect(np.abs(same).max() <= 1e-5 * max(1, np.abs(B).max()), "symmetric", "basis functions are not symmetric")
    if order == 0:
        for (p, w), row in zip(wins, B):
            c.close(row, ((pos >= p) & (pos < p + w)) * (1 / w if norm else 1.0), "disjoint", "indicator of the window", rtol=1e-6)
        inside = pos < wins[-1][0] + wins[-1][1]
        c.expect(np.all((B > 0).sum(0)[inside] == 1), "covers", "windows do not partition the positions")
        for mon in ("orthogonal", "normalized"):
            c.monitors[mon] += 0
    else:
        G = B.astype(float) @ B.T.astype(float)
        dg = np.sqrt(np.diag(G))
        c.expect(np.all(dg > 0), "orthogonal", "null basis function")
        off = np.abs(G / np.outer(dg, dg) - np.eye(len(B))).max()
        c.expect(off < (5e-3 if dtype == np.float32 else 1e-7), "orthogonal", f"basis functions overlap: {off}")
        if norm:
            c.close(np.abs(B.astype(float)).sum(1), np.ones(len(B)), "normalized", rtol=1e-4)
        # spans the triangular functions
        tri = np.stack([np.fmax(1 - pos / (p + w), 0) for p, w in wins])
        r = tri - (tri @ B.T.astype(float) / dg**2) @ B.astype(float)
        c.expect(np.abs(r).max() < (2e-2 if dtype == np.float32 else 1e-6), "covers", f"basis does not span the triangular functions: {np.abs(r).max()}")
    c.monitors["orthogonal"] += 0
    o = [F.BasisOptionsBlocks(), F.BasisOptionsWavelets()][int(rng.integers(2))]
    c.expect(len(o) == len(list(o)) and all(o[k] == getattr(o, k) for k in o), "type", "options")
    F.create_basis(**{"num_pixels": 32, **F.BasisOptionsBlocks()})


@check.family("wavelet-basis", 60, 600, ["normalized", "levels", "support"])
def wavelet_basis(c):
    rng = c.rng
    import pywt

    n = int(rng.choice([64, 65, 100, 128]))
    wv = str(rng.choice(["bior2.2", "haar", "db2", "sym4", "bior4.4"]))
    lvl = int(rng.integers(1, 6))
    norm = float(rng.choice([1.0, 2.0]))
    c.describe(n=n, wavelet=wv, level=lvl, norm=norm)
    B = F.create_basis_wavelet(n, wv, lvl, norm, np.float64)
    c.expect(B.shape == (lvl + 1, n), "levels", f"{B.shape}")
    c.close(np.linalg.norm(B, ord=norm, axis=1), np.ones(lvl + 1), "normalized", rtol=1e-9)
    hi = np.trim_zeros(pywt.Wavelet(wv).dec_hi)
    got = np.fft.fftshift(B[0])
    nz = np.nonzero(np.abs(got) > 1e-12)[0]
    c.close(np.abs(got[nz[0] : nz[-1] + 1]), np.abs(hi / np.linalg.norm(hi, ord=norm)), "support", "first function is not the wavelet filter", rtol=1e-9)
    c.expect(abs(nz.mean() - n // 2) <= len(hi) / 2 + 1, "support", "first function is not centered")
    if wv == "haar" or wv.startswith("bior"):
        c.expect(abs(B[0].sum()) < 1e-9, "support", "the first function is not a high-pass")


@check.family("fbp-solver", 150, 2000, ["composition", "linear", "info", "filter-objects"])
def fbp_solver(c):
    """FBP is the back-projection of the filtered data."""
    rng = c.rng
    na, n = int(rng.integers(2, 8)), int(rng.integers(3, 14))
    vs = (n, n)
    M = rng.standard_normal((na * n, n * n)) * (rng.random((na * n, n * n)) < 0.3)
    A = ProjectorMatrix(M, vs, (na, n))
    b = rng.standard_normal((na, n))
    name = str(rng.choice(F.FilterFBP.FILTERS))
    mode = str(rng.choice(["constant", "edge"]))
    c.describe(n=n, angles=na, filter=name, pad=mode)
    b0 = b.copy()
    x, info = S.FBP(fbp_filter=name if rng.random() < 0.7 else name.upper(), pad_mode=mode)(A, b)
    c.same(b, b0, "composition", "data modified")
    h = kernel(name, pad_size(n)) * np.pi / (2 * na)
    want = (M.T @ circ_filter(b, h, mode).ravel()).reshape(vs)
    sc = np.abs(M).sum(0).max() * np.abs(b).max()
    c.close(x, want, "composition", rtol=1e-8, scale=sc)
    b2 = rng.standard_normal(b.shape)
    f = S.FBP(fbp_filter=name, pad_mode=mode)
    c.close(f(A, b + 2 * b2)[0], x + 2 * f(A, b2)[0], "linear", rtol=1e-8, scale=5 * sc)
    N = pad_size(n)
    H = np.fft.rfft(kernel(name, N)).real * np.pi / (2 * na)
    for k, flt in dict(array=H, custom=F.FilterCustom(H, dtype=np.float64), fbp=F.FilterFBP(name)).items():
        s = S.FBP(fbp_filter=flt, pad_mode=mode)
        c.close(s(A, b)[0], want, "filter-objects", k, rtol=1e-5, scale=sc)
        c.expect(s.info().startswith("FBP(F:"), "info", s.info())
    c.expect(info.method == f.info() == f"FBP(F:{name.upper()})", "info", info.method)
    for bad in (lambda: S.FBP(fbp_filter="box")(A, b), lambda: f(A, b.ravel()), lambda: F.FilterMR(A, binning_type="none")):
        try:
            bad()
            c.violate("filter-objects", "accepted")
        except ValueError:
            c.expect(True, "filter-objects")


@check.family("quantitative", 8, 80, ["values", "background"])
def quantitative(c):
    """FBP of analytic disc sinograms recovers the densities of the discs."""
    rng = c.rng
    n, na = int(rng.choice([48, 64, 65])), int(rng.integers(90, 150))
    ang = np.linspace(0, np.pi, na, endpoint=False)
    cc = (n - 1) / 2 if n % 2 else n / 2
    X = np.arange(n) - n // 2
    val = float(np.round(rng.uniform(0.2, 5), 2))
    R = float(rng.uniform(0.25, 0.4) * n)
    name = str(rng.choice(["ramp", "shepp-logan", "cosine", "hann"]))
    c.describe(n=n, na=na, radius=R, value=val, filter=name)
    yy, xx = np.meshgrid(X, X, indexing="ij")
    ph = np.clip(R - np.hypot(yy, xx) + 0.5, 0, 1) * val
    with ProjectorUncorrected((n, n), ang) as p:
        sino = 2 * val * np.sqrt(np.fmax(R**2 - X**2, 0))[None].repeat(na, 0).astype(np.float32)
        x, _ = S.FBP(fbp_filter=name)(p, sino)
    core = np.hypot(yy, xx) < 0.7 * R
    c.close(x[core].mean(), val, "values", "mean density of the disc", rtol=0.03)
    c.close(x[core], np.full(core.sum(), val), "values", "density of the disc", rtol=0.12)
    far = (np.hypot(yy, xx) > R + 4) & (np.hypot(yy, xx) < n / 2 - 2)
    c.expect(not far.any() or abs(x[far].mean()) < 0.05 * val, "background", f"background {x[far].mean() / val}")


@check.family("data-driven", 60, 900, ["optimal", "in-span", "better", "smooth", "reuse"])
def data_driven(c):
    """The data-driven filter minimizes the data misfit of the reconstruction over the span of the basis."""
    rng = c.rng
    na, n = int(rng.integers(3, 9)), int(rng.integers(6, 13))
    vs = (n, n)
    M = np.abs(rng.standard_normal((na * n, n * n))) * (rng.random((na * n, n * n)) < 0.2)
    A = ProjectorMatrix(M, vs, (na, n))
    typ = str(rng.choice(["exponential", "incremental"]))
    start = int(rng.integers(1, 5))
    lam = None if rng.random() < 0.6 else float(10 ** rng.uniform(-2, 1))
    rf = bool(rng.random() < 0.6)
    c.describe(n=n, angles=na, typ=typ, start=start, smooth=lam, rfft=rf)
    b = (M @ np.abs(rng.standard_normal(n * n))).reshape(na, n)
    flt = F.FilterMR(A, binning_type=typ, binning_start=start, lambda_smooth=lam, use_rfft=rf, dtype=np.float64)
    if rng.random() < 0.4:
        flt(rng.standard_normal(b.shape))  # history
    b0 = b.copy()
    bf = flt(b)
    c.same(b, b0, "reuse", "data modified")
    N = pad_size(n)
    basis_r = F.create_basis(N, binning_type=typ, binning_start=start, dtype=np.float64)
    r = (n - 1) / 2
    from corrct.processing import circular_mask

    mask = circular_mask(vs)
    cols, imgs, feats = [], [], []
    for h in basis_r:
        fb = lin_filter(b, h)
        img = (M.T @ fb.ravel()).reshape(vs) * mask
        col = M @ img.ravel()
        g = np.concatenate([np.diff(img, axis=0).ravel(), np.diff(img, axis=1).ravel()]) * (lam or 0)
        cols.append(np.concatenate([col, g]))
        feats.append(fb)
    K = np.stack(cols, 1)
    y = np.concatenate([b.ravel(), np.zeros(K.shape[0] - b.size)])
    best = np.linalg.lstsq(K, y, rcond=None)[0]
    co = np.linalg.lstsq(np.stack([f.ravel() for f in feats], 1), bf.ravel(), rcond=None)[0]
    span = np.tensordot(co, np.stack(feats), 1)
    c.close(bf, span, "in-span", "filtered data are not in the span of the basis", rtol=1e-5, scale=np.abs(bf).max() + 1e-12)
    obj = lambda f: np.sum((M @ ((M.T @ f.ravel()).reshape(vs) * mask).ravel() - b.ravel()) ** 2) + (lam or 0) ** 2 * sum(
        np.sum(np.diff((M.T @ f.ravel()).reshape(vs) * mask, axis=a) ** 2) for a in (0, 1)
    )
    got, opt = obj(bf), np.sum((K @ best - y) ** 2)
    c.expect(got <= opt + 1e-5 * np.sum(y**2), "optimal", f"misfit {got} above the optimum {opt}")
    c.expect(got <= min(obj(f * (np.vdot(K[:, i], y) / max(np.vdot(K[:, i], K[:, i]), 1e-300))) for i, f in enumerate(feats)) + 1e-6 * np.sum(y**2), "better", "worse than a single basis function")
    c.monitors["smooth"] += int(lam is not None)
    c.close(flt(b), bf, "reuse", "second use", rtol=1e-8, scale=np.abs(bf).max())
    if lam is None:
        x, i = S.FBP(fbp_filter="mr" if rng.random() < 0.5 else "data")(A, b)
        d = F.FilterMR(A)
        c.close(x, A.T(d(b)), "reuse", "solver with the data-driven filter", rtol=1e-6, scale=np.abs(x).max())


if __name__ == "__main__":
    raise SystemExit(check.main())
