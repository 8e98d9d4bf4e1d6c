"""C16 - structured illumination masks: collections, generators, shifts, MURA identities, QR decomposition, binning."""
import matplotlib

matplotlib.use("Agg")
import numpy as np

from corrct import struct_illum as si
from corrct.processing import misc as pm
from rtm.core import Check

check = Check(
    "C16",
    "Random mask collections (1D/2D masks, any number of stack dimensions, encoding-decoding or not), every mask generator over random fields of view and resolutions, shift types and "
    "fractions, all MURA sizes in range, QR decompositions and reorderings of random masks, buckets and shifts. Non-trivial when at least two masks are involved.",
    scale=(60, 1),
)


def primes(n):
    return [p for p in range(2, n + 1) if all(p % d for d in range(2, int(p**0.5) + 1))]


def fails(fun, exc=(ValueError, TypeError, IndexError)):
    try:
        fun()
    except exc:
        return True
    return False


@check.family("collection", 60, 1200, ["shapes", "lookup", "refused", "untouched"])
def collection(c):
    rng = c.rng
    dims = int(rng.integers(1, 3))
    fov = tuple(int(x) for x in rng.integers(1, 7, dims))
    stack = tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(1, 4))))
    enc = rng.uniform(-1, 1, stack + fov)
    dec = rng.uniform(-1, 1, stack + fov) if rng.random() < 0.5 else None
    sup = None if rng.random() < 0.5 else [int(x) for x in rng.integers(1, 5, dims)]
    enc0, dec0 = enc.copy(), None if dec is None else dec.copy()
    c.describe(dims=dims, fov=fov, stack=stack, dec=dec is not None)
    c.trivial = int(np.prod(stack)) < 2
    name = str(rng.choice(["measured", "MuRa", "Bernoulli"]))
    mc = si.MaskCollection(enc, dec, mask_dims=dims, mask_support=sup, mask_type=name)
    c.expect(tuple(mc.shape_fov) == fov and tuple(mc.shape_shifts) == stack, "shapes", f"{mc.shape_fov} {mc.shape_shifts} vs {fov} {stack}")
    c.expect(mc.num_buckets == int(np.prod(stack)) and mc.num_pixels == int(np.prod(fov)), "shapes", "num_buckets/num_pixels")
    c.expect(isinstance(mc.num_buckets, int) and isinstance(mc.num_pixels, int), "shapes", "counts are not ints")
    c.expect(list(mc.mask_support) == (list(fov) if sup is None else sup), "shapes", f"support {mc.mask_support}")
    c.expect((mc.info(), mc.upper(), mc.lower()) == (name, name.upper(), name.lower()), "shapes", "names")
    for _ in range(4):
        i = [int(rng.integers(0, s)) for s in stack]
        arg = [i, tuple(i), np.array(i)][int(rng.integers(3))]
        c.same(mc.get_mask(arg), enc0[tuple(i)], "lookup", f"encoding mask {i}")
        c.same(mc.get_mask(arg, mask_encoding=False), (enc0 if dec is None else dec0)[tuple(i)], "lookup", f"decoding mask {i}")
    c.expect(fails(lambda: si.MaskCollection(np.zeros(fov), mask_dims=dims), ValueError), "refused", "a single mask without stack dimension was accepted")
    bad = np.zeros(stack[:-1] + (stack[-1] + 1,) + fov)
    c.expect(fails(lambda: si.MaskCollection(enc, bad, mask_dims=dims), ValueError), "refused", "decoding masks with a different number of masks were accepted")
    bad = np.zeros(stack + fov[:-1] + (fov[-1] + 1,))
    c.expect(fails(lambda: si.MaskCollection(enc, bad, mask_dims=dims), ValueError), "refused", "decoding masks with a different shape were accepted")
    c.expect(fails(lambda: si.MaskCollection(enc, np.zeros(fov), mask_dims=dims), ValueError), "refused", "decoding mask without stack dimension was accepted")
    c.same(enc, enc0, "untouched", "encoding masks")
    if dec is not None:
        c.same(dec, dec0, "untouched", "decoding masks")


def make_gen(c, kinds=("point", "bernoulli", "gaussian", "mura"), hi=9):
    rng = c.rng
    kind = str(rng.choice(kinds))
    res = float(rng.choice([1.0, 0.5, 2.0, 0.75]))
    if kind == "mura":
        fov = float(rng.choice([4.0, 5.0, 12.5, 7.0])) * res
        g = si.MaskGeneratorMURA(fov, res)
        n = int(g.shape_fov[0])
        pts = (n, n)
        c.expect(n % 4 == 1 and n >= fov / res - 1e-9 and n < fov / res + 4 + 1e-9, "size", f"MURA size {n} for {fov / res}")
        sizes = (fov, fov)
    else:
        sc = rng.random() < 0.3
        sizes = [float(np.round(rng.uniform(1, hi) * res, 2)) for _ in range(2)]
        if sc:
            sizes = [sizes[0]] * 2
        arg = sizes[0] if sc else [sizes, tuple(sizes), np.array(sizes)][int(rng.integers(3))]
        cls = dict(point=si.MaskGeneratorPoint, bernoulli=si.MaskGeneratorBernoulli, gaussian=si.MaskGeneratorHalfGaussian)[kind]
        g = cls(arg, res)
        pts = tuple(int(np.ceil(s / res)) for s in sizes)
        c.expect(tuple(g.shape_fov) == pts, "size", f"{kind}: FoV {tuple(g.shape_fov)} for {sizes} at {res}")
    c.describe(kind=kind, fov=sizes, res=res, pts=pts)
    c.close(g.feature_size_mm, np.array(sizes) / np.array(pts), "size", "feature size", rtol=1e-12)
    c.expect(g.num_pixels == int(np.prod(pts)), "size", "num_pixels")
    ms = pts if kind in ("point", "mura") else tuple(int(np.ceil(p * 1.2)) for p in pts)
    c.expect(tuple(g.shape_shifts) == ms and g.max_buckets == int(np.prod(ms)), "size", f"shifts {g.shape_shifts} {g.max_buckets}")
    return kind, g, pts, ms


@check.family("shifts", 60, 1200, ["size", "interval", "random", "sequential", "axes"])
def shifts(c):
    rng = c.rng
    kind, g, pts, ms = make_gen(c)
    every = {(v, u) for v in range(ms[0]) for u in range(ms[1])}
    iv = [int(rng.integers(1, 4)), tuple(int(x) for x in rng.integers(1, 4, 2))][int(rng.integers(2))]
    i2 = (iv, iv) if isinstance(iv, int) else iv
    v, u = g.get_interval_shifts(iv)
    want = [(a, b) for a in range(0, ms[0], i2[0]) for b in range(0, ms[1], i2[1])]
    c.expect(list(zip(v.tolist(), u.tolist())) == want, "interval", f"interval {iv}")
    u, v = g.get_interval_shifts(i2[::-1], axes_order=(-1, -2))
    c.expect(sorted(zip(v.tolist(), u.tolist())) == sorted(want), "axes", f"interval {i2} with swapped axes")
    num = int(rng.integers(0, g.max_buckets + 4))
    v, u = g.get_random_shifts(num)
    got = list(zip(v.tolist(), u.tolist()))
    c.expect(len(got) == min(num, g.max_buckets), "random", f"{len(got)} shifts instead of {min(num, g.max_buckets)}")
    c.expect(len(set(got)) == len(got) and set(got) <= every, "random", "repeated or out-of-range shifts")
    if g.max_buckets > 3 and c.idx % 2 == 0:  # any shift can be drawn
        k = g.max_buckets // 2
        seen = {x for _ in range(40) for x in zip(*(y.tolist() for y in g.get_random_shifts(k)))}
        c.expect(len(seen) == g.max_buckets, "random", f"{g.max_buckets - len(seen)} shifts were never drawn")
    v, u = g.get_sequential_shifts(num)
    full = [(a, b) for a in range(ms[0]) for b in range(ms[1])]
    c.expect(list(zip(v.tolist(), u.tolist())) == full[:num], "sequential", f"first {num} shifts")
    v, u = g.get_sequential_shifts()
    c.expect(list(zip(v.tolist(), u.tolist())) == full, "sequential", "all shifts")


@check.family("generate", 60, 1200, ["size", "count", "content", "transmittance", "association", "refused"])
def generate(c):
    rng = c.rng
    kind, g, pts, ms = make_gen(c, hi=7)
    if rng.random() < 0.4:
        g.transmittance = float(np.round(rng.uniform(0.1, 1), 2))
    t = g.transmittance
    stype = str(rng.choice(["sequential", "interval", "random", "Random"]))
    frac = float(rng.choice([1.0, 0.5, 0.3, 0.25]))
    log = []
    orig = g.generate_shifted_mask

    def logged(inds, mask_encoding=True):
        m = orig(inds, mask_encoding)
        log.append((tuple(int(i) for i in inds), mask_encoding, np.array(m)))
        return m

    g.generate_shifted_mask = logged
    mc = g.generate_collection(frac, stype)
    c.describe(shift_type=stype, frac=frac, transmittance=t)
    npix = int(np.prod(pts))
    if stype == "interval":
        k = int(np.ceil(1 / frac))
        num = len(range(0, ms[0], k)) * len(range(0, ms[1], k))
    else:
        num = min(int(np.ceil(npix * frac)), g.max_buckets)
    c.trivial = num < 2
    c.expect(mc.num_buckets == num, "count", f"{mc.num_buckets} masks instead of {num}")
    c.expect(tuple(mc.shape_fov) == pts, "count", f"shape {mc.shape_fov}")
    c.expect(mc.mask_dims == 2 and list(mc.mask_support) == list(g.shape_mask) and mc.info() == g.info(), "count", "collection metadata")
    # the k-th mask of the collection is the one generated for the k-th shift, encoding and decoding sharing the shift
    encs = [x for x in log if x[1]]
    decs = [x for x in log if not x[1]]
    c.expect(len(encs) == num and len(decs) in (0, num), "association", f"{len(encs)} + {len(decs)} generated masks")
    if len(encs) == num:
        c.same(np.stack([x[2] for x in encs]), mc.masks_enc.reshape((num,) + pts), "association", "encoding masks differ from the generated ones, in order")
    if decs:
        c.expect([x[0] for x in decs] == [x[0] for x in encs], "association", "encoding and decoding shifts differ")
        c.same(np.stack([x[2] for x in decs]), mc.masks_dec.reshape((num,) + pts), "association", "decoding masks differ from the generated ones, in order")
    else:
        c.expect(mc.masks_dec is mc.masks_enc or np.array_equal(mc.masks_dec, mc.masks_enc), "association", "decoding masks of a non encoding-decoding type")
    for (v, u), enc, mk in log:
        mk = np.asarray(mk, float)
        if kind == "point":
            w = np.zeros(pts)
            w[v, u] = 1
            c.close(mk, 1 - (1 - w) * t, "content", f"pencil beam at {(v, u)}", rtol=1e-6)
        elif kind == "bernoulli":
            c.expect(np.all((np.abs(mk - 1) < 1e-6) | (np.abs(mk - (1 - t)) < 1e-6)), "content", "Bernoulli masks are not two-valued")
        elif kind == "gaussian":
            c.expect(np.all(mk >= 1 - t - 1e-6) and np.all(np.isfinite(mk)), "content", "half-Gaussian masks below the minimum")
        else:
            w = mura(pts[0], enc)
            w = np.roll(w, (v, u), (0, 1))
            c.close(mk, 1 - (1 - w) * t, "content", f"MURA at {(v, u)} encoding={enc}", rtol=1e-6)
    c.expect(mc.masks_enc.min() >= 1 - t - 1e-6, "transmittance", "opaque areas transmit less than expected")
    if kind == "bernoulli" and num * npix >= 200:
        c.expect(0.25 < np.mean(np.abs(mc.masks_enc - 1) < 1e-6) < 0.75, "content", "Bernoulli masks are not half open")
    if kind in ("bernoulli", "gaussian") and npix >= 16 and num > 1:
        f = mc.masks_enc.reshape(num, -1)
        c.expect(len({x.tobytes() for x in f}) > num // 2, "content", "random masks are repeated")
    c.expect(fails(lambda: g.generate_collection(1, "spiral"), ValueError), "refused", "unknown shift type accepted")
    c.expect(len(repr(g)) > 0, "count", "repr")


def mura(n, enc):
    """Definition (Gottesman & Fenimore, 1989), with quadratic residues modulo n."""
    qr = {(k * k) % n for k in range(1, n)}
    cc = [1 if k in qr else -1 for k in range(n)]
    a = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            a[i, j] = 0 if i == 0 else 1 if j == 0 else 1 if cc[i] * cc[j] == 1 else 0
    if not enc:
        a[0, 0] = 1
    return a


@check.family("mura", 12, 60, ["size", "definition", "identity", "sizes", "reconstruct"])
def mura_identity(c):
    """For prime sizes n = 4l+1, sum over the shifts of enc x dec is (n^2-1)/4 (1 + delta)."""
    rng = c.rng
    ps = [p for p in primes(17 if c.tier == "quick" else 29) if p % 4 == 1]
    n = ps[c.idx % len(ps)]
    res = float(np.round(rng.uniform(0.1, 3), 2))
    g = si.MaskGeneratorMURA(n * res - (1e-6 * res if rng.random() < 0.3 else float(rng.uniform(0.01, 3.9)) * res), res)
    c.expect(tuple(g.shape_fov) == (n, n), "size", f"{tuple(g.shape_fov)} instead of {n}")
    if tuple(g.shape_fov) != (n, n):
        return
    c.describe(n=n, res=res)
    c.same(np.asarray(g.masks_enc, float), mura(n, True), "definition", "encoding pattern")
    c.same(np.asarray(g.masks_dec, float), mura(n, False), "definition", "decoding pattern")
    mc = g.generate_collection()
    E, D = mc.masks_enc.reshape(-1, n * n), mc.masks_dec.reshape(-1, n * n)
    c.event("masks", len(E))
    G = D.T @ E
    c.close(G, (n * n - 1) / 4 * (np.eye(n * n) + 1), "identity", "correlation of encoding and decoding masks", rtol=1e-9)
    x = rng.uniform(0, 1, (n, n))
    p = si.ProjectorGhostImaging(mc, backend="numpy")
    rec = p.bp(p.fp(x)) * 4 / (n * n - 1) - x.sum()
    c.close(rec, x, "reconstruct", "image from the correlation of buckets and decoding masks", rtol=1e-8, scale=x.sum())
    for f in [n, n - 1, n + 1, int(rng.integers(1, 200)), int(rng.integers(1, 8)), n * n]:
        got = si.MaskGeneratorMURA.compute_possible_mask_sizes(f)
        c.expect(list(np.asarray(got)) == [p for p in primes(f) if p % 4 == 1], "sizes", f"possible sizes up to {f}: {got}")


@check.family("qr", 60, 1500, ["orthonormal", "span", "buckets", "untouched", "refused", "reorder", "triangular"])
def qr(c):
    rng = c.rng
    nd = int(rng.choice([1, 2, 2, 3]))
    fov = tuple(int(x) for x in rng.integers(2, [0, 16, 6, 4][nd], nd))
    npix = int(np.prod(fov))
    nb = int(rng.integers(1, npix + 1))
    k = int(rng.integers(0, 3))
    stack = (nb,)
    divs = [d for d in range(2, nb) if nb % d == 0]
    if divs and rng.random() < 0.4:
        d = int(rng.choice(divs))
        stack = (d, nb // d)
    masks = rng.uniform(0, 1, stack + fov)
    x = rng.uniform(0, 1, (k,) + fov if k else fov)
    M = masks.reshape(nb, npix)
    b = x.reshape(-1, npix) @ M.T
    b = b if k else b[0]
    shift = 0 if rng.random() < 0.4 else int(rng.integers(-nb, nb + 1))
    c.describe(fov=fov, stack=stack, images=k, shift=shift)
    c.trivial = nb < 2
    m0, b0 = masks.copy(), b.copy()
    mc = si.MaskCollection(masks, mask_dims=nd)
    new, nbk = mc.get_qr_decomposition(b, shift=shift)
    Q = new.masks_enc.reshape(nb, npix)
    kappa = np.linalg.cond(M)
    tol = 1e-11 * kappa + 1e-10
    c.expect(new.masks_enc.shape == masks.shape and nbk.shape == b.shape, "buckets", f"shapes {new.masks_enc.shape} {nbk.shape}")
    c.close(Q @ Q.T, np.eye(nb), "orthonormal", "new masks", atol=1e-10)
    c.close((M @ Q.T) @ Q, M, "span", "the new masks do not span the old ones", rtol=1e-9)
    c.close(nbk, (x.reshape(-1, npix) @ Q.T).reshape(b.shape), "buckets", "the new buckets are not those of the new masks", rtol=tol, scale=np.abs(b).max() + np.abs(nbk).max())
    c.same(new.masks_dec, new.masks_enc, "orthonormal", "decoding masks")
    c.same(masks, m0, "untouched", "masks of the original collection")
    c.same(mc.masks_enc, m0, "untouched", "original collection")
    c.same(b, b0, "untouched", "buckets")
    # nested spans: first mask of the decomposition is the (shifted) first mask, up to sign and scaling
    Mr = np.roll(M, -shift, axis=0)
    R = Mr @ Q.T
    c.close(np.triu(R, 1), np.zeros_like(R), "triangular", "the k-th new mask depends on masks after the k-th", atol=1e-9 * np.abs(R).max())
    m0 = m0.reshape(stack + (fov if nd == 2 else (1, npix)))
    Qd, R1t = si.decompose_qr_masks(m0)
    c.close(R1t @ M, Qd.reshape(nb, npix), "buckets", "R1t applied to the masks", rtol=tol, scale=1 + np.abs(R1t).max())
    mr, br = si.reorder_masks(m0, b0, shift)
    order = (np.arange(nb) + shift) % nb
    c.same(mr.reshape(nb, -1), M[order], "reorder", f"masks reordered by {shift}")
    c.same(br, b0[..., order], "reorder", f"buckets reordered by {shift}")
    mb, bb = si.reorder_masks(mr, br, -shift)
    c.same(mb, m0, "reorder", "reordering back")
    c.same(bb, b0, "reorder", "reordering back")
    dec = m0.copy()
    dec.flat[int(rng.integers(0, dec.size))] += 0.5
    c.expect(fails(lambda: si.MaskCollection(m0.reshape(masks.shape), dec.reshape(masks.shape), mask_dims=nd).get_qr_decomposition(b0), ValueError), "refused", "encoding-decoding masks")


@check.family("binning", 40, 800, ["mean", "untouched", "metadata"])
def binning(c):
    rng = c.rng
    b = int(rng.integers(1, 5))
    nd = int(rng.choice([1, 2, 2, 3]))
    fov = tuple(int(x) * b for x in rng.integers(1, [0, 9, 5, 4][nd], nd))
    stack = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 3))))
    enc = rng.uniform(0, 1, stack + fov)
    dec = rng.uniform(0, 1, stack + fov) if rng.random() < 0.5 else None
    support = None if rng.random() < 0.5 else tuple(int(rng.integers(1, 4 * b)) for _ in fov)
    c.describe(fov=fov, stack=stack, binning=b, dec=dec is not None, support=support)
    mc = si.MaskCollection(enc.copy(), None if dec is None else dec.copy(), mask_dims=nd, mask_support=support)
    new = mc.bin_masks(b)

    def ref(a):
        for ax in range(len(stack), len(stack) + nd):
            a = a.reshape(a.shape[:ax] + (a.shape[ax] // b, b) + a.shape[ax + 1 :]).mean(axis=ax + 1)
        return a

    c.close(new.masks_enc, ref(enc), "mean", "encoding masks", rtol=1e-12)
    c.close(new.masks_dec, ref(enc if dec is None else dec), "mean", "decoding masks", rtol=1e-12)
    c.same(mc.masks_enc, enc, "untouched", "original masks")
    c.expect(tuple(new.shape_fov) == tuple(f // b for f in fov) and tuple(new.shape_shifts) == stack, "metadata", f"{new.shape_fov}")
    c.expect(new.num_pixels == int(np.prod(fov)) // b**nd and new.num_buckets == mc.num_buckets, "metadata", "counts")
    c.expect(tuple(new.mask_support) == tuple(-(-f // b) for f in (support or fov)), "metadata", f"support {new.mask_support}: not the smallest that covers the mask")
    c.expect(tuple(mc.mask_support) == (support or fov), "untouched", "support of the original")


if __name__ == "__main__":
    raise SystemExit(check.main())
