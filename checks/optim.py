"""Independent convex-optimization oracle: ADMM with direct linear solves, on small dense problems."""
import numpy as np
import scipy.linalg as sla


def grad_matrix(shape, axes=None, mode="edge"):
    """Forward differences [n_axes * n, n] with zero last difference (edge)."""
    n = int(np.prod(shape))
    idx = np.arange(n).reshape(shape)
    blocks = []
    for ax in range(len(shape)) if axes is None else axes:
        D = np.zeros((n, n))
        for i in np.ndindex(*shape):
            j = list(i)
            j[ax] += 1
            if j[ax] >= shape[ax]:
                if mode == "edge":
                    continue
                if mode == "constant":
                    D[idx[i], idx[i]] -= 1
                    continue
                j[ax] = 0  # wrap
            D[idx[i], idx[i]] -= 1
            D[idx[i], idx[tuple(j)]] += 1
        blocks.append(D)
    return np.concatenate(blocks)


def lap_matrix(shape, axes=None):
    """Sum of second differences with edge padding."""
    L = 0
    for ax in range(len(shape)) if axes is None else axes:
        D = grad_matrix(shape, [ax])
        L = L - D.T @ D
    return L


class Fun:
    """Separable (or grouped) convex function f(z) with its proximal."""

    def __init__(self, value, prox):
        self.value, self.prox = value, prox


def l2(b, w=None, bg=0.0, mask=None):
    w = np.ones(b.size) if w is None else np.asarray(w, float).ravel()
    w = w if mask is None else w * mask.ravel()
    b = b.ravel() - bg
    return Fun(lambda z: 0.5 * float(np.sum(w * (z - b) ** 2)), lambda z, t: (z + t * w * b) / (1 + t * w))


def _soft(d, t):
    return np.sign(d) * np.maximum(np.abs(d) - t, 0)


def l1(b, bg=0.0, mask=None, slack=0.0):
    """Sum of max(|z - b| - slack, 0)."""
    m = np.ones(b.size) if mask is None else mask.ravel()
    b = b.ravel() - bg

    def prox(z, t):
        e = _soft(z - b, slack)
        return z - np.clip(e, -t * m, t * m)

    return Fun(lambda z: float(np.sum(m * np.maximum(np.abs(z - b) - slack, 0))), prox)


def l2b(b, err, bg=0.0, mask=None):
    m = np.ones(b.size) if mask is None else mask.ravel()
    b = b.ravel() - bg
    s = np.sqrt(err)
    return Fun(lambda z: float(np.sum(m * np.maximum(np.abs(z - b) - s, 0) ** 2 / (2 * err))), lambda z, t: z - m * _soft(z - b, s) * t / (t + err))


def huber(b, a, bg=0.0, mask=None):
    m = np.ones(b.size) if mask is None else mask.ravel()
    b = b.ravel() - bg

    def val(z):
        d = np.abs(z - b)
        return float(np.sum(m * np.where(d <= a, d**2 / (2 * a), d - a / 2)))

    def prox(z, t):
        d = z - b
        return z - m * np.where(np.abs(d) <= a + t, d * t / (t + a), t * np.sign(d))

    return Fun(val, prox)


def kl(b, bg=0.0, mask=None):
    m = np.ones(b.size) if mask is None else mask.ravel()
    b = np.maximum(b.ravel(), 0)

    def val(z):
        y = np.maximum(z + bg, 1e-30)
        return float(np.sum(m * (y - b * np.log(y))))

    def prox(z, t):
        y = z + bg
        out = (y - t + np.sqrt((y - t) ** 2 + 4 * t * b)) / 2 - bg
        return np.where(m > 0, out, z)

    return Fun(val, prox)


def group(weight, n_groups):
    """weight * sum over positions of the l2 norm across the groups."""

    def val(z):
        return float(np.sum(weight * np.sqrt(np.sum(z.reshape(n_groups, -1) ** 2, axis=0))))

    def prox(z, t):
        zz = z.reshape(n_groups, -1)
        nrm = np.sqrt(np.sum(zz**2, axis=0, keepdims=True))
        return (zz * np.maximum(1 - t * weight / np.maximum(nrm, 1e-300), 0)).ravel()

    return Fun(val, prox)


def group_huber(weight, a, n_groups):
    def val(z):
        n = np.sqrt(np.sum(z.reshape(n_groups, -1) ** 2, axis=0))
        return float(np.sum(weight * np.where(n <= a, n**2 / (2 * a), n - a / 2)))

    def prox(z, t):
        zz = z.reshape(n_groups, -1)
        n = np.sqrt(np.sum(zz**2, axis=0, keepdims=True))
        tw = t * weight
        return np.where(n <= a + tw, zz * (1 - tw / (tw + a)), zz * (1 - tw / np.maximum(n, 1e-300))).ravel()

    return Fun(val, prox)


def nuclear(weight, n_chan, n_der, chan_major=False):
    """weight * sum over positions of the nuclear norm of the [derivatives x channels] matrices (z ordered as derivatives, channels, positions)."""

    def svd(z):
        return np.linalg.svd(np.moveaxis(z.reshape(n_der, n_chan, -1), -1, 0), full_matrices=False)

    def val(z):
        return float(weight * svd(z)[1].sum())

    def prox(z, t):
        U, s, V = svd(z)
        return np.moveaxis(U @ (np.maximum(s - t * weight, 0)[..., None] * V), 0, -1).ravel()

    return Fun(val, prox)


def absw(weight):
    return Fun(lambda z: float(np.sum(weight * np.abs(z))), lambda z, t: _soft(z, t * weight))


def sq(weight):
    return Fun(lambda z: 0.5 * float(np.sum(weight * z**2)), lambda z, t: z / (1 + t * weight))


class Objective:
    """sum_i f_i(K_i x) + box(x), over the pixels of the mask."""

    def __init__(self, n, terms, lower=None, upper=None, x_mask=None):
        self.n, self.terms = n, terms
        self.lo = np.full(n, -np.inf) if lower is None else np.broadcast_to(np.asarray(lower, float).ravel(), (n,))
        self.hi = np.full(n, np.inf) if upper is None else np.broadcast_to(np.asarray(upper, float).ravel(), (n,))
        self.m = np.ones(n) if x_mask is None else np.asarray(x_mask, float).ravel()

    def __call__(self, x):
        x = np.asarray(x, float).ravel()
        return sum(f.value(K @ x) for K, f in self.terms)

    def feasible(self, x):
        return np.clip(np.asarray(x, float).ravel(), self.lo, self.hi) * self.m

    def solve(self, iterations=3000, x0=None, rho=1.0):
        """ADMM; returns the best feasible iterate found."""
        n = self.n
        # scale the blocks, so that a single penalty parameter suits all
        sc = [1.0 / max(np.linalg.norm(K, 2), 1e-12) for K, _ in self.terms]
        Ks = [K * s for (K, _), s in zip(self.terms, sc)]
        H = sum(K.T @ K for K in Ks) + np.eye(n)
        fac = sla.cho_factor(H)
        x = self.feasible(np.zeros(n) if x0 is None else x0)
        z = [K @ x for K in Ks] + [x.copy()]
        u = [np.zeros_like(v) for v in z]
        best, bx = self(self.feasible(x)), self.feasible(x)
        for k in range(iterations):
            rhs = sum(K.T @ (zi - ui) for K, zi, ui in zip(Ks, z, u)) + z[-1] - u[-1]
            x = sla.cho_solve(fac, rhs, check_finite=False)
            pr = dr = 0.0
            for i, K in enumerate([*Ks, None]):
                v = (K @ x if K is not None else x) + u[i]
                if K is not None:
                    zn = self.terms[i][1].prox(v / sc[i], 1.0 / (rho * sc[i] ** 2)) * sc[i]
                else:
                    zn = self.feasible(v)
                pr += float(np.sum((v - u[i] - zn) ** 2))
                dr += float(np.sum((zn - z[i]) ** 2))
                z[i] = zn
                u[i] = v - zn
            if k % 25 == 24:
                xf = self.feasible(z[-1])
                F = self(xf)
                if F < best:
                    best, bx = F, xf
                if np.sqrt(pr) + np.sqrt(dr) < 1e-11 * max(1.0, np.sqrt(n)):
                    break
                if k % 100 == 99:  # penalty balancing
                    if pr > 100 * dr:
                        rho *= 2
                        u = [v / 2 for v in u]
                    elif dr > 100 * pr:
                        rho /= 2
                        u = [v * 2 for v in u]
        return bx, best
