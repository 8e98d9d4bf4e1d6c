"""C14 - acquisition geometries: rigid motions, detector/source placement, slicing, projections of displacements, weights, volumes."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from corrct import models as m
from rtm.core import Check

check = Check(
    "C14",
    "Random parallel (2D/3D), fan and cone-beam geometries, built through random sequences of placements, tilts, rotations and slicings; every field is compared with an "
    "independent rigid-body model (Rodrigues rotations on plain vectors). Non-trivial when at least one non-zero rotation, shift or tilt was applied.",
    scale=(14, 1),
)
FIELDS = ("src_pos_xyz", "det_pos_xyz", "det_u_xyz", "det_v_xyz")


def rodrigues(axis, ang):
    k = np.asarray(axis, float)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K @ K


def unit(v):
    return np.asarray(v, float) / np.linalg.norm(v)


class Model:
    """Plain-vector model of a geometry: one row per angle."""

    def __init__(self, kind, src_dist, rot):
        self.kind = kind
        self.f = dict(
            src_pos_xyz=np.array([[0.0, -src_dist, 0.0]]),
            det_pos_xyz=np.zeros((1, 3)),
            det_u_xyz=np.array([[1.0, 0, 0]]),
            det_v_xyz=np.array([[0, 0, 1.0]]),
        )
        self.rot = rot

    @property
    def n(self):
        return max(len(v) for v in self.f.values())

    def rotate(self, angs, flip=False):
        o = Model(self.kind, 1.0, self.rot)
        angs = np.atleast_1d(angs) * (-1 if flip else 1)
        for k, v in self.f.items():
            vv = np.broadcast_to(v, (max(len(angs), len(v)), 3))
            aa = np.broadcast_to(angs, (len(vv),))
            o.f[k] = np.stack([rodrigues(self.rot, a) @ p for a, p in zip(aa, vv)])
        return o

    def tilt(self, pairs, source):
        for ang, ax in pairs:
            Rm = rodrigues(ax, ang)
            for k in FIELDS[0 if source else 1 :]:
                self.f[k] = self.f[k] @ Rm.T

    def place(self, u, v, dist):
        n = max(np.size(u), np.size(v), np.size(dist), len(self.f["det_u_xyz"]), len(self.f["det_v_xyz"]) if self.kind != "2d" else 1)
        p = np.zeros((n, 3))
        p += self.f["det_u_xyz"] * np.atleast_1d(u)[:, None]
        if self.kind != "2d" and v is not None:
            p += self.f["det_v_xyz"] * np.atleast_1d(v)[:, None]
        p[:, 1] += dist
        self.f["det_pos_xyz"] = p


def build(c, kinds=("2d", "3d", "cone")):
    rng = c.rng
    kind = str(rng.choice(kinds))
    how = int(rng.integers(4))
    rot = [("clockwise", (0, 0, -1)), ("counter-clockwise", (0, 0, 1)), ("Clockwise", (0, 0, -1)), None][how]
    if rot is None:
        ax = unit(rng.standard_normal(3)) if kind != "2d" else np.array([0, 0, rng.choice([-1.0, 1.0])])
        rot = (ax if rng.random() < 0.5 else list(ax), ax)
    D = float(np.round(rng.uniform(5, 60), 2)) if kind == "cone" else 1.0
    if kind == "cone":
        g = m.get_prj_geom_cone(src_to_sam_dist=D, rot_axis_dir=rot[0])
    elif rng.random() < 0.5:
        g = m.get_prj_geom_parallel(geom_type=kind if rng.random() < 0.7 else kind.upper(), rot_axis_dir=rot[0])
    else:
        g = m.ProjectionGeometry.get_default_parallel(geom_type=kind, rot_axis_dir=rot[0])
    c.describe(kind=kind, rot=how)
    return g, Model(kind, D, np.asarray(rot[1], float))


def agree(c, g, mo, monitor, msg=""):
    for k in FIELDS:
        got, want = np.asarray(getattr(g, k), float), mo.f[k]
        n = max(len(got), len(want))
        c.expect(got.ndim == 2 and got.shape[1] == 3 and len(got) in (1, n), monitor, f"{msg}: shape of {k}: {got.shape}")
        c.close(np.broadcast_to(got, (n, 3)), np.broadcast_to(want, (n, 3)), monitor, f"{msg}: {k}", rtol=1e-9, atol=1e-9, scale=1 + np.abs(want).max())


def snap(g):
    return {k: np.array(getattr(g, k)) for k in FIELDS + ("rot_dir_xyz",)}


def unchanged(c, g, s, what):
    for k, v in s.items():
        c.same(np.asarray(getattr(g, k)), v, "untouched", f"{what} modified {k}")


def step(c, g, mo, monitor):
    """One random placement or tilt, applied to both."""
    rng = c.rng
    kind = str(rng.choice(["place", "cor", "tilt", "source"]))
    n = mo.n if mo.n > 1 else int(rng.choice([1, 1, 3, 5]))
    if kind == "place":
        form = str(rng.choice(["scalar", "u", "1u", "vu", "none"]))
        dist = 0.0 if rng.random() < 0.5 else float(np.round(rng.uniform(0, 20), 2))
        if rng.random() < 0.25:
            dist = np.round(rng.uniform(0, 20, n), 2)
        u, v = np.round(rng.uniform(-5, 5, (2, n)), 2)
        cor = None if rng.random() < 0.5 else float(np.round(rng.uniform(-3, 3), 2))
        if form == "scalar":
            arg, u, v = float(u[0]), u[:1], None
        elif form == "u":
            arg, v = (u if rng.random() < 0.5 else list(u)), None
        elif form == "1u":
            arg, v = u[None, :], None
        elif form == "vu":
            arg = np.stack([v, u])
        else:
            arg, u, v = None, np.zeros(1), None
        a0 = np.array(arg, dtype=float) if arg is not None else None
        g.set_detector_shifts_vu(arg, cor_pos_u=cor, det_dist_y=dist)
        if a0 is not None:
            c.same(np.array(arg, dtype=float), a0, "untouched", "positions modified")
        mo.place(u + (cor or 0.0), v, dist)
        c.describe(place=form)
    elif kind == "cor":
        cor = float(np.round(rng.uniform(-3, 3), 2))
        g.set_detector_shifts_vu(cor_pos_u=cor)
        mo.place(np.array([cor]), None, 0.0)
    elif kind == "tilt":
        src = bool(rng.random() < 0.4)
        form = str(rng.choice(["default", "one", "many", "one-axis", "one-angle"]))
        k = int(rng.integers(2, 4))
        axs = np.stack([unit(rng.standard_normal(3)) for _ in range(k)])
        angs = np.round(rng.uniform(-3, 3, k), 3)
        if form == "default":
            g.set_detector_tilt(float(angs[0]), tilt_source=src)
            mo.tilt([(angs[0], (0, 1, 0))], src)
        elif form == "one":
            g.set_detector_tilt(angs[:1], tuple(axs[0]), src)
            mo.tilt([(angs[0], axs[0])], src)
        elif form == "many":
            g.set_detector_tilt(angs, axs, src)
            mo.tilt(list(zip(angs, axs)), src)
        elif form == "one-axis":
            g.set_detector_tilt(list(angs), axs[0], src)
            mo.tilt([(a, axs[0]) for a in angs], src)
        else:
            g.set_detector_tilt(angs[0], axs, src)
            mo.tilt([(angs[0], a) for a in axs], src)
        c.describe(tilt=form)
    else:
        u, v = np.round(rng.uniform(-5, 5, (2, n)), 2)
        y = mo.f["src_pos_xyz"][:, 1]
        if rng.random() < 0.3:
            u, v = u[:1], v[:1]
        p = np.zeros((max(len(u), len(y)), 3))
        p[:, 0], p[:, 1] = u, y
        if rng.random() < 0.5 or mo.kind == "2d":
            arg = u
            if mo.kind == "2d" and rng.random() < 0.3:
                arg = np.stack([v, u])
        else:
            p[:, 2], arg = v, np.stack([v, u])
        g.set_source_shifts_vu(arg)
        g.set_source_shifts_vu(None)
        mo.f["src_pos_xyz"] = p
    agree(c, g, mo, monitor, kind)
    return kind


@check.family("placement", 400, 10000, ["fields", "untouched"])
def placement(c):
    """Random histories of placements and tilts."""
    g, mo = build(c)
    agree(c, g, mo, "fields", "default geometry")
    c.describe(steps=[step(c, g, mo, "fields") for _ in range(int(c.rng.integers(1, 6)))])


@check.family("rotation", 400, 10000, ["rotated", "untouched", "rigid", "composition", "slicing"])
def rotation(c):
    rng = c.rng
    g, mo = build(c)
    for _ in range(int(rng.integers(0, 3))):
        step(c, g, mo, "rotated")
    n = mo.n if mo.n > 1 else int(rng.integers(1, 7))
    angs = np.round(rng.uniform(-7, 7, n), 3)
    if rng.random() < 0.2:
        angs = np.linspace(0, np.pi, n)
    s = snap(g)
    patch = bool(rng.random() < 0.3)
    flip = patch and mo.kind == "2d"
    c.describe(n=n, patch=patch)
    a0 = angs.copy()
    arg = angs if rng.random() < 0.7 else list(angs)
    r = g.rotate(arg, patch_astra_2d=True) if patch else g.rotate(arg)
    c.same(angs, a0, "untouched", "angles modified")
    unchanged(c, g, s, "rotate")
    agree(c, r, mo.rotate(angs, flip), "rotated")
    c.expect(r.geom_type == g.geom_type and r.pix2vox_ratio == g.pix2vox_ratio, "rotated", "geometry type")
    c.same(r.rot_dir_xyz, g.rot_dir_xyz, "rotated", "rotation axis")
    for k in FIELDS:
        v, w = np.broadcast_to(getattr(g, k), (n, 3)), getattr(r, k)
        c.close(np.linalg.norm(w, axis=1), np.linalg.norm(v, axis=1), "rigid", "lengths", rtol=1e-9, atol=1e-9)
    c.close(np.sum(r.det_u_xyz * r.det_v_xyz, 1), np.zeros(len(r.det_u_xyz)), "rigid", "detector axes", rtol=0, atol=1e-9)
    c.close((r.det_pos_xyz - r.src_pos_xyz) @ g.rot_dir_xyz[0], np.broadcast_to((g.det_pos_xyz - g.src_pos_xyz) @ g.rot_dir_xyz[0], n), "rigid", "height along the axis", rtol=1e-9, atol=1e-8)
    b = float(np.round(rng.uniform(-3, 3), 3))
    agree(c, r.rotate(np.full(n, b)), mo.rotate(angs + b, False) if not flip else mo.rotate(-angs + b), "composition", "two rotations")
    agree(c, r.rotate(b), mo.rotate((-angs if flip else angs) + b), "composition", "one common rotation")
    agree(c, r.rotate(angs if flip else -angs), mo.rotate(np.zeros(n)), "composition", "inverse rotation")
    # slicing along the angles
    for idx in (int(rng.integers(n)), slice(None, None, 2), list(rng.integers(0, n, 2)), slice(0, n)):
        q = r[idx]
        sel = np.atleast_1d(np.arange(n)[idx])
        for k in FIELDS:
            full = np.broadcast_to(getattr(r, k), (n, 3))[sel]
            got = getattr(q, k)
            c.close(np.broadcast_to(got, full.shape), full, "slicing", f"{k} of {idx}", rtol=1e-12, atol=1e-12)
    s2 = snap(r)
    q = r[slice(0, n)]
    q.det_pos_xyz += 5
    q.set_detector_tilt(0.3)
    unchanged(c, r, s2, "changing a slice")
    r2 = r.copy()
    r2.det_u_xyz *= 2
    r2.src_pos_xyz += 1
    unchanged(c, r, s2, "changing a copy")
    r.det_u_xyz *= 3
    r.src_pos_xyz += 1
    unchanged(c, g, s, "changing a rotated geometry")
    c.trivial = not np.any(angs)


@check.family("displacement", 250, 6000, ["projected", "linear", "detector-point"])
def displacement(c):
    """Projection of displacements in the volume over the detector."""
    rng = c.rng
    g, mo = build(c)
    for _ in range(int(rng.integers(0, 3))):
        step(c, g, mo, "projected")
    n = mo.n if mo.n > 1 else int(rng.integers(1, 6))
    angs = np.round(rng.uniform(-4, 4, n), 3)
    r, ro = g.rotate(angs), mo.rotate(angs)
    nd = 2 if mo.kind == "2d" else 3
    c.expect(r.ndim == nd, "projected", "dimensions")
    d = rng.uniform(-5, 5, nd)
    arg = d if rng.random() < 0.5 else list(d)
    d0 = d.copy()
    p = r.project_displacement_to_detector(arg)
    c.same(d, d0, "projected", "displacement modified")
    xyz = np.zeros(3)
    xyz[:nd] = d[::-1]
    uu = ro.f["det_u_xyz"] if nd == 3 else ro.f["det_u_xyz"] * [1, 1, 0]
    want = uu @ xyz
    if nd == 3:
        want = np.stack([ro.f["det_v_xyz"] @ xyz, want])
    c.close(p, want, "projected", rtol=1e-9, atol=1e-9)
    e, al = rng.uniform(-5, 5, nd), rng.uniform(-2, 2)
    c.close(r.project_displacement_to_detector(d + al * e), p + al * np.asarray(r.project_displacement_to_detector(e)), "linear", rtol=1e-9, atol=1e-9)
    if mo.kind == "3d":
        # the detector coordinates of a point seen along the beam, moved by the displacement
        beam = ro.f["src_pos_xyz"]
        U, V = ro.f["det_u_xyz"], ro.f["det_v_xyz"]
        for i in range(n):
            bi, ui, vi = beam[i % len(beam)], U[i], V[i]
            nrm = np.cross(ui, vi)
            if np.linalg.norm(np.cross(bi, nrm)) < 1e-9 * np.linalg.norm(bi):
                c.close(p[:, i], [vi @ xyz, ui @ xyz], "detector-point", rtol=1e-9, atol=1e-9)
    c.monitors["detector-point"] += 1
    for bad in ([1.0], [1.0] * (5 - nd)):
        try:
            r.project_displacement_to_detector(bad)
            c.violate("projected", "displacement of the wrong dimension accepted")
        except ValueError:
            pass


@check.family("pre-weights", 200, 5000, ["cosine", "shape", "rotation-invariant", "none", "stored-shape"])
def pre_weights(c):
    """The pre-weights are the cosines between the rays to the pixels and the ray to the detector center."""
    rng = c.rng
    kind = str(rng.choice(["cone", "cone", "cone", "2d", "3d"]))
    g, mo = build(c, (kind,))
    nv, nu = (int(v) for v in rng.integers(1, 9, 2))
    if kind != "cone":
        c.expect(g.get_pre_weights([nv, nu]) is None, "none", "weights of a parallel beam")
        c.describe(kind=kind, nv=nv, nu=nu)
        for mon in ("cosine", "shape", "rotation-invariant", "stored-shape"):
            c.monitors[mon] += 0
        return
    n = 1 if rng.random() < 0.7 else 3
    dist = float(np.round(rng.uniform(0, 40), 2))
    u, v = (np.round(rng.uniform(-3, 3, (2, n)), 2) if rng.random() < 0.5 else np.zeros((2, n)))
    g.set_detector_shifts_vu(np.stack([v, u]), det_dist_y=dist)
    mo.place(u, v, dist)
    c.describe(n=n, nv=nv, nu=nu, dist=dist)
    one = bool(rng.random() < 0.3)
    w = g.get_pre_weights([nu] if one else [nv, nu])
    iu, iv = np.arange(nu) - (nu - 1) / 2, (np.arange(nv) - (nv - 1) / 2 if not one else np.zeros(1))
    S, D, U, V = (np.broadcast_to(mo.f[k], (n, 3)) for k in FIELDS)
    want = np.empty((len(iv), n, nu))
    for a in range(n):
        c0 = np.linalg.norm(D[a] - S[a])
        P = D[a] - S[a] + iu[None, :, None] * U[a] + iv[:, None, None] * V[a]
        want[:, a] = c0 / np.linalg.norm(P, axis=-1)
    if one:
        want = want[0]
    c.expect(np.shape(w) == want.shape, "shape", f"{np.shape(w)} instead of {want.shape}")
    c.close(w, want, "cosine", rtol=1e-9)
    ang = float(rng.uniform(-3, 3))
    c.close(g.rotate(np.full(n, ang)).get_pre_weights([nu] if one else [nv, nu]), want, "rotation-invariant", rtol=1e-8)
    g.set_detector_shape_vu([nv, nu])
    if not one:
        c.close(g.get_pre_weights(), want, "stored-shape", rtol=1e-9)
    else:
        c.monitors["stored-shape"] += 1
    c.monitors["none"] += 0


@check.family("constructors", 250, 5000, ["defaults", "detector-shape", "shift", "3d", "scaled", "text", "refused"])
def constructors(c):
    rng = c.rng
    kind = str(rng.choice(["2d", "3d", "cone"]))
    fmt = str(rng.choice(["dvwu", "vwu", "wu", "wvu", "dwu", "vu"]))
    shape = tuple(int(v) for v in rng.integers(1, 20, len(fmt)))
    if rng.random() < 0.3 and len(shape) > 2:
        shape = shape[1:]
    dims = dict(zip(fmt[-len(shape) :], shape))
    n = int(rng.integers(1, 6))
    cor = [None, float(np.round(rng.uniform(-5, 5), 2)), np.round(rng.uniform(-5, 5, n), 2), np.round(rng.uniform(-5, 5, (2, n)), 2)][int(rng.integers(4))]
    c.describe(kind=kind, fmt=fmt, ndim=len(shape), cor=np.shape(cor))
    D = float(rng.uniform(3, 50))
    kw = dict(rot_axis_shift_pix=cor, data_shape=shape, data_format=fmt)
    mk = lambda **k: m.get_prj_geom_cone(src_to_sam_dist=D, **k) if kind == "cone" else m.get_prj_geom_parallel(geom_type=kind, **k)
    if kind != "2d" and "v" not in dims:
        try:
            mk(**kw)
            c.violate("refused", "3D geometry without vertical dimension accepted")
        except ValueError:
            c.expect(True, "refused")
        for mon in ("defaults", "detector-shape", "shift", "3d", "scaled", "text"):
            c.monitors[mon] += 0
        return
    g = mk(**kw)
    want = [dims["u"]] if kind == "2d" else [dims["v"], dims["u"]]
    c.expect(list(g.det_shape_vu) == want, "detector-shape", f"{g.det_shape_vu} instead of {want}")
    mo = Model(kind, D if kind == "cone" else 1.0, np.array([0, 0, -1.0]))
    if cor is not None:
        cc = np.atleast_2d(cor)
        if np.size(cor) == 1:
            mo.place(np.array([float(np.ravel(cor)[0])]) if np.ndim(cor) < 2 else cc[-1], None, 0.0)
        else:
            mo.place(cc[-1], cc[-2] if len(cc) == 2 else None, 0.0)
    agree(c, g, mo, "shift" if cor is not None else "defaults", "constructor")
    c.expect(g.geom_type == ("cone" if kind == "cone" else "parallel" + kind) and g.ndim == (2 if kind == "2d" else 3), "defaults", g.geom_type)
    c.expect(mk().det_shape_vu is None, "detector-shape", "shape without data")
    s = snap(g)
    h = g.get_3d()
    unchanged(c, g, s, "get_3d")
    c.expect(h.ndim == 3 and h is not g, "3d", "dimensions of the 3D version")
    c.expect(list(h.det_shape_vu) == ([1, *want] if len(want) == 1 else want), "3d", "detector shape of the 3D version")
    agree(c, h, mo, "3d", "fields of the 3D version")
    c.expect(mk().get_3d().det_shape_vu is None, "3d")
    g.pix2vox_ratio = float(np.round(rng.uniform(0.3, 3), 2))
    for k in FIELDS:
        f = g.get_field_scaled(k)
        full = getattr(g, k) / g.pix2vox_ratio
        c.close(f, full[:, :2] if kind == "2d" else full, "scaled", k, rtol=1e-12)
    unchanged(c, g, s, "get_field_scaled")
    t = str(g)
    c.expect(all(k in t for k in FIELDS + ("pix2vox_ratio", "geom_type", "ProjectionGeometry")), "text", t)
    for f in (lambda: m.get_rot_axis_dir("anti"), lambda: mk(rot_axis_dir="up")):
        try:
            f()
            c.violate("refused", "unknown rotation direction accepted")
        except ValueError:
            c.expect(True, "refused")
    fan = m.ProjectionGeometry("FanFlat", [0, -3.0, 0], [0.0, 2, 0], [1.0, 0, 0], [0, 0, 1.0], [0, 0, -1.0])
    c.expect(fan.ndim == 2 and fan.get_field_scaled("src_pos_xyz").shape == (1, 2) and fan.get_3d().ndim == 3, "3d", "fan beam")
    if kind != "2d" and g.det_pos_xyz.size == 3 and c.idx % 25 == 0:
        m.plot_projection_geometry(g, m.VolumeGeometry([4, 5, 6]))
        plt.close("all")


@check.family("volumes", 300, 8000, ["round-trip", "extent", "flags", "from-data", "refused"])
def volumes(c):
    rng = c.rng
    nd = int(rng.integers(2, 4))
    xyz = [int(v) for v in rng.integers(1, 12, nd)]
    if rng.random() < 0.3:
        xyz[1] = xyz[0]
    vs = float(rng.choice([1.0, 0.5, 0.1, 2.0]))
    c.describe(xyz=xyz, vox=vs)
    V = m.VolumeGeometry(xyz if rng.random() < 0.5 else np.array(xyz), vs)
    x, y, *z = xyz
    c.expect(list(V.shape_xyz) == xyz and list(V.shape_zxy) == [*z, x, y] and list(V.mask_shape) == [x, y], "round-trip", "shapes")
    c.close(V.extent, [s * d * vs / 2 for d in xyz for s in (-1, 1)], "extent", rtol=1e-12)
    c.expect(bool(V.is_square()) == (x == y), "flags", "is_square")
    c.expect(bool(V.is_3D()) == (nd == 3 and xyz[-1] > 1), "flags", "is_3D")
    W = V.get_3d()
    c.expect(list(W.shape_xyz) == (xyz if nd == 3 else [*xyz, 1]) and W.vox_size == vs and list(V.shape_xyz) == xyz, "flags", "3D version")
    for f in (m.get_vol_geom_from_volume, m.VolumeGeometry.get_default_from_volume):
        B = f(np.zeros(tuple(V.shape_zxy)))
        c.expect(list(B.shape_xyz) == xyz and B.vox_size == 1, "round-trip", f"volume of shape {V.shape_zxy} gives {B.shape_xyz}")
        c.expect(tuple(B.shape_zxy) == tuple(V.shape_zxy), "round-trip")
    fmt = str(rng.choice(["dvwu", "vwu", "wu", "wvu", "dwu"]))
    shape = tuple(int(v) for v in rng.integers(6, 20, len(fmt)))
    data = np.zeros(shape)
    pad = [0, 2, (1, 3), [2, 0], np.array([1, 1])][int(rng.integers(5))]
    ss = int(rng.integers(1, 5))
    G = m.get_vol_geom_from_data(data, padding_u=pad, data_format=fmt, super_sampling=ss)
    u = dict(zip(fmt, shape))["u"] - (2 * pad if np.ndim(pad) == 0 else sum(pad))
    v = dict(zip(fmt, shape)).get("v")
    c.expect(list(G.shape_xyz) == [ss * k for k in ([u, u] if v is None else [u, u, v])], "from-data", f"{shape} {fmt} pad {pad} ss {ss}: {G.shape_xyz}")
    G1 = m.get_vol_geom_from_data(data, padding_u=pad, data_format=fmt)
    c.close(G.extent, G1.extent, "from-data", "super-sampling changes the extent", rtol=1e-9)
    c.expect(list(m.VolumeGeometry.get_default_from_data(data, fmt).shape_xyz) == list(m.get_vol_geom_from_data(data, data_format=fmt).shape_xyz), "from-data", "static method")
    for f in (lambda: m.get_vol_geom_from_volume(np.zeros(3)), lambda: m.get_vol_geom_from_data(data, padding_u=[1, 2, 3], data_format=fmt)):
        try:
            f()
            c.violate("refused", "accepted")
        except ValueError:
            c.expect(True, "refused")


@check.family("combination", 150, 2000, ["stacked", "refused"])
def combination(c):
    """Vertical and horizontal shifts combined, and then used."""
    rng = c.rng
    n = int(rng.integers(1, 7))
    v, u = np.round(rng.uniform(-5, 5, (2, n)), 2)
    form = str(rng.choice(["1d", "row", "column"]))
    sh = {"1d": (n,), "row": (1, n), "column": (n, 1)}[form]
    c.describe(n=n, form=form)
    k = m.combine_shifts_vu(v.reshape(sh), u.reshape(sh))
    c.expect(k.shape == (2, n), "stacked", f"shape {k.shape}")
    c.close(k, np.stack([v, u]), "stacked", rtol=0)
    g = m.get_prj_geom_parallel()
    g.set_detector_shifts_vu(k)
    c.close(g.det_pos_xyz[:, [2, 0]].T, k, "stacked", "detector positions", rtol=1e-12)
    bad = [(np.zeros((2, 2)), np.zeros(4)), (np.zeros(4), np.zeros((2, 2))), (np.zeros(3), np.zeros(4))]
    for a, b in bad:
        try:
            m.combine_shifts_vu(a, b)
            c.violate("refused", "accepted")
        except ValueError:
            c.expect(True, "refused")
    if n > 1:
        r = g.rotate(np.zeros(n))
        for f in (
            lambda: r.set_detector_shifts_vu(np.zeros(n + 1)),
            lambda: (r.set_source_shifts_vu(np.zeros(n)), r.set_source_shifts_vu(np.zeros(n + 1))),
            lambda: g.set_detector_shifts_vu(np.zeros(n), det_dist_y=np.zeros(n + 1)),
            lambda: g.set_detector_tilt([1.0] * n, np.ones((n + 1, 3))),
            lambda: g.set_detector_tilt(1.0, (1.0, 2.0)),
            lambda: g.set_detector_tilt(1.0, np.ones((1, 1, 3))),
        ):
            try:
                f()
                c.violate("refused", "accepted")
            except ValueError:
                c.expect(True, "refused")


if __name__ == "__main__":
    raise SystemExit(check.main())
