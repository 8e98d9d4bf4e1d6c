"""C25 - objects have no hidden memory: histories of calls, other objects, callers' arrays, copies, threads."""
import contextlib
import copy
import io
import pickle
import threading

import matplotlib

matplotlib.use("Agg")
import numpy as np

from corrct import data_terms as dt
from corrct import filters, models, operators, param_tuning, projectors, regularizers, solvers, struct_illum
from corrct import physics as ph
from corrct.alignment import centering, cone_beam, fitting, shifts
from corrct.physics import attenuation, xrf
from rtm.core import Check
from rtm.sched import ThreadWatch, perturbed
from checks.c23 import trace
from checks.c24 import compare, flatten, img, ring, wobble

check = Check(
    "C25",
    "About 70 kinds of objects (operators, projectors, filters, data terms, regularizers, solvers, parameter tuning, geometries, attenuation volumes, materials, mask collections, ghost imaging, alignment): random histories of method calls "
    "on one object, interleaved with another object of the same kind, with the results already returned and the arrays given to the constructor overwritten, through copies and pickles, and from "
    "several threads. Every answer is compared with that of a fresh object. Non-trivial when at least two methods or inputs are interleaved.",
    scale=(12, 8),
)
OBJECTS = {}


class Spec:
    """make(**args) gives the object; methods: name -> f(object, inputs) -> results; kept: constructor arrays whose later changes must not matter."""

    def __init__(self, make, args, methods, kept=(), enter=False, pickles=True, keep_results=(), passes=False, atol=1e-7, rtol=1e-5):
        self.make, self.args, self.methods, self.kept, self.enter, self.pickles, self.keep_results = make, args, methods, tuple(kept), enter, pickles, keep_results
        self.atol, self.rtol, self.passes = atol, rtol, passes  # passes: handing back the input is the meaning of the object

    def new(self, args=None):
        with quiet():
            o = self.make(**(copy.deepcopy(self.args) if args is None else args))
            if self.enter:
                o.__enter__()
        return o

    def done(self, o):
        if self.enter:
            o.__exit__(None, None, None)

    def call(self, o, name):
        f, *inp = self.methods[name] if isinstance(self.methods[name], tuple) else (self.methods[name],)
        inp, before = copy.deepcopy(inp), inp
        np.random.seed(777)
        with quiet():
            out = f(o, *inp)
        given = [(a, b) for a, b in zip(before, inp) if isinstance(a, np.ndarray)]
        pure = all(np.array_equal(a, b) for a, b in given)
        alias = not self.passes and any(np.shares_memory(x, b) for x in arrays_in(out) for _, b in given)
        return out, pure, alias


def quiet():
    return contextlib.redirect_stdout(io.StringIO()) if threading.current_thread() is threading.main_thread() else contextlib.nullcontext()


def kind(name):
    def reg(f):
        OBJECTS[name] = f
        return f

    return reg


def scribble(o):
    """What a user may do with results: overwrite them."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in "fciub" and o.ndim:
            o[...] = np.asarray(77).astype(o.dtype)
    elif isinstance(o, (list, tuple)):
        for x in o:
            scribble(x)
    elif isinstance(o, dict):
        for x in o.values():
            scribble(x)


def arrays_in(o):
    return [a for a in flatten(o).values() if isinstance(a, np.ndarray)]


def op(x, y):
    """Methods of any linear operator."""
    return {
        "direct": (lambda o, x: o(x), x),
        "adjoint": (lambda o, y: o.T(y), y),
        "matvec": (lambda o, x: o @ x.ravel(), x),
        "rmatvec": (lambda o, y: o.rmatvec(y.ravel()), y),
        "direct-2": (lambda o, x: o(2 * x + 1), x),
        "transposed-twice": (lambda o, x: o.T.T(x), x),
    }


f32 = np.float32


# ---- operators ---------------------------------------------------------------------------------------------------------
@kind("TransformIdentity")
def _(r):
    x = img(r, 3, 4)
    return Spec(lambda: operators.TransformIdentity((3, 4)), {}, op(x, x.copy()), passes=True)


@kind("TransformDiagonalScaling")
def _(r):
    x = img(r, 3, 4)
    return Spec(lambda s: operators.TransformDiagonalScaling((3, 4), s), dict(s=img(r, 3, 4) - 0.5), {**op(x, x.copy()), "absolute": (lambda o, x: o.absolute()(x), x)}, kept=["s"])


@kind("TransformConvolution")
def _(r):
    k = img(r, 3, 3)
    mode = str(r.choice(["constant", "edge", "wrap", "reflect"]))
    x = img(r, 6, 7)
    symm = bool(r.random() < 0.5)
    m = {**op(x, img(r, 6, 7)), "absolute": (lambda o, x: o.absolute()(x), x)}
    flip = bool(r.random() < 0.5)
    return Spec(lambda k: operators.TransformConvolution((6, 7), k, pad_mode=mode, is_symm=symm, flip_adjoint=flip), dict(k=k - 0.4), m, kept=["k"], passes=not symm)


@kind("TransformDecimatedWavelet")
def _(r):
    s = (int(r.integers(7, 11)), 8)
    x = img(r, *s)
    o = operators.TransformDecimatedWavelet(s, "db2", 1)
    return Spec(lambda: operators.TransformDecimatedWavelet(s, "db2", 1), {}, op(x, img(r, *o.adj_shape)))


@kind("TransformStationaryWavelet")
def _(r):
    s = (int(r.integers(7, 11)), 8)
    x = img(r, *s)
    lev = int(r.integers(1, 3))
    norm = bool(r.random() < 0.5)
    mk = lambda: operators.TransformStationaryWavelet(s, "db1", lev, normalized=norm)
    return Spec(mk, {}, op(x, img(r, *mk().adj_shape)))


@kind("TransformGradient")
def _(r):
    x = img(r, 5, 6)
    mode = str(r.choice(["edge", "wrap", "constant"]))
    return Spec(lambda: operators.TransformGradient((5, 6), pad_mode=mode), {}, op(x, img(r, 2, 5, 6)))


@kind("TransformLaplacian")
def _(r):
    x = img(r, 5, 6)
    return Spec(lambda: operators.TransformLaplacian((5, 6)), {}, op(x, img(r, 5, 6)))


@kind("TransformFourier")
def _(r):
    x = img(r, 5, 6)
    return Spec(lambda: operators.TransformFourier((5, 6)), {}, op(x, img(r, 2, 5, 6)))


@kind("TransformSVD")
def _(r):
    a, b = img(r, 3, 4, 5), img(r, 3, 4, 5)

    def both(o, x):
        y = o(x)
        return [y.copy(), o.T(y)]

    return Spec(lambda: operators.TransformSVD((3, 4, 5)), {}, {"a": (both, a), "b": (both, b)}, atol=1e-4)


# ---- projectors --------------------------------------------------------------------------------------------------------
def mask_of(r, *s):
    return (r.random(s) < 0.5).astype(f32)


@kind("ProjectorMatrix")
def _(r):
    M = img(r, 12, 9) - 0.4
    x, y = img(r, 3, 3), img(r, 3, 4)
    m = {**op(x, y), "fp": (lambda o, x: o.fp(x), x), "bp": (lambda o, y: o.bp(y), y), "absolute": (lambda o, x: o.absolute()(x), x), "explicit": lambda o: o.explicit()}
    return Spec(lambda M: projectors.ProjectorMatrix(M, (3, 3), (3, 4)), dict(M=M), m)


@kind("ProjectorUncorrected")
def _(r):
    n, w = int(r.integers(5, 9)), 4
    x, y = img(r, n, n, dtype=f32), img(r, w, n, dtype=f32)
    args = dict(a=r.uniform(0, 3, w), i=None if r.random() < 0.3 else img(r, w), k=None if r.random() < 0.4 else np.array([0.2, 0.5, 0.3]))
    m = {
        **op(x, y),
        "fp": (lambda o, x: o.fp(x), x),
        "bp": (lambda o, y: o.bp(y), y),
        "fp_angle": (lambda o, x: o.fp_angle(x, 1), x),
        "bp_angle": (lambda o, y: o.bp_angle(y[2], 2), y),
        "fp_angle-last": (lambda o, x: o.fp_angle(x, w - 1), x),
    }
    mk = lambda a, i, k: projectors.ProjectorUncorrected((n, n), a, prj_intensities=i, psf=k, create_single_projs=True)
    return Spec(mk, args, m, kept=[k for k, v in args.items() if v is not None], enter=True, atol=1e-5)


@kind("ProjectorAttenuationXRF")
def _(r):
    n, w = int(r.integers(5, 8)), 4
    d = int(r.integers(1, 3))
    x, y = img(r, n, n, dtype=f32), img(r, *((d,) if d > 1 else ()), w, n, dtype=f32)
    symm, mt = bool(r.random() < 0.5), bool(r.random() < 0.5)
    args = dict(a=r.uniform(0, 3, w), i=img(r, w), k=np.array([0.2, 0.5, 0.3]), wd=img(r, d), wa=img(r, w, d), ad=r.uniform(0.5, 2, d), ai=img(r, n, n, hi=0.2, dtype=f32), ao=img(r, n, n, hi=0.2, dtype=f32))
    mk = lambda a, i, k, wd, wa, ad, ai, ao: projectors.ProjectorAttenuationXRF(
        (n, n), a, prj_intensities=i, psf=k, weights_detectors=wd, weights_angles=wa, angles_detectors_rad=ad, att_in=ai, att_out=ao, is_symmetric=symm, use_multithreading=mt, verbose=False
    )
    m = {
        "fp": (lambda o, x: o.fp(x), x),
        "bp": (lambda o, y: o.bp(y), y),
        "fp-2": (lambda o, x: o.fp(2 * x + 1), x),
        "fp_angle": (lambda o, x: o.fp_angle(x, 1), x),
        "bp_angle": (lambda o, y: o.bp_angle(y, 2), y),
        "direct": (lambda o, x: o(x), x),
        "adjoint": (lambda o, y: o.T(y), y),
    }
    return Spec(mk, args, m, kept=args, enter=True, pickles=False, atol=1e-5)


# ---- filters -----------------------------------------------------------------------------------------------------------
def filter_methods(r, n, real=True):
    m = {"a": (lambda o, b: o(b), img(r, 3, n, dtype=f32)), "b": (lambda o, b: o(b), img(r, 3, n, dtype=f32)), "stack": (lambda o, b: o(b), img(r, 2, 3, n, dtype=f32))}
    return m


@kind("FilterFBP")
def _(r):
    n = int(r.integers(5, 20))
    name = str(r.choice(["ramp", "hann", "cosine", "shepp-logan", "hamming"]))
    mode = str(r.choice(["constant", "edge"]))
    m = filter_methods(r, n)
    m["wider"] = (lambda o, b: o(b), img(r, 3, 3 * n + 1, dtype=f32))  # other sizes in between
    m["narrower"] = (lambda o, b: o(b), img(r, 2, 4, dtype=f32))
    return Spec(lambda: filters.FilterFBP(name, pad_mode=mode), {}, m)


@kind("FilterCustom")
def _(r):
    n = int(r.integers(9, 17))
    return Spec(lambda q: filters.FilterCustom(q), dict(q=img(r, 33 if n > 8 else 17, dtype=f32)), filter_methods(r, n), kept=["q"])


@kind("FilterMR")
def _(r):
    a = np.linspace(0, 3, 7)
    x = img(r, 7, 9, dtype=f32)
    m = {"a": (lambda o, b: o(b), x), "b": (lambda o, b: o(b), img(r, 7, 9, dtype=f32))}
    return Spec(lambda a: filters.FilterMR(projectors.ProjectorUncorrected((9, 9), a)), dict(a=a), m, atol=1e-3, rtol=1e-3)


# ---- data terms: the state is what was assigned last -------------------------------------------------------------------
def term_kind(name, mk, bg=True):
    @kind("DataFidelity_" + name)
    def _(r):
        b, x, p = img(r, 4, 5), img(r, 4, 5), img(r, 4, 5)

        def make(d, g):
            o = mk(g)
            o.assign_data(d, 0.7)
            return o

        def dual(o, x):
            q = o.initialize_dual()
            o.update_dual(q, x)
            o.apply_proximal_dual(q)
            return q

        def primal(o, x):
            y = x.copy()
            o.apply_proximal_primal(y, 0.3)
            return y

        def gap(o, x):
            q = o.initialize_dual()
            o.update_dual(q, x)
            o.apply_proximal_dual(q)
            return o.compute_primal_dual_gap(x, q)

        m = {
            "residual": (lambda o, x: o.compute_residual(x), x),
            "masked": (lambda o, x, k: o.compute_residual(x, mask=k), x, mask_of(r, 4, 5)),
            "norm": (lambda o, x: o.compute_residual_norm(o.compute_residual(x)), x),
            "dual": (dual, x),
            "dual-2": (dual, p),
            "sum": (lambda o, p: o.compute_data_dual_dot(p), p),
        }
        try:
            s = Spec(make, dict(d=b, g=img(r, 4, 5, hi=0.3) if bg and r.random() < 0.7 else None), m, kept=["d", "g"])
            for k, f in (("primal", primal), ("gap", gap)):
                try:
                    f(s.new(), x)
                    m[k] = (f, x)
                except NotImplementedError:
                    pass
            return s
        except TypeError:
            raise


term_kind("l2", lambda g: dt.DataFidelity_l2(background=g))
term_kind("wl2", lambda g: dt.DataFidelity_wl2(0.7, background=g))
term_kind("l2b", lambda g: dt.DataFidelity_l2b(0.05, background=g))
term_kind("Huber", lambda g: dt.DataFidelity_Huber(0.1, background=g))
term_kind("l1", lambda g: dt.DataFidelity_l1(background=g))
term_kind("l1b", lambda g: dt.DataFidelity_l1b(0.05, background=g))
term_kind("KL", lambda g: dt.DataFidelity_KL(background=g))


# ---- geometries --------------------------------------------------------------------------------------------------------
def geom_state(g):
    return [np.array(getattr(g, k)) for k in ("src_pos_xyz", "det_pos_xyz", "det_u_xyz", "det_v_xyz", "rot_dir_xyz", "pix2vox_ratio")] + [g.geom_type, None if g.det_shape_vu is None else np.array(g.det_shape_vu)]


def spoil(g):
    """Change a derived geometry, through its own methods."""
    before = geom_state(g)
    g.set_detector_shape_vu(3)
    g.set_detector_shifts_vu(np.ones((2, 1)))
    g.set_source_shifts_vu(np.ones((2, 1)))
    g.set_detector_tilt(0.3)
    return before


def geometry_methods(r, cone):
    s = r.uniform(-3, 3, (2, 1))
    a = r.uniform(0, 3, 4)
    m = {
        "state": lambda o: geom_state(o),
        "3d": lambda o: geom_state(o.get_3d()),
        "copy-changed": lambda o: spoil(o.copy()),
        "3d-changed": lambda o: spoil(o.get_3d()),
        "sliced-changed": lambda o: spoil(o[:1]),
        "rotated": (lambda o, a: geom_state(o.rotate(a)), a),
        "rotated-changed": (lambda o, a: spoil(o.rotate(a)), a),
        "scaled": lambda o: o.get_field_scaled("det_pos_xyz"),
        "displaced": (lambda o, d: o.rotate(np.array([0.3, 1.0])).project_displacement_to_detector(d), r.uniform(-1, 1, 3)),
        "weights": lambda o: o.get_pre_weights((4, 5)),
        "copy-shifted": (lambda o, s: (lambda g: [g.set_detector_shifts_vu(s), geom_state(g)])(o.copy())[1], s),
    }
    return m


@kind("ProjectionGeometry/parallel")
def _(r):
    c = float(r.uniform(-2, 2))
    return Spec(lambda: models.get_prj_geom_parallel(geom_type="3d", rot_axis_shift_pix=c), {}, geometry_methods(r, False))


@kind("ProjectionGeometry/cone")
def _(r):
    c, d = float(r.uniform(-2, 2)), float(r.uniform(20, 90))
    return Spec(lambda: models.get_prj_geom_cone(src_to_sam_dist=d, rot_axis_shift_pix=c), {}, geometry_methods(r, True))


@kind("VolumeGeometry")
def _(r):
    s = r.integers(2, 7, int(r.integers(2, 4)))
    m = {
        "shapes": lambda o: [np.array(o.shape_xyz), np.array(o.shape_zxy), np.array(o.mask_shape)],
        "extent": lambda o: list(o.extent),
        "kind": lambda o: [o.is_3D(), o.is_square()],
        "3d": lambda o: [np.array(o.get_3d().shape_xyz), o.get_3d().vox_size],
    }
    return Spec(lambda s: models.VolumeGeometry(s), dict(s=s), m)


@kind("ConeBeamGeometry")
def _(r):
    v = dict(zip(("theta_deg", "phi_deg", "eta_deg", "v0_pix", "u0_pix"), r.uniform(-3, 3, 5).tolist()))
    mk = lambda: cone_beam.ConeBeamGeometry(D_pix=700.0, R_pix=200.0, det_size_u_pix=8, det_size_v_pix=9, **v)
    d = float(r.uniform(-5, 5))
    m = {
        "fields": lambda o: dict(o.__dict__),
        "prj": lambda o: geom_state(o.get_prj_geom()),
        "prj-changed": lambda o: spoil(o.get_prj_geom()),
        "vol": lambda o: np.array(o.get_vol_geom(2).shape_xyz),
        "update": lambda o: dict(o.update("R_pix", d).__dict__),
        "tune": lambda o: [g.D_pix for g in o.get_tuning_params("D_pix", np.arange(3.0))],
        "json": lambda o: o.to_json(),
        "text": lambda o: str(o),
    }
    return Spec(mk, {}, m)


@kind("FitConeBeamGeometry")
def _(r):
    g = cone_beam.ConeBeamGeometry(D_pix=1000.0, R_pix=400.0, u0_pix=float(r.uniform(-9, 9)), v0_pix=float(r.uniform(-9, 9)), phi_deg=float(r.uniform(-5, 5)), eta_deg=float(r.uniform(-2, 2)))
    P = g.get_prj_geom(translate_z_to_center=False)
    w = np.arange(24) * 2 * np.pi / 24
    p = [trace(P, np.stack([50 * np.cos(w), 50 * np.sin(w), 0 * w + z], -1)) + 100 for z in (-40.0, 45.0)]
    m = {"fit": lambda o: dict(o.fit(50.0).__dict__), "fit-measured": lambda o: dict(o.fit(50.0, meas_D_pix=900.0).__dict__), "fit-r": lambda o: dict(o.fit(60.0).__dict__)}

    def mk(p):
        return cone_beam.FitConeBeamGeometry(np.array([200, 200]), points_ell1=p[0], points_ell2=p[1], plot_result=False, verbose=False)

    return Spec(mk, dict(p=p), m, kept=["p"], atol=1e-4)


@kind("Ellipse")
def _(r):
    a, b, c = 2.0, 0.3, 1.5
    u, v = r.uniform(-2, 2, 2)
    m = {"extremes": lambda o: list(o.extremes_u), "center": lambda o: np.array(o.center_vu), "parameters": lambda o: list(o.parameters), "call": (lambda o, t: o(t), r.uniform(-0.5, 0.5, 4) + u)}
    return Spec(lambda c_vu: fitting.Ellipse(a, b, c, u, v, c_vu), dict(c_vu=r.uniform(-2, 2, (2, 1))), m, keep_results=("center",))


# ---- physics -----------------------------------------------------------------------------------------------------------
@kind("AttenuationVolume")
def _(r):
    n = int(r.integers(5, 8))
    args = dict(ai=img(r, n, n, hi=0.3, dtype=f32), ao=img(r, n, n, hi=0.3, dtype=f32), a=r.uniform(0, 3, 3), d=r.uniform(0.5, 2, 2))
    mt = bool(r.random() < 0.5)

    def mk(ai, ao, a, d):
        o = attenuation.AttenuationVolume(ai, ao, a, d)
        o.compute_maps(use_multithreading=mt, verbose=False)
        return o

    def again(o):
        o.compute_maps(use_multithreading=not mt, verbose=False)
        return o.get_maps().copy()

    m = {
        "maps": lambda o: o.get_maps(),
        "one": lambda o: o.get_maps(rot_ind=1),
        "some": lambda o: o.get_maps(rot_ind=[2, 0], det_ind=[1]),
        "binned": lambda o: o.get_maps(binning=2),
        "args": lambda o: o.get_projector_args(det_ind=[0]),
        "again": again,
    }
    return Spec(mk, args, m, kept=["a", "d"], keep_results=("maps", "some", "one", "args"))


@kind("VolumeMaterial")
def _(r):
    fr = [img(r, 4, 5, dtype=f32), img(r, 4, 5, dtype=f32)]
    m = {
        "att": lambda o: o.get_attenuation(20.0),
        "att-2": lambda o: o.get_attenuation(12.0),
        "phase": lambda o: o.get_phase_shift(20.0),
        "mass": lambda o: o.get_element_mass_fraction("Fe"),
        "mass-Ca": lambda o: o.get_element_mass_fraction("Ca"),
        "compton": lambda o: list(o.get_compton_scattering(20.0, np.pi / 2)),
        "fluo": lambda o: list(o.get_fluo_production("Fe", 20.0, "KA1")),
    }
    return Spec(lambda fr: ph.VolumeMaterial(fr, ["Fe2O3", "CaCO3"], 1e-4), dict(fr=fr), m, kept=["fr"])


@kind("DetectorXRF")
def _(r):
    s, d, a = (float(v) for v in (r.uniform(1, 50), r.uniform(10, 60), r.uniform(0, 3)))
    return Spec(lambda: xrf.DetectorXRF(s, d, a), {}, {"angle": lambda o: o.solid_angle_sr, "range": lambda o: list(o.angle_range_rad)})


# ---- structured illumination -------------------------------------------------------------------------------------------
@kind("MaskCollection")
def _(r):
    m = {
        "one": lambda o: o.get_mask([1]).copy(),
        "enc": lambda o: np.array(o.masks_enc),
        "numbers": lambda o: [o.num_buckets, o.num_pixels],
        "qr": (lambda o, b: (lambda q: [q[0].masks_enc, q[1]])(o.get_qr_decomposition(b)), img(r, 4, dtype=np.float64)),
        "qr-shifted": (lambda o, b: (lambda q: [q[0].masks_enc, q[1]])(o.get_qr_decomposition(b, shift=2)), img(r, 4, dtype=np.float64)),
        "binned": lambda o: o.bin_masks(2).masks_enc,
        "info": lambda o: o.info() + o.upper() + o.lower(),
    }
    return Spec(lambda m: struct_illum.MaskCollection(m), dict(m=img(r, 4, 4, 4, dtype=np.float64)), m)


def generator_kind(name):
    @kind("MaskGenerator" + name)
    def _(r):
        cls = getattr(struct_illum, "MaskGenerator" + name)
        fov = 7 if name == "MURA" else (5, 6)
        m = {
            "all": lambda o: o.generate_collection(buckets_fraction=1).masks_enc,
            "half": lambda o: o.generate_collection(buckets_fraction=0.5).masks_enc,
            "random": lambda o: o.generate_collection(buckets_fraction=0.5, shift_type="random").masks_enc,
            "decoding": lambda o: o.generate_collection(buckets_fraction=1).masks_dec,
            "info": lambda o: o.info() + str(o.max_buckets) + str(o.num_pixels),
        }

        def mk():
            np.random.seed(4)
            return cls(fov)

        return Spec(mk, {}, m)


for _name in ("Point", "Bernoulli", "HalfGaussian", "MURA"):
    generator_kind(_name)


@kind("ProjectorGhostImaging")
def _(r):
    m = img(r, 9, 2, 3, dtype=np.float64) + np.eye(9, 6).reshape(9, 2, 3)
    x, b = img(r, 2, 3, dtype=np.float64), img(r, 9, dtype=np.float64)
    meth = {
        **{k: v for k, v in op(x, b).items()},
        "fp": (lambda o, x: o.fp(x), x),
        "bp": (lambda o, b: o.bp(b), b),
        "fbp": (lambda o, b: o.fbp(b), b),
        "fbp-corr": (lambda o, b: o.fbp(b, use_lstsq=False), b),
        "fbp-scaled": (lambda o, b: o.fbp(b, use_lstsq=False, adjust_scaling=True), b),
        "absolute": (lambda o, x: o.absolute().fp(x), x),
    }
    return Spec(lambda m: struct_illum.ProjectorGhostImaging(m, backend="numpy"), dict(m=m), meth, atol=1e-6)


# ---- alignment ---------------------------------------------------------------------------------------------------------
@kind("RecenterVolume")
def _(r):
    v = np.stack([f * ring(r, 14) for f in (0.1, 1.0, 0.3)])
    s = r.uniform(-1, 1, (2, 5))
    m = {
        "com": (lambda o, s, v: o.to_com(s, v, np.array([1.0, 6.0, 7.0])), s, v),
        "com-2": (lambda o, s, v: o.to_com(s, v, np.array([0.0, 3.0, 8.0])), s, v),
        "reference": (lambda o, s, v, w: o.as_reference(s, v, w), s, v, np.roll(v, 2, 2)),
        "reference-xc": (lambda o, s, v, w: o.as_reference(s, v, w, method="xc"), s, v, np.roll(v, 2, 1)),
    }
    return Spec(lambda a: centering.RecenterVolume(models.get_prj_geom_parallel(geom_type="3d"), a), dict(a=np.linspace(0, 3, 5)), m, kept=["a"])


@kind("DetectorShiftsXC")
def _(r):
    d, a = wobble(r)
    m = {
        "vu": lambda o: o.fit_vu(),
        "180": lambda o: o.fit_u_180(),
        "drift": (lambda o, d: o.fit_vu_accum_drifts(d), d.copy()),
        "find": (lambda o, d: o.find_shifts_vu(d[:, [0]], d[:, [3]]), d.copy()),
        "find-derivative": (lambda o, d: o.find_shifts_vu(d[:, [2]], d[:, [5]], use_derivative=True), d.copy()),
    }
    return Spec(lambda d, a: shifts.DetectorShiftsXC(d, a, verbose=False), dict(d=d, a=a), m, kept=["a"], atol=1e-6)


@kind("DetectorShiftsPRE")
def _(r):
    d, a = wobble(r)
    m = {"v": lambda o: o.fit_v(), "u": lambda o: o.fit_u(), "u-max": lambda o: o.fit_u(method="max"), "v-plain": lambda o: o.fit_v(use_derivative=False)}
    return Spec(lambda d, a: shifts.DetectorShiftsPRE(d, a, verbose=False), dict(d=d, a=a), m, kept=["a"], atol=1e-6)


# ---- regularizers: the state is the shape they were initialised with -----------------------------------------------------
def reg_kind(name, mk, shape=(6, 7), primal=False):
    @kind("Regularizer/" + name)
    def _(r):
        xs = [img(r, *shape), img(r, *shape)]
        w = float(10 ** r.uniform(-2, 0))

        def dual(o, x):
            o.initialize_sigma_tau(np.ones_like(x))
            q = o.initialize_dual()
            o.update_dual(q, x)
            o.apply_proximal_dual(q)
            return [np.array(q) if isinstance(q, np.ndarray) else list(q), o.compute_update_primal(q)]

        def norm(o, x):
            o.initialize_sigma_tau(np.ones_like(x))
            q = o.initialize_dual()
            o.update_dual(q, x)
            return [q]

        def prox(o, x):
            o.initialize_sigma_tau(np.ones_like(x))
            y = x.copy()
            o.apply_proximal_primal(y, 0.2)
            return y

        big = img(r, *[s + 2 for s in shape])
        m = {"dual": (dual, xs[0]), "dual-2": (dual, xs[1]), "larger": (dual, big), "update": (norm, xs[0]), "steps": (lambda o, x: o.initialize_sigma_tau(x), xs[0])}
        if primal:
            m["primal"] = (prox, xs[0])
            m["primal-larger"] = (prox, big)
        return Spec(lambda: mk(w), {}, m)


rz = regularizers
reg_kind("TV1D", lambda w: rz.Regularizer_TV1D(w))
reg_kind("TV2D", lambda w: rz.Regularizer_TV2D(w))
reg_kind("TV3D", lambda w: rz.Regularizer_TV3D(w), (3, 4, 5))
reg_kind("HubTV2D", lambda w: rz.Regularizer_HubTV2D(w, 0.1))
reg_kind("smooth2D", lambda w: rz.Regularizer_smooth2D(w))
reg_kind("lap2D", lambda w: rz.Regularizer_lap2D(w))
reg_kind("l1", lambda w: rz.Regularizer_l1(w), primal=True)
reg_kind("l1swl", lambda w: rz.Regularizer_l1swl(w, "db1", 1, ndims=2), (8, 6))
reg_kind("l1swl-normalized", lambda w: rz.Regularizer_l1swl(w, "db1", 1, ndims=2, normalized=True), (8, 6), primal=True)
reg_kind("l1dwl", lambda w: rz.Regularizer_l1dwl(w, "db1", 1, ndims=2), (8, 6), primal=True)
reg_kind("l1med", lambda w: rz.Regularizer_l1med(w))
reg_kind("fft", lambda w: rz.Regularizer_fft(w))
reg_kind("VTV", lambda w: rz.Regularizer_VTV(w), (2, 5, 6))
reg_kind("TNV", lambda w: rz.Regularizer_TNV(w), (2, 5, 6))
reg_kind("lnswl", lambda w: rz.Regularizer_lnswl(w, "db1", 1, ndims=2), (2, 8, 6))
reg_kind("lower", lambda w: rz.Constraint_LowerLimit(w), primal=True)
reg_kind("upper", lambda w: rz.Constraint_UpperLimit(w), primal=True)

# ---- parameter tuning and solvers ---------------------------------------------------------------------------------------
def tuned(o, M, mask=True):
    A = projectors.ProjectorMatrix(M, (3,), (10,))
    o.task_init_function = lambda w: solvers.PDHG(regularizer=regularizers.Regularizer_l1(w))
    if mask:
        o.task_exec_function = lambda s, b, b_test_mask=None: s(A, b, 8, b_test_mask=b_test_mask)
    else:
        o.task_exec_function = lambda s, b: s(A, b, 8)
    return o


@kind("CrossValidation")
def _(r):
    M, b, b2 = img(r, 10, 3), img(r, 10), img(r, 10)
    kfold, par = bool(r.random() < 0.5), int(r.choice([0, 3]))
    h, h2 = np.array([0.01, 0.1, 1.0]), np.array([1.0, 0.2])

    masks = [(np.arange(10) % 3 == i).astype(f32) for i in range(3)]  # the generated ones are random

    def mk(M):
        o = param_tuning.CrossValidation((10,), cv_fraction=None if kfold else 0.2, num_averages=3, parallel_eval=par)
        o.data_cv_masks = copy.deepcopy(masks)
        return tuned(o, M)

    run = lambda o, h, b: [np.array(v) for v in o.compute_loss_values(h, exec_fun_kwds=dict(b=b))]
    m = {
        "a": (run, h, b),
        "b": (run, h, b2),
        "other-values": (run, h2, b),
        "errors": (lambda o, h, b: list(o.compute_reconstruction_error(h, np.ones(3), exec_fun_kwds=dict(b=b))), h, b),
        "recs": (lambda o, h, b: o.process_hp_vals(h, exec_fun_kwds=dict(b=b))[0], h2, b),
        "fit": (lambda o, h, f: o.fit_loss_min(h, f), np.array([0.1, 1.0, 10.0]), np.array([2.0, 1.0, 3.0])),
    }
    return Spec(mk, dict(M=M), m, pickles=False)


@kind("LCurve")
def _(r):
    M, b, b2 = img(r, 10, 3), img(r, 10), img(r, 10)
    par = int(r.choice([0, 3]))
    h, h2 = np.array([0.01, 0.1, 1.0]), np.array([1.0, 0.2])
    run = lambda o, h, b: np.array(o.compute_loss_values(h, exec_fun_kwds=dict(b=b)))
    m = {
        "a": (run, h, b),
        "b": (run, h, b2),
        "other-values": (run, h2, b),
        "all": (lambda o, h, b: o.compute_loss_values(h, exec_fun_kwds=dict(b=b), return_all=True)[1], h2, b),
        "errors": (lambda o, h, b: list(o.compute_reconstruction_error(h, np.ones(3), exec_fun_kwds=dict(b=b))), h, b),
    }
    return Spec(lambda M: tuned(param_tuning.LCurve(lambda x: float(np.abs(x).sum()), parallel_eval=par), M, False), dict(M=M), m, pickles=False)


def solver_kind(name, mk, reg=True, limits=True):
    @kind("Solver/" + name)
    def _(r):
        M, b, b2 = img(r, 12, 9), img(r, 3, 4), img(r, 3, 4)
        M2, b3 = img(r, 8, 4), img(r, 8)
        A, A2 = projectors.ProjectorMatrix(M, (3, 3), (3, 4)), projectors.ProjectorMatrix(M2, (2, 2), (8,))
        bm, tm, xm, x0 = mask_of(r, 3, 4), mask_of(r, 3, 4), mask_of(r, 3, 3), img(r, 3, 3)
        bm.flat[:4], tm.flat[:4], xm.flat[0] = 1, 0, 1
        n = int(r.integers(2, 9))

        def run(kw):
            return lambda o, b, *a: [v if isinstance(v, np.ndarray) else (v.residuals, v.iterations) for v in o(A, b, n, **dict(zip(kw, a)))]

        m = {
            "a": (run(()), b),
            "b": (run(()), b2),
            "start": (run(("x0",)), b, x0),
            "data-mask": (run(("b_mask",)), b, bm),
            "solution-mask": (run(("x_mask",)), b2, xm),
            "other-operator": (lambda o, b: o(A2, b, n)[0], b3),
        }
        if name != "SART":
            m["test-mask"] = (run(("b_test_mask",)), b, tm)
        if limits:
            m["limits"] = (run(("lower_limit", "upper_limit")), b, np.array(0.1), np.array(0.4))
        return Spec(mk, {}, m)


solver_kind("SIRT", lambda: solvers.SIRT())
solver_kind("SIRT-smooth", lambda: solvers.SIRT(regularizer=regularizers.Regularizer_l1(0.1), data_term="l2"))
solver_kind("MLEM", lambda: solvers.MLEM())
solver_kind("PDHG", lambda: solvers.PDHG())
solver_kind("PDHG-KL", lambda: solvers.PDHG(data_term="kl", regularizer=regularizers.Regularizer_l1(0.1)))
solver_kind("PDHG-l1-test", lambda: solvers.PDHG(data_term="l1", data_term_test="l2"))
solver_kind("FISTA", lambda: solvers.FISTA())
solver_kind("FISTA-l1", lambda: solvers.FISTA(regularizer=regularizers.Regularizer_l1(0.1)))
solver_kind("PDHG-relaxed", lambda: solvers.PDHG(relaxation=0.9, tolerance=1e-3))

NAMES = list(OBJECTS)


def build(c):
    name = NAMES[c.idx % len(NAMES)]
    s = OBJECTS[name](c.rng)
    c.describe(object=name, methods=sorted(s.methods))
    return name, s


def answers(s):
    """The answer of each method on a fresh object."""
    out = {}
    for m in s.methods:
        o = s.new()
        try:
            out[m] = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in flatten(s.call(o, m)[0]).items()}
        finally:
            s.done(o)
    return out


@check.family("history", 2 * len(NAMES), 30 * len(NAMES), ["history-free", "inputs", "no-alias"])
def history(c):
    """A random history of calls on one object, and on another of its kind; results are overwritten by the caller."""
    name, s = build(c)
    other = OBJECTS[name](np.random.default_rng(int(c.rng.integers(1 << 30))))
    want, wanto = answers(s), answers(other)
    o, oo = s.new(), other.new()
    c.trivial = len(s.methods) < 2
    calls = []
    for _ in range(10):
        if c.rng.random() < 0.3:
            m = str(c.rng.choice(sorted(other.methods)))
            got, *_ = other.call(oo, m)
            compare(c, flatten(got), wanto[m], "history-free", f"{name}: {m} of another object, after {calls}", other.rtol, other.atol)
            calls.append("other." + m)
            continue
        m = str(c.rng.choice(sorted(s.methods)))
        got, pure, alias = s.call(o, m)
        c.expect(pure, "inputs", f"{name}.{m} modified its inputs")
        compare(c, flatten(got), want[m], "history-free", f"{name}: {m} after {calls}", s.rtol, s.atol)
        calls.append(m)
        c.expect(not alias, "no-alias", f"{name}.{m} returned (a part of) its input")
        if m not in s.keep_results:
            scribble(got)
    s.done(o)
    other.done(oo)
    c.describe(calls=calls)


KEPT = [n for n in NAMES if OBJECTS[n](np.random.default_rng(0)).kept]


@check.family("arguments", 4 * len(KEPT), 40 * len(KEPT), ["kept"])
def arguments(c):
    """The caller re-uses the arrays given to the constructor: the object keeps the values that it was given."""
    name = KEPT[c.idx % len(KEPT)]
    s = OBJECTS[name](c.rng)
    c.describe(object=name, kept=s.kept)
    want = answers(s)
    args = copy.deepcopy(s.args)
    o = s.new(args)
    if c.rng.random() < 0.5:
        s.call(o, str(c.rng.choice(sorted(s.methods))))
    for k in s.kept:
        scribble(args[k])
    if "again" in s.methods:
        s.methods.pop("again")
    for m in sorted(s.methods):
        compare(c, flatten(s.call(o, m)[0]), want[m], "kept", f"{name}: {m} after the caller overwrote {s.kept}", s.rtol, s.atol)
    s.done(o)


@check.family("copies", 2 * len(NAMES), 20 * len(NAMES), ["copy"])
def copies(c):
    """Deep copies and pickles answer as the original, before and after some use, and do not affect it."""
    name, s = build(c)
    if s.enter:
        s.enter = False
        if not s.pickles:
            c.trivial = True
            c.monitors["copy"] += 1
            return
    want = answers(s)
    o = s.new()
    for m in c.rng.choice(sorted(s.methods), int(c.rng.integers(0, 3))):
        s.call(o, str(m))
    for how, t in (("deepcopy", copy.deepcopy(o)), ("copy", copy.copy(o)), ("pickle", pickled(c, o))):
        if t is None:
            continue
        for m in sorted(s.methods):
            got, *_ = s.call(t, m)
            compare(c, flatten(got), want[m], "copy", f"{name}: {m} of a {how}", s.rtol, s.atol)
        m = str(c.rng.choice(sorted(s.methods)))
        compare(c, flatten(s.call(o, m)[0]), want[m], "copy", f"{name}: {m} of the original after using its {how}", s.rtol, s.atol)


def pickled(c, o):
    try:
        data = pickle.dumps(o)
    except (pickle.PicklingError, TypeError, AttributeError):
        c.event("not-picklable")
        return None
    return pickle.loads(data)


CONCURRENT = [n for n in NAMES if not n.startswith(("Regularizer/", "TransformSVD", "DataFidelity_", "FilterMR", "AttenuationVolume", "MaskGenerator", "FitCone", "CrossVal", "LCurve", "Solver"))]


@check.family("threads", len(CONCURRENT), 12 * len(CONCURRENT), ["concurrent", "threads-released"])
def threads(c):
    """Several callers use the same object at the same time."""
    name = CONCURRENT[c.idx % len(CONCURRENT)]
    s = OBJECTS[name](c.rng)
    for m in ("wider", "narrower"):  # a filter keeps (and shows) the one of the last size
        s.methods.pop(m, None)
    want = answers(s)
    o = s.new()
    plan = [[str(m) for m in c.rng.choice(sorted(s.methods), 6)] for _ in range(4)]
    got = [[] for _ in plan]
    errs = []

    def work(i):
        try:
            for m in plan[i]:
                got[i].append(flatten(s.call(o, m)[0]))
        except Exception as exc:  # noqa: BLE001
            errs.append(exc)

    with ThreadWatch() as tw, perturbed(int(c.rng.integers(1 << 30)), prob=0.1, max_s=0.0005) as ptb:
        th = [threading.Thread(target=work, args=(i,)) for i in range(len(plan))]
        [t.start() for t in th]
        [t.join() for t in th]
    s.done(o)
    for e in errs:
        raise e
    c.event("delays", ptb.delays)
    c.event("thread-switches", ptb.switches())
    c.describe(object=name, schedule=ptb.signature())
    for p, g in zip(plan, got):
        for m, x in zip(p, g):
            compare(c, x, want[m], "concurrent", f"{name}: {m} from one of several threads", s.rtol, s.atol)
    c.expect(not tw.leaked(), "threads-released", "threads left behind")


if __name__ == "__main__":
    raise SystemExit(check.main())
