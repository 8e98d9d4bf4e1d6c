"""C24 - calls mean the same however they are written: omitted options, memory layouts, read-only and repeated arguments."""
import contextlib
import copy
import dataclasses
import io
import zlib

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from corrct import data_terms as dt
from corrct import denoisers, filters, models, operators, param_tuning, projectors, solvers, struct_illum, testing
from corrct import physics as ph
from corrct import regularizers as rg
from corrct.alignment import centering, cone_beam, fitting, markers, shifts
from corrct.physics import attenuation, phase, units, xraylib_helper, xrf
from corrct.processing import misc, noise, post, pre
from rtm.core import Check

check = Check(
    "C24",
    "Every public function and most classes (about 130 entries), random arguments; each call is repeated with the documented value of every omitted option (one by one, and all together), with "
    "array arguments in other memory layouts (Fortran order, reversed and strided views, read-only), and with list instead of array arguments where they are documented. Non-trivial when the call has "
    "an array argument or a documented default.",
    scale=(8, 1),
)
ENTRIES = {}


def entry(name, rtol=1e-5, atol=0.0, layouts=True):
    def reg(f):
        ENTRIES[name] = (f, rtol, atol, layouts)
        return f

    return reg


class Call:
    """f(*args, **kw); `defaults` are the documented values of options which kw leaves out."""

    def __init__(self, f, *args, **kw):
        self.f, self.args, self.kw, self.defaults, self.post = f, list(args), kw, {}, None

    def default(self, **d):
        self.defaults.update(d)
        return self

    def then(self, post):
        self.post = post
        return self

    def run(self, args=None, kw=None, **extra):
        np.random.seed(12345)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            out = self.f(*(self.args if args is None else args), **{**(self.kw if kw is None else kw), **extra})
            if self.post is not None:
                out = self.post(out)
        plt.close("all")
        return flatten(out)


def flatten(o, path=""):
    if isinstance(o, dict):
        return {k: v for n, x in o.items() for k, v in flatten(x, f"{path}.{n}").items()}
    if isinstance(o, (list, tuple)):
        return {k: v for n, x in enumerate(o) for k, v in flatten(x, f"{path}[{n}]").items()}
    if isinstance(o, solvers.SolutionInfo):
        return flatten([o.residuals, o.iterations, o.residuals_cv, o.residual0], path + ".info")
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return flatten({k: getattr(o, k) for k in ("__dict__",)}["__dict__"] if hasattr(o, "__dict__") else str(o), path)
    if isinstance(o, np.ndarray) and o.dtype == object:
        return flatten(list(o.ravel()), path)
    if isinstance(o, (np.ndarray, np.generic, float, int, bool, complex)):
        return {path: np.asarray(o)}
    return {path: np.asarray(0 if o is None else len(str(type(o))))} if not isinstance(o, str) else {path: o}


def compare(c, got, want, monitor, msg, rtol, atol):
    if not c.expect(set(got) == set(want), monitor, f"{msg}: results {sorted(got)[:5]} != {sorted(want)[:5]}"):
        return
    for k, w in want.items():
        g = got[k]
        if isinstance(w, str) or isinstance(g, str):
            c.expect(g == w, monitor, f"{msg} {k}: {g} != {w}")
            continue
        if not c.expect(g.shape == w.shape and g.dtype.kind == w.dtype.kind, monitor, f"{msg} {k}: {g.shape} {g.dtype} != {w.shape} {w.dtype}"):
            continue
        if w.dtype.kind not in "fciub":
            continue
        g, w = g.astype(complex if w.dtype.kind == "c" else float), w.astype(complex if w.dtype.kind == "c" else float)
        nan = ~np.isfinite(w)
        if not c.expect(np.array_equal(nan, ~np.isfinite(g)), monitor, f"{msg} {k}: finite values differ"):
            continue
        g, w = np.where(nan, 0, g), np.where(nan, 0, w)
        if w.size:
            err, ref = float(np.abs(g - w).max()), float(np.abs(w).max())
            c.expect(err <= atol + rtol * ref, monitor, f"{msg} {k}: difference {err:.3g} (scale {ref:.3g})")


def relayout(x, how, rng):
    if isinstance(x, np.ndarray) and x.ndim:
        if how == "fortran":
            return np.asfortranarray(x)
        if how == "reversed":
            return np.ascontiguousarray(x[(slice(None, None, -1),) * x.ndim])[(slice(None, None, -1),) * x.ndim]
        if how == "strided":
            big = np.full([2 * s for s in x.shape], 77, x.dtype)
            v = big[(slice(1, None, 2),) * x.ndim]
            v[...] = x
            return v
        if how == "readonly":
            y = x.copy()
            y.flags.writeable = False
            return y
        return x.copy()
    if isinstance(x, list):
        return [relayout(y, how, rng) for y in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(relayout(y, how, rng) for y in x)
    return x


def has_array(x):
    return (isinstance(x, np.ndarray) and x.ndim > 0) or (isinstance(x, (list, tuple)) and any(has_array(y) for y in x))


def same_value(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return True


def img(rng, *shape, lo=0.1, hi=1.0, dtype=None):
    if dtype is None:
        dtype = [np.float32, np.float64][int(rng.integers(2))]
    return rng.uniform(lo, hi, shape).astype(dtype)


# ---- processing ----------------------------------------------------------------------------------------------------
@entry("pre.pad_sinogram")
def _(r):
    return Call(pre.pad_sinogram, img(r, 5, 8), int(r.integers(9, 20))).default(pad_axis=-1, mode="edge")


@entry("pre.apply_flat_field")
def _(r):
    return Call(pre.apply_flat_field, img(r, 4, 5, 6), img(r, int(r.integers(1, 4)), 5, 6, lo=2, hi=3)).default(darks_wvu=None, crop=None, cap_intensity=None, dtype=np.float32)


@entry("pre.apply_flat_field/dark")
def _(r):
    return Call(pre.apply_flat_field, img(r, 4, 5, 6, lo=0.2), img(r, 1, 5, 6, lo=2, hi=3), img(r, 2, 5, 6, hi=0.12)).default(crop=None, cap_intensity=None, dtype=np.float32)


@entry("pre.apply_minus_log")
def _(r):
    return Call(pre.apply_minus_log, img(r, 4, 5, hi=2)).default(lower_limit=-np.inf)


@entry("pre.rotate_proj_stack", rtol=1e-4)
def _(r):
    return Call(pre.rotate_proj_stack, img(r, 7, 3, 8), float(r.uniform(-20, 20)))


@entry("pre.shift_proj_stack", rtol=1e-4)
def _(r):
    return Call(pre.shift_proj_stack, img(r, 7, 3, 8), r.uniform(-2, 2, (2, 3))).default(use_fft=False)


@entry("pre.shift_proj_stack/fft", rtol=1e-4)
def _(r):
    return Call(pre.shift_proj_stack, img(r, 7, 3, 8), r.uniform(-2, 2, (2, 3)), use_fft=True)


@entry("pre.bin_imgs", rtol=1e-5)
def _(r):
    return Call(pre.bin_imgs, img(r, 3, 8, 12), [2, 4, 2.0, 1.6][int(r.integers(4))]).default(axes=(-2, -1), auto_crop=False, verbose=True)


@entry("pre.background_from_margin")
def _(r):
    return Call(pre.background_from_margin, img(r, 5, 4, 16)).default(margin=4, poly_order=0, plot=False)


@entry("pre.background_from_margin/poly", rtol=1e-4)
def _(r):
    return Call(pre.background_from_margin, img(r, 5, 4, 16), poly_order=1).default(margin=4, plot=False)


@entry("pre.snip")
def _(r):
    n = int(r.integers(1, 3))
    return Call(pre.snip, img(r, *([12, 9][:n]), dtype=np.float64), iterations=int(r.integers(1, 6))).default(kernel_dims=n, window=3, verbose=False)


@entry("pre.snip/iterations")
def _(r):
    return Call(pre.snip, img(r, 12, dtype=np.float64)).default(kernel_dims=None, iterations=1000, window=3, verbose=False)


@entry("pre.background_from_snip")
def _(r):
    return Call(pre.background_from_snip, img(r, 6, 3, 9)).default(snip_iterations=6, smooth_std=None, verbose=False)


@entry("pre.destripe_wlf_vwu", rtol=1e-4)
def _(r):
    return Call(pre.destripe_wlf_vwu, img(r, 16, 12, dtype=np.float32)).default(sigma=0.005, level=1, wavelet="bior2.2", angle_axis=-2, other_axes=None)


@entry("pre.compute_eigen_flats", rtol=1e-3)
def _(r):
    return Call(pre.compute_eigen_flats, img(r, 7, 5, 6), img(r, 4, 5, 6, lo=2, hi=3)).default(darks_wvu=None, ndim=2, plot=False)


@entry("post.com")
def _(r):
    return Call(post.com, img(r, 4, 5, 6)).default(axes=None)


@entry("post.power_spectrum", rtol=1e-4)
def _(r):
    return Call(post.power_spectrum, img(r, 20, 24)).default(axes=None, smooth=5, taper_ratio=0.05, power=2)


@entry("post.compute_frc", rtol=1e-4)
def _(r):
    a = img(r, 20, 24)
    return Call(post.compute_frc, a, a + img(r, 20, 24).astype(a.dtype)).default(snrt=0.2071, axes=None, smooth=5, taper_ratio=0.05, supersampling=1, theo_threshold=True)


@entry("post.plot_frcs", rtol=1e-4)
def _(r):
    a = img(r, 20, 24)
    cl = Call(post.plot_frcs, [(a, a + img(r, 20, 24).astype(a.dtype))], ["A"]).default(title=None, smooth=5, snrt=0.2071, axes=None, taper_ratio=0.05, supersampling=1, verbose=False)
    return cl.then(lambda o: [l.get_ydata() for l in o[1].get_lines()])


@entry("post.estimate_resolution")
def _(r):
    return Call(post.estimate_resolution, np.linspace(1, 0, 12) + 0.02 * r.random(12), np.linspace(0.3, 0.25, 12))


@entry("post.bias_variance")
def _(r):
    return Call(post.compute_reconstruction_bias_variance_maps, img(r, 5, 6, dtype=np.float64), img(r, 4, 5, 6, dtype=np.float64)).default(realizations_axis=0)


@entry("post.fit_scale_bias", rtol=1e-4)
def _(r):
    a = img(r, 6, 7, dtype=np.float64)
    return Call(post.fit_scale_bias, a, 2 * a + 0.3 + 0.01 * r.random((6, 7))).default(prj=None)


@entry("noise.compute_variance_poisson")
def _(r):
    return Call(noise.compute_variance_poisson, img(r, 4, 5, hi=100)).default(I0=None, var_I0=None, normalized=True)


@entry("noise.compute_variance_poisson/I0")
def _(r):
    return Call(noise.compute_variance_poisson, img(r, 4, 5, hi=100), img(r, 4, 5, lo=100, hi=300)).default(var_I0=None, normalized=True)


@entry("noise.compute_variance_transmission")
def _(r):
    return Call(noise.compute_variance_transmission, img(r, 4, 5, lo=1, hi=100), img(r, 4, 5, lo=100, hi=300)).default(var_I0=None, normalized=True)


@entry("noise.compute_variance_weight")
def _(r):
    return Call(noise.compute_variance_weight, img(r, 40, 40)).default(percentile=0.001, mask=None, normalized=False, use_std=False, semilog=False)


@entry("noise.compute_variance_weight/mask")
def _(r):
    return Call(noise.compute_variance_weight, img(r, 40, 40), mask=(r.random((40, 40)) < 0.8).astype(np.float32)).default(percentile=0.001, normalized=False, use_std=False, semilog=False)


@entry("misc.circular_mask")
def _(r):
    return Call(misc.circular_mask, tuple(int(x) for x in r.integers(5, 12, int(r.integers(2, 4))))).default(
        radius_offset=0, coords_ball=None, ball_norm=2, vol_origin_zxy=None, taper_target="edge", super_sampling=1, squeeze=True, dtype=np.float32
    )


@entry("misc.circular_mask/taper")
def _(r):
    return Call(misc.circular_mask, (9, 10), taper_func="cos", radius_offset=-1).default(taper_target="edge", super_sampling=1)


@entry("misc.ball")
def _(r):
    return Call(misc.ball, (9, 10), float(r.uniform(1, 4))).default(super_sampling=5, dtype=np.float32, func=None)


@entry("misc.azimuthal_integration")
def _(r):
    return Call(misc.azimuthal_integration, img(r, 3, 9, 10)).default(axes=(-2, -1), domain="direct")


@entry("misc.lines_intersection")
def _(r):
    a = np.linspace(0, 3, 8)
    return Call(misc.lines_intersection, a + 0.3 * r.random(8), np.full(8, 1.6)).default(position="first", x_lims=None)


@entry("misc.norm_cross_corr", rtol=1e-4)
def _(r):
    a = img(r, 9, 10, dtype=np.float64)
    return Call(misc.norm_cross_corr, a, plot=False).default(img2=a, axes=(-2, -1), t_match=False, mode_full=True, compute_profile=True)


# ---- noise, phantoms -------------------------------------------------------------------------------------------------
@entry("testing.add_noise", rtol=1e-4)
def _(r):
    return Call(testing.add_noise, img(r, 6, 7), float(r.uniform(10, 1000)), add_poisson=bool(r.random() < 0.5)).default(
        readout_noise_std=None, background_avg=None, background_std=None, detection_efficiency=1.0, dtype=np.float32
    )


@entry("testing.add_noise/clean", rtol=1e-4)
def _(r):
    return Call(testing.add_noise, img(r, 6, 7), float(r.uniform(10, 1000)), readout_noise_std=float(r.uniform(0, 2))).default(add_poisson=False, background_avg=None, background_std=None, detection_efficiency=1.0, dtype=np.float32)


@entry("testing.create_sino", rtol=1e-4)
def _(r):
    return Call(testing.create_sino, img(r, 8, 8, dtype=np.float32), int(r.integers(2, 6))).default(
        start_angle_deg=0.0, end_angle_deg=180.0, dwell_time_s=1.0, photon_flux=1e9, detectors_pos_rad=np.pi / 2, vol_att_in=None, vol_att_out=None, psf=None, background_avg=None,
        background_std=None, add_poisson=False, readout_noise_std=None, dtype=np.float32,
    )


@entry("testing.create_sino_transmission", rtol=1e-4)
def _(r):
    return Call(testing.create_sino_transmission, img(r, 8, 8, dtype=np.float32), int(r.integers(2, 6))).default(
        start_angle_deg=0, end_angle_deg=180, dwell_time_s=1, photon_flux=1e9, psf=None, add_poisson=False, readout_noise_std=None, dtype=np.float32
    )


@entry("testing.phantom_assign_concentration", rtol=1e-4)
def _(r):
    v = np.zeros((6, 6), np.float32)
    v[2:5, 1:4] = r.integers(1, 8, (3, 3))
    return Call(testing.phantom_assign_concentration, v).default(element="Ca", em_line="KA", in_energy_keV=20.0, voxel_size_um=0.5)


@entry("testing.phantom_assign_concentration_multi", rtol=1e-4)
def _(r):
    v = np.zeros((6, 6), np.float32)
    v[2:5, 1:4] = r.integers(1, 8, (3, 3))
    return Call(testing.phantom_assign_concentration_multi, v).default(elements=("Ca", "Fe"), em_lines="KA", in_energy_keV=20.0, detectors_pos_rad=None)


@entry("testing.roundup_to_pow2")
def _(r):
    return Call(testing.roundup_to_pow2, img(r, 5, hi=100), int(r.integers(0, 4))).default(dtype=int)


@entry("testing.compute_error_power")
def _(r):
    return Call(testing.compute_error_power, img(r, 5, 6), img(r, 5, 6))


# ---- alignment -------------------------------------------------------------------------------------------------------
def moved(r, n=18, k=2):
    base = np.zeros((n, n))
    for _ in range(k):
        y, x = r.uniform(5, n - 5, 2)
        g = np.mgrid[:n, :n]
        base += r.uniform(0.5, 1) * np.exp(-((g[0] - y) ** 2 + (g[1] - x) ** 2) / 6)
    return base + 0.01


@entry("fitting.fit_shifts_u_sad", atol=0.011)
def _(r):
    a = np.stack([moved(r)[5] for _ in range(2)])
    a = np.concatenate([a, np.zeros((2, 30))], axis=1)
    return Call(fitting.fit_shifts_u_sad, a, np.roll(a, int(r.integers(-3, 4)), -1)).default(search_range=16, pad_u=False, error_norm=1, decimals=2)


@entry("fitting.fit_shifts_vu_xc", atol=0.011)
def _(r):
    a = moved(r)
    return Call(fitting.fit_shifts_vu_xc, np.stack([a, a], -2), np.stack([np.roll(a, 2, 0), np.roll(a, -1, 1)], -2)).default(
        pad_u=False, normalize_fourier=False, margin=0, use_rfft=True, stack_axis=-2, decimals=2
    )


@entry("fitting.fit_shifts_zyx_xc", atol=0.011)
def _(r):
    v = np.stack([moved(r, 10, 1) * w for w in (0.1, 0.4, 1, 0.3, 0.1, 0.02)])
    return Call(fitting.fit_shifts_zyx_xc, v, np.roll(v, (1, -1), (1, 2))).default(pad_zyx=False, normalize_fourier=True, use_rfft=True, decimals=2)


@entry("fitting.fit_image_rotation_and_scale", rtol=1e-3, atol=1e-6)
def _(r):
    a = moved(r, 24, 4)
    return Call(fitting.fit_image_rotation_and_scale, a, np.rot90(a).copy()).default(pad_mode=None, window_type="hann", verbose=False)


@entry("fitting.fit_camera_tilt_angle", rtol=1e-2, atol=1e-3)
def _(r):
    a = moved(r, 20, 3) + 0.1 * r.random((20, 20))  # texture in every row: the correlation of flat rows has no maximum
    return Call(fitting.fit_camera_tilt_angle, a, np.roll(a, int(r.integers(-3, 4)), 1)).default(pad_u=False, fit_l1=True, verbose=False)


@entry("fitting.fit_sinusoid", rtol=1e-4, atol=1e-4)
def _(r):
    t = np.sort(r.uniform(0, 6, 14))
    return Call(fitting.fit_sinusoid, t, 3 * np.sin(t + 1) + 2 + 0.1 * r.random(14)).default(fit_l1=False)


@entry("fitting.extract_peak_regions_1d")
def _(r):
    return Call(fitting.extract_peak_regions_1d, img(r, 4, 11)).default(axis=-1, peak_radius=1, cc_coords=None)


@entry("fitting.refine_max_position_1d", atol=0.011)
def _(r):
    v = img(r, 3, 5)
    v[1] = 2 + v[1]
    return Call(fitting.refine_max_position_1d, v).default(f_x=None, return_vertex_val=False, decimals=2)


@entry("fitting.extract_peak_region_nd")
def _(r):
    return Call(fitting.extract_peak_region_nd, img(r, 7, 8)).default(peak_radius=1, cc_coords=None)


@entry("fitting.refine_max_position_2d", rtol=1e-4)
def _(r):
    v = img(r, 3, 3)
    v[1, 1] += 2
    return Call(fitting.refine_max_position_2d, v).default(fy=None, fx=None)


@entry("fitting.fit_parabola_min", atol=0.011)
def _(r):
    x = np.linspace(-2, 2, 9)
    return Call(fitting.fit_parabola_min, x, (x - r.uniform(-1, 1)) ** 2 + 0.01 * r.random(9)).default(decimals=2)


def ring(r, n=20):
    t = np.arange(n) * 2 * np.pi / n + 0.1
    return np.stack([4 * np.sin(t + 0.3) + 3, 9 * np.cos(t) - 2]) + 0.01 * r.random((2, n))


@entry("fitting.fit_ellipse_center", atol=0.011)
def _(r):
    return Call(fitting.fit_ellipse_center, ring(r)).default(rescale=True, use_l1_norm=False, decimals=2)


@entry("fitting.fit_ellipse_parameters", rtol=1e-4)
def _(r):
    return Call(fitting.fit_ellipse_parameters, ring(r)).default(rescale=True, use_l1_norm=False)


@entry("fitting.fit_ellipse", rtol=1e-4, atol=0.011)
def _(r):
    return Call(fitting.fit_ellipse, ring(r)).default(rescale=True, use_l1_norm=False).then(lambda e: [e.parameters, e.center_vu])


@entry("markers.create_marker_disk")
def _(r):
    return Call(markers.create_marker_disk, tuple(int(x) for x in r.integers(8, 15, 2)), float(r.uniform(1.5, 3))).default(super_sampling=5, conv=True)


@entry("markers.track_marker", atol=0.011)
def _(r):
    d = markers.create_marker_disk((17, 18), 2.5)
    return Call(markers.track_marker, np.stack([np.roll(d, 2, 0), np.roll(d, -3, 1)], -2), d).default(stack_axis=-2)


def wobble(r, nw=12):
    a = np.linspace(0, np.pi, nw)
    u = np.arange(26) - 12.5
    p = np.exp(-((u[None] - (2.5 + 5 * np.cos(a))[:, None]) ** 2) / 5)
    v = np.exp(-((np.arange(9)[:, None] - 4 - 0.6 * r.standard_normal(nw)) ** 2) / 4)
    return (v[:, :, None] * p[None]).astype(np.float32), a


@entry("shifts.PRE.fit_v", atol=0.011)
def _(r):
    d, a = wobble(r)
    f = lambda d, a, data_mask_dvwu=None, max_shifts=None, precision_decimals=2, data_format="dvwu", **k: shifts.DetectorShiftsPRE(
        d, a, verbose=False, data_mask_dvwu=data_mask_dvwu, max_shifts=max_shifts, precision_decimals=precision_decimals, data_format=data_format
    ).fit_v(**k)
    return Call(f, d, a).default(use_derivative=True, use_rfft=True, normalize_fourier=True)


@entry("shifts.PRE.fit_u", atol=0.011)
def _(r):
    d, a = wobble(r)
    f = lambda d, a, **k: shifts.DetectorShiftsPRE(d, a, verbose=False).fit_u(**k)
    return Call(f, d, a).default(fit_l1=False, background=None, method="com")


@entry("shifts.XC.init", atol=0.011)
def _(r):
    d, a = wobble(r)
    f = lambda d, a, **k: shifts.DetectorShiftsXC(d, a, **{"verbose": False, **k}).fit_vu()
    return Call(f, d, a).default(data_format="dvwu", data_mask_dvwu=None, borders_dvwu={"d": None, "v": None, "w": None, "u": None}, max_shifts=None, precision_decimals=2)


@entry("shifts.XC.find", atol=0.011)
def _(r):
    d, a = wobble(r)
    f = lambda d, a, **k: shifts.DetectorShiftsXC(d, a, verbose=False).find_shifts_vu(d[:, [0]], d[:, [3]], **k)
    return Call(f, d, a).default(use_derivative=False, xc_opts=dict(normalize_fourier=False))


@entry("shifts.XC.180", atol=0.011)
def _(r):
    d, a = wobble(r)
    f = lambda d, a: shifts.DetectorShiftsXC(d, a, verbose=False).fit_u_180()
    return Call(f, d, a)


@entry("centering", rtol=1e-4, atol=0.011)
def _(r):
    v = np.zeros((8, 8), np.float32)
    v[2:5, 3:7] = r.uniform(0.5, 1, (3, 4))

    def f(s, v, w, method="com", **k):
        return centering.RecenterVolume(models.get_prj_geom_parallel(geom_type="3d"), np.linspace(0, 3, 5), **k).as_reference(s, v, w, method=method)

    v = np.stack([0.1 * v, v, 0.3 * v])
    return Call(f, r.uniform(-1, 1, (2, 5)), v, np.roll(v, 1, 2)).default(method="com", precision=2)


@entry("cone.update")
def _(r):
    g = lambda **k: cone_beam.ConeBeamGeometry(D_pix=700.0, R_pix=200.0, eta_deg=1.0, det_size_u_pix=8, det_size_v_pix=9).update("R_pix", 1.23456, **k)
    return Call(g).default(is_relative=True, decimals=3)


@entry("cone.tuning")
def _(r):
    g = lambda v, **k: cone_beam.ConeBeamGeometry(D_pix=700.0, R_pix=200.0, eta_deg=1.0, det_size_u_pix=8, det_size_v_pix=9).get_tuning_params("R_pix", v, **k)
    return Call(g, r.uniform(-3, 3, 4)).default(is_relative=True)


@entry("cone.geometry")
def _(r):
    e = float(r.uniform(-5, 5))
    g = lambda **k: cone_beam.ConeBeamGeometry(D_pix=700.0, R_pix=200.0, eta_deg=e, v0_pix=3.0, u0_pix=1.0, det_size_u_pix=8, det_size_v_pix=9).get_prj_geom(**k)
    return Call(g).default(translate_z_to_center=True)


@entry("cone.volume")
def _(r):
    g = lambda **k: cone_beam.ConeBeamGeometry(D_pix=700.0, R_pix=200.0, det_size_u_pix=8, det_size_v_pix=9).get_vol_geom(**k)
    return Call(g).default(up_sampling=1)


# ---- models ----------------------------------------------------------------------------------------------------------
@entry("models.get_prj_geom_parallel")
def _(r):
    return Call(models.get_prj_geom_parallel, rot_axis_shift_pix=float(r.uniform(-2, 2))).default(rot_axis_dir="clockwise", data_shape=None, data_format="dvwu")


@entry("models.get_prj_geom_parallel/plain")
def _(r):
    return Call(models.get_prj_geom_parallel, geom_type=str(r.choice(["2d", "3d", "parallel2d", "parallel3d"]))).default(rot_axis_shift_pix=None, rot_axis_dir="clockwise", data_shape=None, data_format="dvwu")


@entry("models.get_prj_geom_cone")
def _(r):
    return Call(models.get_prj_geom_cone, src_to_sam_dist=float(r.uniform(20, 90)), rot_axis_shift_pix=float(r.uniform(-2, 2))).default(rot_axis_dir="clockwise", data_shape=None, data_format="dvwu")


@entry("models.get_vol_geom_from_data")
def _(r):
    return Call(models.get_vol_geom_from_data, img(r, *[int(x) for x in r.integers(2, 6, 3)])).default(padding_u=0, data_format="dvwu", super_sampling=1)


@entry("models.get_vol_geom_from_volume")
def _(r):
    return Call(models.get_vol_geom_from_volume, img(r, *[int(x) for x in r.integers(2, 6, 3)]))


@entry("models.set_detector_shifts_vu")
def _(r):
    def f(s, **k):
        g = models.get_prj_geom_parallel()
        g.set_detector_shifts_vu(s, **k)
        return g

    return Call(f, r.uniform(-3, 3, (2, 5))).default(cor_pos_u=None, det_dist_y=0.0)


@entry("models.set_detector_tilt")
def _(r):
    t = float(r.uniform(-0.5, 0.5))

    def f(**k):
        g = models.get_prj_geom_cone(src_to_sam_dist=50.0)
        g.set_detector_tilt(t, **k)
        return g

    return Call(f).default(tilt_axis=(0, 1, 0), tilt_source=False)


@entry("models.rotate")
def _(r):
    f = lambda a, **k: models.get_prj_geom_cone(src_to_sam_dist=50.0).rotate(a, **k)
    return Call(f, r.uniform(0, 3, 5)).default(patch_astra_2d=False)


@entry("models.VolumeGeometry")
def _(r):
    return Call(models.VolumeGeometry, np.array([4, 5, 6])).default(vox_size=1.0)


# ---- physics ---------------------------------------------------------------------------------------------------------
@entry("units.energy_to_wlength")
def _(r):
    return Call(units.energy_to_wlength, r.uniform(5, 50, 4) if r.random() < 0.5 else float(r.uniform(5, 50))).default(unit_wl="m", unit_en="keV")


@entry("units.wlength_to_energy")
def _(r):
    return Call(units.wlength_to_energy, float(r.uniform(1e-11, 1e-10))).default(unit_wl="m", unit_en="keV")


@entry("xrf.get_radiation_rate")
def _(r):
    return Call(xrf.get_radiation_rate, "Fe", ph.FluoLinesSiegbahn.get_lines("KA")).default(verbose=False)


@entry("xrf.get_energy")
def _(r):
    return Call(xrf.get_energy, "Fe", ph.FluoLinesSiegbahn.get_lines("KA")).default(compute_average=False, verbose=False)


@entry("xrf.DetectorXRF")
def _(r):
    return Call(xrf.DetectorXRF).default(surface_mm2=0.0, distance_mm=1.0, angle_rad=np.pi / 2).then(lambda d: [d.surface_mm2, d.distance_mm, d.angle_rad, d.solid_angle_sr])


@entry("attenuation.coefficient")
def _(r):
    return Call(attenuation.get_linear_attenuation_coefficient, "Fe2O3", 20.0, 1.5).default(density=None)


@entry("xraylib.get_compound")
def _(r):
    return Call(xraylib_helper.get_compound, "CaCO3").default(density=None)


@entry("attenuation.plot_emission_line", rtol=1e-4)
def _(r):
    c = Call(attenuation.plot_emission_line_attenuation, "Fe2O3", 10.0, 30.0, 2.0).default(line_shape="lorentzian", num_points=201, plot_lines_mean=True)
    return c.then(lambda o: [l.get_ydata() for a in plt.gcf().axes for l in a.get_lines()])


@entry("attenuation.plot_transmittance_decay", rtol=1e-4)
def _(r):
    c = Call(attenuation.plot_transmittance_decay, "Fe2O3", 20.0).default(thickness_range_um=(0.0, 10.0, 101))
    return c.then(lambda o: [l.get_ydata() for a in plt.gcf().axes for l in a.get_lines()])


@entry("phase.get_delta_beta")
def _(r):
    return Call(phase.get_delta_beta, "Fe2O3", 20.0).default(density=None)


@entry("phase.get_delta_beta_curves", rtol=1e-4)
def _(r):
    return Call(phase.get_delta_beta_curves, ["Fe2O3"], plot=False).default(energy_keV_range=(1, 800, 500))


@entry("phase.get_propagation_filter", rtol=1e-4)
def _(r):
    return Call(phase.get_propagation_filter, (8, 9), 1.0, float(r.uniform(1e3, 1e5)), 5e-5, float(r.uniform(10, 500))).default(filter_type="ctf", use_rfft=False, plot_result=False, dtype=np.float32)


@entry("phase.apply_propagation_filter", rtol=1e-4)
def _(r):
    return Call(phase.apply_propagation_filter, img(r, 3, 8, 9), 1.0, float(r.uniform(1e3, 1e5)), 5e-5, float(r.uniform(10, 500))).default(filter_type="tie")


@entry("attenuation.AttenuationVolume", rtol=1e-4)
def _(r):
    def f(a, b, ang, angles_det_rad=np.pi / 2, emitted_sub_sampling=1, dtype=np.float32, **k):
        v = attenuation.AttenuationVolume(a, b, ang, angles_det_rad=angles_det_rad, emitted_sub_sampling=emitted_sub_sampling, dtype=dtype)
        v.compute_maps(**{"verbose": False, **k})
        return v.get_maps()

    return Call(f, img(r, 6, 6, hi=0.2, dtype=np.float32), img(r, 6, 6, hi=0.2, dtype=np.float32), r.uniform(0, 3, 3)).default(angles_det_rad=np.pi / 2, emitted_sub_sampling=1, dtype=np.float32, use_multithreading=True)


@entry("materials.VolumeMaterial", rtol=1e-4)
def _(r):
    f = lambda fr, **k: ph.VolumeMaterial(fr, ["Fe2O3", "CaCO3"], 1e-4, **k).get_attenuation(20.0)
    return Call(f, [img(r, 4, 5, dtype=np.float32), img(r, 4, 5, dtype=np.float32)]).default(dtype=None, verbose=False)


@entry("physics.pencil_beam_profile")
def _(r):
    return Call(ph.pencil_beam_profile, float(r.uniform(0.5, 2)), float(r.uniform(0.5, 3)), 2 * int(r.integers(0, 4)) + 1).default(beam_shape="gaussian", verbose=False)


@entry("xraylib.compounds", layouts=False)
def _(r):
    name, e = str(r.choice(["H2O", "CaCO3", "Fe2O3", "SiO2"])), float(r.uniform(5, 60))
    z = int(r.integers(1, 60))

    def f(name, z):
        c = xraylib_helper.get_compound(name)
        s, n = xraylib_helper.get_element_number_and_symbol(z)
        return [xraylib_helper.get_compound_cross_section(c, e), n, s, xraylib_helper.get_element_number(s), xraylib_helper.get_compound_cross_section(c, e), len(c)]

    return Call(f, name, z)


@entry("models.combine_shifts_vu")
def _(r):
    n = int(r.integers(1, 8))
    return Call(models.combine_shifts_vu, r.uniform(-3, 3, n), r.uniform(-3, 3, n))


@entry("models.get_rot_axis_dir")
def _(r):
    if r.random() < 0.4:
        return Call(models.get_rot_axis_dir).default(rot_axis_dir="clockwise")
    return Call(models.get_rot_axis_dir, r.uniform(-1, 1, 3))


@entry("si.reorder_masks")
def _(r):
    return Call(struct_illum.reorder_masks, img(r, 5, 3, 4), img(r, 5), int(r.integers(0, 5)))


@entry("si.decompose_qr_masks", rtol=1e-3, atol=1e-5)
def _(r):
    return Call(struct_illum.decompose_qr_masks, img(r, 5, 3, 4, dtype=np.float64)).default(verbose=False)


@entry("fitting.sinusoid")
def _(r):
    return Call(fitting.sinusoid, r.uniform(0, 6, 9), float(r.uniform(1, 3)), float(r.uniform(0, 6)), float(r.uniform(-2, 2)))


# ---- operators, data terms, regularizers -------------------------------------------------------------------------------
def both(mk):
    def f(x, **k):
        op = mk(**k)
        y = op(x)
        return [y, op.T(np.ones_like(y))]

    return f


@entry("operators.convolution", rtol=1e-4)
def _(r):
    k = img(r, 3, 3, dtype=np.float32)
    x = img(r, 7, 8, dtype=np.float32)
    return Call(lambda x, kern, **q: both(lambda **z: operators.TransformConvolution((7, 8), kern, **z))(x, **q), x, k + k[::-1, ::-1]).default(pad_mode="edge", is_symm=True, flip_adjoint=False)


@entry("operators.dwt", rtol=1e-4)
def _(r):
    return Call(both(lambda **z: operators.TransformDecimatedWavelet((8, 8), "db2", 1, **z)), img(r, 8, 8)).default(axes=None, pad_on_demand="constant")


@entry("operators.swt", rtol=1e-4)
def _(r):
    return Call(both(lambda **z: operators.TransformStationaryWavelet((8, 8), "db2", 1, **z)), img(r, 8, 8)).default(axes=None, normalized=True)


@entry("operators.gradient", rtol=1e-4)
def _(r):
    return Call(both(lambda **z: operators.TransformGradient((5, 6), **z)), img(r, 5, 6)).default(axes=None, pad_mode="edge")


@entry("operators.laplacian", rtol=1e-4)
def _(r):
    return Call(both(lambda **z: operators.TransformLaplacian((5, 6), **z)), img(r, 5, 6)).default(axes=None, pad_mode="edge")


@entry("operators.fourier", rtol=1e-4)
def _(r):
    return Call(both(lambda **z: operators.TransformFourier((5, 6), **z)), img(r, 5, 6)).default(axes=None)


@entry("operators.svd", rtol=1e-3, layouts=False)
def _(r):
    def f(x, **k):
        op = operators.TransformSVD((3, 4, 5), **k)
        y = op(x)
        return [y, op.T(y)]

    return Call(f, img(r, 3, 4, 5)).default(axes_rows=(0,), axes_cols=(-1,), rescale=False)


@entry("operators.diagonal")
def _(r):
    return Call(lambda x, s: [operators.TransformDiagonalScaling((5, 6), s)(x), operators.TransformDiagonalScaling((5, 6), s).T(x)], img(r, 5, 6), img(r, 5, 6))


TERMS = {
    "l2": lambda: dt.DataFidelity_l2(), "l2b": lambda: dt.DataFidelity_l2b(0.02), "Huber": lambda: dt.DataFidelity_Huber(0.1), "l1": lambda: dt.DataFidelity_l1(), "l12": lambda: dt.DataFidelity_l12(),
    "l1b": lambda: dt.DataFidelity_l1b(0.1), "KL": lambda: dt.DataFidelity_KL(),
}


@entry("data_terms", rtol=1e-4)
def _(r):
    n = str(r.choice(list(TERMS)))

    def f(b, y, p, **k):
        t = TERMS[n]()
        t.assign_data(b, **k)
        q = p.copy()
        t.apply_proximal_dual(q)
        return [t.compute_residual(y), t.compute_primal_dual_gap(y, q) if n != "l12" else 0, q, t.compute_data_dual_dot(q) if n != "l12" else 0]

    return Call(f, img(r, 3, 6), img(r, 3, 6), img(r, 3, 6, lo=-1)).default(sigma=1.0)


@entry("data_terms/wl2", rtol=1e-4)
def _(r):
    def f(w, b, y, p, **k):
        t = dt.DataFidelity_wl2(w)
        t.assign_data(b, **k)
        q = p.copy()
        t.apply_proximal_dual(q)
        return [t.compute_residual(y), t.compute_primal_dual_gap(y, q), q]

    w = img(r, 3, 6)
    return Call(f, w, img(r, 3, 6, dtype=w.dtype), img(r, 3, 6, dtype=w.dtype), img(r, 3, 6, lo=-1, dtype=w.dtype)).default(sigma=1.0)


REGS = {
    "Grad": (lambda **k: rg.Regularizer_Grad(0.3, **k), dict(ndims=2, pad_mode="edge", norm=dt.DataFidelity_l12())), "TV1D": (lambda **k: rg.Regularizer_TV1D(0.3, **k), dict(pad_mode="edge", norm=dt.DataFidelity_l12())),
    "TV2D": (lambda **k: rg.Regularizer_TV2D(0.3, **k), dict(pad_mode="edge", norm=dt.DataFidelity_l12())), "HubTV2D": (lambda **k: rg.Regularizer_HubTV2D(0.3, 0.1, **k), dict(pad_mode="edge")),
    "smooth1D": (lambda **k: rg.Regularizer_smooth1D(0.3, **k), dict(pad_mode="edge", norm=dt.DataFidelity_l2())), "smooth2D": (lambda **k: rg.Regularizer_smooth2D(0.3, **k), dict(pad_mode="edge", norm=dt.DataFidelity_l2())),
    "lap": (lambda **k: rg.Regularizer_lap(0.3, **k), dict(ndims=2, pad_mode="edge")), "lap1D": (lambda **k: rg.Regularizer_lap1D(0.3, **k), dict(pad_mode="edge")), "lap2D": (lambda **k: rg.Regularizer_lap2D(0.3, **k), dict(pad_mode="edge")),
    "l1": (lambda **k: rg.Regularizer_l1(0.3, **k), dict(norm=dt.DataFidelity_l1())), "l1swl": (lambda **k: rg.Regularizer_l1swl(0.3, "haar", 1, **k), dict(ndims=2, pad_on_demand="constant", normalized=False, min_approx=True)),
    "l12swl": (lambda **k: rg.Regularizer_l12swl(0.3, "haar", 1, **k), dict(ndims=2, pad_on_demand="constant", normalized=False, min_approx=True)),
    "l1dwl": (lambda **k: rg.Regularizer_l1dwl(0.3, "haar", 1, **k), dict(ndims=2, pad_on_demand="constant", min_approx=True)), "l12dwl": (lambda **k: rg.Regularizer_l12dwl(0.3, "haar", 1, **k), dict(ndims=2, pad_on_demand="constant", min_approx=True)),
    "Hub_dwl": (lambda **k: rg.Regularizer_Hub_dwl(0.3, "haar", 1, 0.1, **k), dict(ndims=2, pad_on_demand="constant")), "l1med": (lambda **k: rg.Regularizer_l1med(0.3, **k), dict(filt_size=3)),
    "l2med": (lambda **k: rg.Regularizer_l2med(0.3, **k), dict(filt_size=3)), "fft": (lambda **k: rg.Regularizer_fft(0.3, **k), dict(ndims=2, fft_filter="exp", norm=dt.DataFidelity_l12())),
}
CHANNEL_REGS = {
    "TNV": (lambda **k: rg.Regularizer_TNV(0.3, **k), dict(ndims=2, pad_mode="edge", x_ref=None, spectral_norm=dt.DataFidelity_l1())), "VTV": (lambda **k: rg.Regularizer_VTV(0.3, **k), dict(ndims=2, pwise_der_norm=2, pwise_chan_norm=np.inf)),
    "lnswl": (lambda **k: rg.Regularizer_lnswl(0.3, "haar", 1, **k), dict(ndims=2, pad_on_demand="constant", normalized=False, min_approx=True, spectral_norm=dt.DataFidelity_l1())),
    "vl1wl": (lambda **k: rg.Regularizer_vl1wl(0.3, "haar", 1, **k), dict(ndims=2, pad_on_demand="constant", normalized=False, min_approx=True, pwise_lvl_norm=1, pwise_chan_norm=np.inf)),
}


def reg_call(r, mk, defaults, shape):
    def f(x, **k):
        R = mk(**k)
        tau = np.array(R.initialize_sigma_tau(x))
        d = R.initialize_dual()
        R.update_dual(d, x)
        R.apply_proximal_dual(d)
        out = [tau, d.copy()]
        with contextlib.suppress(NotImplementedError):
            out.append(R.compute_update_primal(d))
        return out

    return Call(f, img(r, *shape, dtype=np.float32)).default(**defaults)


@entry("regularizers", rtol=1e-4, atol=1e-6)
def _(r):
    mk, d = REGS[str(r.choice(list(REGS)))]
    return reg_call(r, mk, d, (6, 8))


@entry("regularizers/channels", rtol=1e-3, atol=1e-5)
def _(r):
    mk, d = CHANNEL_REGS[str(r.choice(list(CHANNEL_REGS)))]
    return reg_call(r, mk, d, (2, 6, 8))


# ---- solvers ---------------------------------------------------------------------------------------------------------
def small(r):
    M = r.uniform(0, 1, (12, 9)).astype(np.float32)
    b = (M @ r.uniform(0.1, 1, 9).astype(np.float32)).reshape(3, 4)
    return M, b


def solve(name, M, b, ctor, call, n=5):
    A = projectors.ProjectorMatrix(M, (3, 3), (3, 4))
    return getattr(solvers, name)(**ctor)(A, b, iterations=n, **call)


def solver_entry(name, ctor, call):
    @entry(f"solvers.{name}", rtol=1e-4, atol=1e-6)
    def _(r):
        M, b = small(r)
        kw = {}
        if r.random() < 0.5:
            kw["x0"] = img(r, 3, 3, dtype=np.float32)
        if r.random() < 0.3 and name != "FBP":
            kw["b_mask"] = (r.random((3, 4)) < 0.8).astype(np.float32)
        if r.random() < 0.3:
            kw["x_mask"] = (r.random((3, 3)) < 0.8).astype(np.float32)
        if r.random() < 0.3:
            kw["lower_limit"] = img(r, 3, 3, hi=0.3, dtype=np.float32)
        if r.random() < 0.5:
            kw["tolerance"] = 0.0  # residuals are recorded
        if r.random() < 0.3 and "b_test_mask" in call:
            kw["b_test_mask"] = (r.random((3, 4)) < 0.3).astype(np.float32)
        f = lambda M, b, **k: solve(name, M, b, {x: v for x, v in k.items() if x in ctor}, {x: v for x, v in k.items() if x not in ctor})
        free = {k: v for k, v in {**ctor, **call}.items() if k not in kw}
        return Call(f, M, b, **kw).default(**free)


NO = dict(x0=None, lower_limit=None, upper_limit=None, x_mask=None, b_mask=None)
solver_entry("SIRT", dict(verbose=False, relaxation=1.95, tolerance=None, regularizer=None, data_term="l2"), NO)
solver_entry("PDHG", dict(verbose=False, relaxation=0.95, tolerance=None, regularizer=None, data_term="l2"), dict(NO, b_test_mask=None, precondition=True))
solver_entry("FISTA", dict(verbose=False, relaxation=1.0, tolerance=None, regularizer=None, data_term="l2", restart_period=None), dict(NO, b_test_mask=None, precondition=True))
solver_entry("MLEM", dict(verbose=False, tolerance=None, regularizer=None, data_term="kl"), NO)


@entry("solvers.SART", rtol=1e-4, atol=1e-6)
def _(r):
    kw = {}
    if r.random() < 0.5:
        kw["x0"] = img(r, 6, 6, dtype=np.float32)
    if r.random() < 0.3:
        kw["b_mask"] = (r.random((4, 6)) < 0.8).astype(np.float32)
    if r.random() < 0.3:
        kw["x_mask"] = (r.random((6, 6)) < 0.8).astype(np.float32)
    if r.random() < 0.3:
        kw["lower_limit"] = img(r, 6, 6, hi=0.3, dtype=np.float32)
    if r.random() < 0.7:
        kw["tolerance"] = 0.0
    ctor = dict(verbose=False, relaxation=1.0, tolerance=None)
    angles, seed = r.uniform(0, 3, 4), int(r.integers(2**31))
    M = r.uniform(0, 1, (4, 6, 6, 6)).astype(np.float32)
    use_projector = r.random() < 0.5

    def f(b, M, **k):
        solver = solvers.SART(**{x: v for x, v in k.items() if x in ctor})
        k = {x: v for x, v in k.items() if x not in ctor}
        np.random.seed(seed)  # the order of the projections
        if use_projector:
            with projectors.ProjectorUncorrected((6, 6), angles, create_single_projs=True) as p:
                return solver(p, b, 3, **k)
        return solver(lambda x, ii: np.einsum("uij,ij->u", M[ii], x), b, 3, A_num_rows=4, At=lambda y, ii: np.einsum("uij,u->ij", M[ii], y), **k)

    return Call(f, img(r, 4, 6, dtype=np.float32), M, **kw).default(**{k: v for k, v in {**ctor, **NO}.items() if k not in kw})


@entry("solvers.FBP", rtol=1e-4, atol=1e-6)
def _(r):
    f = lambda b, **k: solvers.FBP(**k)(projectors.ProjectorUncorrected((6, 6), np.linspace(0, 3, 5)), b)
    return Call(f, img(r, 5, 6, dtype=np.float32)).default(verbose=False, fbp_filter="ramp", pad_mode="constant")


@entry("solvers.specs", rtol=1e-5)
def _(r):
    """A data term by name or by object, a regularizer alone or in a sequence."""
    M, b = small(r)
    reg = rg.Regularizer_TV2D(0.05)
    f = lambda M, b, data_term="l2", regularizer=reg, **k: solve("PDHG", M, b, dict(data_term=data_term, regularizer=regularizer), k, 8)
    return Call(f, M, b).default(data_term=dt.DataFidelity_l2(), regularizer=[reg])


@entry("solvers.power_method", rtol=1e-3)
def _(r):
    M, _ = small(r)
    f = lambda M, **k: solvers.power_method(projectors.ProjectorMatrix(M, (3, 3), (3, 4)), np.ones((3, 4), np.float32), **k)
    return Call(f, M).default(iterations=5)


@entry("solvers.diagonal_scaling", rtol=1e-4)
def _(r):
    M, b = small(r)

    def f(M, b, **k):
        A = projectors.ProjectorMatrix(M, (3, 3), (3, 4))
        return solvers.compute_diagonal_scaling(A.absolute(), A.T.absolute(), b, **{"regs": [], **k})[:3]

    return Call(f, M, b).default(relaxation_sigma=1.0, relaxation_tau=1.0, x_mask=None, b_mask=None)


@entry("solvers.Lipschitz_scaling", rtol=1e-4)
def _(r):
    M, b = small(r)
    regs = [rg.Regularizer_TV2D(0.1)] if r.random() < 0.5 else []

    def f(M, b, **k):
        A = projectors.ProjectorMatrix(M, (3, 3), (3, 4))
        s, t, shape, dtype = solvers.compute_Lipschitz_scaling(A, b, regs, **k)
        return [s, t, list(shape)]

    return Call(f, M, b).default(relaxation_sigma=1.0, relaxation_tau=1.0)


# ---- projectors, filters -----------------------------------------------------------------------------------------------
@entry("projectors.uncorrected", rtol=1e-4, atol=1e-6)
def _(r):
    n, w = 6, 4

    def f(x, a, **k):
        with projectors.ProjectorUncorrected((n, n), a, **k) as p:
            y = p.fp(x)
            return [y, p.bp(y)]

    return Call(f, img(r, n, n, dtype=np.float32), r.uniform(0, 3, w)).default(rot_axis_shift_pix=None, prj_geom=None, prj_intensities=None, psf=None, create_single_projs=False)


@entry("projectors.uncorrected/weights", rtol=1e-4, atol=1e-6)
def _(r):
    n, w = 6, 4

    def f(x, a, i, k):
        with projectors.ProjectorUncorrected((n, n), a, prj_intensities=i, psf=k) as p:
            y = p.fp(x)
            return [y, p.bp(y)]

    return Call(f, img(r, n, n, dtype=np.float32), r.uniform(0, 3, w), img(r, w), np.array([0.2, 0.6, 0.2]))


@entry("projectors.xrf", rtol=1e-4, atol=1e-6)
def _(r):
    n, w = 6, 4

    def f(x, a, ai, ao, **k):
        with projectors.ProjectorAttenuationXRF((n, n), a, att_in=ai, att_out=ao, **{"verbose": False, **k}) as p:
            y = p.fp(x)
            return [y, p.bp(y)]

    return Call(f, img(r, n, n, dtype=np.float32), r.uniform(0, 3, w), img(r, n, n, hi=0.2, dtype=np.float32), img(r, n, n, hi=0.2, dtype=np.float32)).default(
        angles_detectors_rad=np.pi / 2, weights_detectors=None, weights_angles=None, is_symmetric=False, use_multithreading=True, data_type=np.float32
    )


@entry("projectors.matrix", rtol=1e-4)
def _(r):
    def f(M, x):
        p = projectors.ProjectorMatrix(M, (3, 3), (3, 4))
        y = p.fp(x)
        return [y, p.bp(y)]

    return Call(f, img(r, 12, 9), img(r, 3, 3))


@entry("filters.FilterFBP", rtol=1e-4)
def _(r):
    return Call(lambda d, **k: filters.FilterFBP(**k)(d), img(r, 3, 12)).default(filter_name="ramp", pad_mode="constant", use_rfft=True, dtype=np.float32)


@entry("filters.FilterCustom", rtol=1e-4)
def _(r):
    return Call(lambda d, q, **k: filters.FilterCustom(q, **k)(d), img(r, 3, 12), img(r, 33, dtype=np.float32)).default(pad_mode="constant", use_rfft=True, dtype=np.float32)


@entry("filters.FilterMR", rtol=1e-3, atol=1e-5)
def _(r):
    f = lambda d, **k: filters.FilterMR(projectors.ProjectorUncorrected((9, 9), np.linspace(0, 3, 7)), **k)(d)
    return Call(f, img(r, 7, 9, dtype=np.float32)).default(binning_type="exponential", binning_start=2, lambda_smooth=None, pad_mode="constant", use_rfft=True, dtype=np.float32)


@entry("filters.create_basis")
def _(r):
    return Call(filters.create_basis, int(r.integers(8, 40))).default(binning_start=2, binning_type="exponential", order=1, dtype=np.float32)


@entry("filters.create_basis_wavelet")
def _(r):
    return Call(filters.create_basis_wavelet, 2 ** int(r.integers(5, 7)), level=2).default(wavelet="bior2.2", norm=1.0, dtype=np.float32)


@entry("denoisers.denoise_image", rtol=1e-3)
def _(r):
    x = img(r, 8, 8, dtype=np.float32)
    return Call(denoisers.denoise_image, x, verbose=False).default(reg_weight=1e-2, psf=None, pix_weights=None, iterations=250, lower_limit=None)


# ---- parameter tuning, structured illumination --------------------------------------------------------------------------
@entry("tuning.random_mask")
def _(r):
    return Call(param_tuning.create_random_test_mask, (12, 13)).default(test_fraction=0.05, dtype=np.float32)


@entry("tuning.k_fold")
def _(r):
    return Call(param_tuning.create_k_fold_test_masks, (7, 8), int(r.integers(2, 5)), seed=3).default(dtype=np.float32)


@entry("tuning.lambda_range")
def _(r):
    return Call(param_tuning.get_lambda_range, 10.0 ** float(r.uniform(-4, -1)), 10.0 ** float(r.uniform(0, 2))).default(num_per_order=4, aligned_order=True)


@entry("tuning.fit_func_min", rtol=1e-3)
def _(r):
    x = np.logspace(-2, 2, 9)
    return Call(param_tuning.fit_func_min, x, (np.log10(x) - r.uniform(-1, 1)) ** 2 + 0.5).default(f_stds=None, scale="log", verbose=False, plot_result=False)


@entry("tuning.CrossValidation", rtol=1e-4, layouts=False)
def _(r):
    M, b = small(r)

    def f(b, cv_fraction=0.1, num_averages=5, mask_param_name="b_test_mask", parallel_eval=False, dtype=np.float32):
        cv = param_tuning.CrossValidation(b.shape, cv_fraction=cv_fraction, num_averages=num_averages, mask_param_name=mask_param_name, parallel_eval=parallel_eval, dtype=dtype)
        return [len(cv.data_cv_masks), [m.sum() for m in cv.data_cv_masks], [m.dtype.itemsize for m in cv.data_cv_masks], cv.mask_param_name]

    return Call(f, b).default(num_averages=5, mask_param_name="b_test_mask", dtype=np.float32)


@entry("si.generators", layouts=False)
def _(r):
    n = str(r.choice(["Point", "Bernoulli", "HalfGaussian", "MURA"]))
    kind = getattr(struct_illum, "MaskGenerator" + n)

    def f(req_res_mm=None, max_masks_ratio=None, **k):
        q = {}
        if req_res_mm is not None:
            q["req_res_mm"] = req_res_mm
        if max_masks_ratio is not None:
            q["max_masks_ratio"] = max_masks_ratio
        m = kind(7 if n == "MURA" else (6, 5), **q).generate_collection(**k)
        return [m.masks_enc, m.masks_dec]

    d = dict(req_res_mm=1.0, buckets_fraction=1, shift_type="sequential")
    if n in ("Bernoulli", "HalfGaussian"):
        d["max_masks_ratio"] = 1.2
    return Call(f).default(**d)


@entry("si.collection", rtol=1e-4)
def _(r):
    f = lambda m, **k: (lambda z: [z.get_mask([0]), z.get_mask([1]), z.num_buckets])(struct_illum.MaskCollection(m, **k))
    return Call(f, img(r, 5, 4, 3)).default(masks_dec=None, mask_dims=2, mask_type="measured", mask_support=None)


@entry("si.collection/decoding", rtol=1e-4)
def _(r):
    f = lambda m, d, **k: struct_illum.MaskCollection(m, d).get_mask([1], **k)
    return Call(f, img(r, 5, 4, 3), img(r, 5, 4, 3)).default(mask_encoding=True)


@entry("si.qr", rtol=1e-3, atol=1e-5)
def _(r):
    f = lambda m, **k: (lambda q: [np.abs(q[0].masks_enc) if hasattr(q[0], "masks_enc") else 0])(struct_illum.MaskCollection(m).get_qr_decomposition(np.arange(5.0), **k))
    return Call(f, img(r, 5, 4, 3, dtype=np.float64)).default(shift=0)


@entry("si.projector", rtol=1e-4, atol=1e-5)
def _(r):
    def f(m, x, **k):
        p = struct_illum.ProjectorGhostImaging(m, backend="numpy")
        b = p.fp(x)
        return [b, p.bp(b), p.fbp(b, **k)]

    return Call(f, img(r, 9, 2, 3, dtype=np.float64) + np.eye(9, 6).reshape(9, 2, 3), img(r, 2, 3, dtype=np.float64)).default(use_lstsq=True, adjust_scaling=False)


def fingerprint(x):
    if isinstance(x, np.ndarray):
        return zlib.crc32(np.ascontiguousarray(x).tobytes())
    if isinstance(x, (list, tuple)):
        return zlib.crc32(repr([fingerprint(y) for y in x]).encode())
    return 0 if isinstance(x, operators.BaseTransform) else zlib.crc32(repr(x).encode()) if isinstance(x, (int, float, str)) else 0


def drive(c, name):
    build, rtol, atol, layouts = ENTRIES[name]
    rng = c.rng
    call = build(rng)
    c.describe(entry=name, defaults=sorted(call.defaults))
    arrays = [*call.args, *call.kw.values()]
    before = copy.deepcopy(arrays)
    c.describe(values=fingerprint(arrays))
    want = call.run()
    c.expect(same_value(before, arrays), "untouched", f"{name} modified its arguments")
    compare(c, call.run(), want, "repeat", f"{name} called twice", rtol, atol)
    for k, v in call.defaults.items():
        compare(c, call.run(**{k: v}), want, "default", f"{name}({k}={v!r}) vs omitted", rtol, atol)
    if len(call.defaults) > 1:
        compare(c, call.run(**call.defaults), want, "default", f"{name} with all of its documented defaults", rtol, atol)
    c.monitors["default"] += 1
    if layouts and any(has_array(a) for a in arrays):
        for how in ("fortran", "reversed", "strided", "readonly", "copy"):
            args = [relayout(copy.copy(a), how, rng) for a in call.args]
            kw = {k: relayout(v, how, rng) for k, v in call.kw.items()}
            try:
                got = call.run(args, kw)
            except ValueError as exc:
                if how != "readonly" or "buffer source array is read-only" not in str(exc):
                    raise
                c.event("read-only-refused-by-scikit-image")  # its compiled routines only take writable buffers
                continue
            compare(c, got, want, "layout", f"{name} with {how} arrays", rtol, atol)
            c.event("layout-" + how)
    elif not call.defaults:
        c.trivial = True
    c.monitors["layout"] += 1


def quantise(x):
    """The same arguments with integer values, as float64."""
    if isinstance(x, np.ndarray) and x.ndim and x.dtype.kind == "f":
        x = np.where(np.isfinite(x), x, 0).astype(np.float64)
        if np.isin(x, (0, 1)).all():  # a mask
            return x
        return np.round(x * 40 / max(float(np.abs(x).max()) if x.size else 1.0, 1e-9))
    if isinstance(x, list):
        return [quantise(y) for y in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(quantise(y) for y in x)
    return x


def cast(x, kind):
    if isinstance(x, np.ndarray) and x.ndim and x.dtype.kind == "f":
        return x.astype(kind)
    if isinstance(x, list):
        return [cast(y, kind) for y in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(cast(y, kind) for y in x)
    return x


UNTYPED = ("filters.FilterMR", "tuning.fit_func_min", "data_terms", "data_terms/wl2")  # ill-conditioned least squares on rounded values; proximals in place
TYPED = [n for n in ENTRIES if n not in UNTYPED]


@check.family("types", 2 * len(TYPED), 20 * len(TYPED), ["integers", "precision"])
def types(c):
    """Integer values give the same results whatever their numeric type is - when that type is accepted at all."""
    name = TYPED[c.idx % len(TYPED)]
    build, rtol, atol, _ = ENTRIES[name]
    call = build(c.rng)
    args, kw = [quantise(a) for a in call.args], {k: quantise(v) for k, v in call.kw.items()}
    c.describe(entry=name, values=fingerprint([*args, *kw.values()]))
    c.trivial = not any(has_array(a) for a in [*args, *kw.values()])
    for m in ("integers", "precision"):
        c.monitors[m] += 1
    if c.trivial:
        return
    try:
        want = call.run(copy.deepcopy(args), copy.deepcopy(kw))
    except (ValueError, np.linalg.LinAlgError):
        return c.event("rounded-arguments-refused")
    for kind in (np.float32, np.int64, np.int32, np.int16):
        mon = "precision" if kind is np.float32 else "integers"
        try:
            got = call.run([cast(a, kind) for a in args], {k: cast(v, kind) for k, v in kw.items()})
        except (TypeError, ValueError):
            if kind is np.float32:
                raise
            c.event("integer-type-refused")
            continue
        if not c.expect(set(got) == set(want), mon, f"{name} with {np.dtype(kind)}: other results"):
            continue
        if kind is np.int16 and name in SMALL:
            continue  # integer arithmetic in the type of the data: products overflow
        for k, w in want.items():
            g = got[k]
            if isinstance(w, str):
                continue
            if not c.expect(g.shape == w.shape, mon, f"{name} with {np.dtype(kind)} {k}: shape {g.shape} != {w.shape}"):
                continue
            rounding = 1.0 if g.dtype.kind in "iu" else 0.0  # results in the (integer) type of the data
            g, w = g.astype(complex), w.astype(complex)
            bad = ~np.isfinite(w)
            if c.expect(np.array_equal(bad, ~np.isfinite(g)), mon, f"{name} with {np.dtype(kind)} {k}: finite values differ") and w.size:
                err, ref = float(np.abs(np.where(bad, 0, g - w)).max()), float(np.abs(np.where(bad, 0, w)).max())
                c.expect(err <= atol + 1e-3 * ref + 1e-9 + rounding, mon, f"{name} with {np.dtype(kind)} {k}: difference {err:.3g} (scale {ref:.3g})")
        c.event("type-" + np.dtype(kind).name)


SMALL = ("projectors.matrix", "si.projector")


@check.family("calls", 3 * len(ENTRIES), 30 * len(ENTRIES), ["default", "layout", "untouched", "repeat"])
def calls(c):
    drive(c, list(ENTRIES)[c.idx % len(ENTRIES)])


if __name__ == "__main__":
    raise SystemExit(check.main())
