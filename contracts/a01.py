"""A01 (bounded): the arrays passed to the remaining public functions are left as they were, option by option."""
from vc.spec import *

import numpy as np
COR, CON, REM = "algotom.prep.correction", "algotom.prep.conversion", "algotom.prep.removal"
FIL, CAL, PHA = "algotom.prep.filtering", "algotom.prep.calculation", "algotom.prep.phase"
UTI, COL, CLB = "algotom.util.utility", "algotom.util.correlation", "algotom.util.calibration"
SIM, RCN, VRT, POS = "algotom.util.simulation", "algotom.rec.reconstruction", "algotom.rec.vertrec", "algotom.post.postprocessing"
DT = ["float64", "float32"]


def frame(mod, fn, cases, build, samples=4, name=None):
    """A contract whose only clause is that no argument array changes."""
    def body(E, **kw):
        a, k = build(E, **kw)
        E.call(*a, **k)
        E.ensure("ran", True)
    c = contract("A01", mod, fn, cases, name=name or "frame of %s.%s" % (mod.split(".")[-1], fn), bounded=True, samples=samples)
    return c(body)


def sino(E, name="sinogram", h=(40, 60), w=(60, 80), dt="float64", lo=0.5, hi=2.0, noise=True):
    """A sinogram with stripes, zingers and a few zeros where allowed."""
    def gen(rs, s):
        m = rs.uniform(lo, hi, s)
        if len(s) == 2 and s[1] > 12:
            m = m + np.outer(np.linspace(0, 0.2, s[0]), np.ones(s[1]))
            m[:, s[1] // 3] *= 1.6
            m[:, s[1] // 2] = m[0, s[1] // 2]
        return m
    return E.array(name, (E.size("h_" + name, *h), E.size("w_" + name, *w)), dt, gen=gen)


def stack(E, name, d=(3, 5), h=(40, 44), w=(40, 44), dt="float32"):
    return E.array(name, (E.size("d_" + name, *d), E.size("h_" + name, *h), E.size("w_" + name, *w)), dt, gen=lambda rs, s: rs.uniform(0.5, 2.0, s))


def S(E, dt="float64", **kw):
    return sino(E, dt=dt, **kw)


med = {"method": "median_filter", "para1": (1, 5)}
gauss = {"method": "gaussian_filter", "para1": (1, 5)}
own = {"method": "apply_gaussian_filter", "para1": 3, "para2": 3}

frame(REM, "remove_stripe_based_sorting", dict(dt=DT, dim=[1, 2], opt=[None, gauss, own]),
      lambda E, dt, dim, opt: ([S(E, dt), 5, dim], {} if opt is None else {"option": opt}))
frame(REM, "remove_stripe_based_filtering", dict(dt=DT, dim=[1, 2], sort=[True, False], opt=[None, gauss]),
      lambda E, dt, dim, sort, opt: ([S(E, dt), 3, 5, dim, sort], {} if opt is None else {"option": opt}))
frame(REM, "remove_stripe_based_fitting", dict(dt=DT, sort=[True, False], num_chunk=[1, 3], opt=[None, gauss]),
      lambda E, dt, sort, num_chunk, opt: ([S(E, dt), 2, 10, sort, num_chunk], {} if opt is None else {"option": opt}))
frame(REM, "remove_large_stripe", dict(dt=DT, drop_ratio=[0.1, 0.9], norm=[True, False], opt=[None, med]),
      lambda E, dt, drop_ratio, norm, opt: ([S(E, dt), 3.0, 11, drop_ratio, norm], {} if opt is None else {"option": opt}))
frame(REM, "remove_dead_stripe", dict(dt=DT, residual=[True, False]), lambda E, dt, residual: ([S(E, dt), 3.0, 11, residual, 5], {}))
frame(REM, "remove_all_stripe", dict(dt=DT, dim=[1, 2], opt=[None, med]),
      lambda E, dt, dim, opt: ([S(E, dt), 3.0, 11, 5, 0.1, dim], {} if opt is None else {"option": opt}))
frame(REM, "remove_stripe_based_2d_filtering_sorting", dict(dt=DT, dim=[1, 2], opt=[None, gauss]),
      lambda E, dt, dim, opt: ([S(E, dt), 3, 5, dim], {} if opt is None else {"option": opt}))
frame(REM, "remove_stripe_based_normalization", dict(dt=DT, num_chunk=[1, 4], sort=[True, False], opt=[None, {"method": "gaussian_filter", "para1": 5}]),
      lambda E, dt, num_chunk, sort, opt: ([S(E, dt), 5, num_chunk, sort], {} if opt is None else {"option": opt}))
frame(REM, "remove_stripe_based_regularization", dict(dt=DT, num_chunk=[1, 4], apply_log=[True, False], sort=[True, False]),
      lambda E, dt, num_chunk, apply_log, sort: ([S(E, dt), 0.005, num_chunk, apply_log, sort], {}))
frame(REM, "remove_stripe_based_fft", dict(dt=DT, sort=[True, False]), lambda E, dt, sort: ([S(E, dt), 5, 4, 1, sort], {}))
frame(REM, "remove_stripe_based_wavelet_fft", dict(dt=DT, sort=[True, False], window_name=["gaussian", "butter"], level=[1, 2]),
      lambda E, dt, sort, window_name, level: ([S(E, dt), level, 1, "db5", window_name, sort], {}))
frame(REM, "remove_stripe_based_interpolation", dict(dt=DT, norm=[True, False], kind=["linear", "cubic", "quintic"], opt=[None, med]),
      lambda E, dt, norm, kind, opt: ([S(E, dt), 3.0, 11, 0.1, norm, kind], {} if opt is None else {"option": opt}))
frame(REM, "select_zinger", dict(dt=DT), lambda E, dt: ([E.array("mat", (E.size("h", 5, 20), E.size("w", 5, 20)), dt, gen=lambda rs, s: 1.0 * (rs.rand(*s) < 0.3)), 4], {}))
frame(REM, "check_zinger_size", dict(dt=DT), lambda E, dt: ([E.array("mat", (E.size("h", 1, 20), E.size("w", 1, 20)), dt, gen=lambda rs, s: 1.0 * (rs.rand(*s) < 0.3)), 4], {}))
frame(REM, "generate_blob_mask", dict(dt=DT), lambda E, dt: ([S(E, dt, h=(8, 12)), 9, 3.0], {}))

frame(FIL, "fresnel_filter", dict(dt=DT, dim=[1, 2], own=[False, True], apply_log=[True, False], neg=[False, True]),
      lambda E, dt, dim, own, apply_log, neg: ([S(E, dt, lo=-0.2 if neg else 0.5), 10, dim], dict(
          window=None if not own else E.array("window", (E_h(E), E_w(E)), "float64", lo=0.1, hi=1),
          pad=10, apply_log=apply_log)))
frame(FIL, "double_wedge_filter", dict(dt=DT, sino_type=["180", "360"], mask=[False, True]),
      lambda E, dt, sino_type, mask: ([S(E, dt), 0 if sino_type == "360" else E_w(E) / 2 - 1, sino_type, 2],
                                      dict(mask=E.array("mask", (2 * E_h(E) - 1 if sino_type == "180" else E_h(E), E_w(E) + 20), "float32", lo=0, hi=1) if mask else None, pad=10)))


def E_h(E):
    return E.inputs_size("h_sinogram")


def E_w(E):
    return E.inputs_size("w_sinogram")


frame(CAL, "find_shift_based_phase_correlation", dict(dt=DT, gradient=[True, False]), lambda E, dt, gradient: (pair(E, dt), dict(gradient=gradient)))
frame(CAL, "find_center_based_phase_correlation", dict(dt=DT, flip=[True, False], gradient=[True, False]),
      lambda E, dt, flip, gradient: (pair(E, dt), dict(flip=flip, gradient=gradient)))
frame(CAL, "downsample_cor", dict(dt=DT), lambda E, dt: ([S(E, dt), 2, 3], {}))


def pair(E, dt, h=(24, 40), w=(24, 40)):
    n, m = E.size("h", *h), E.size("w", *w)
    return [E.array(k, (n, m), dt, gen=lambda rs, s: rs.uniform(0.5, 2, s)) for k in ("mat1", "mat2")]


frame(PHA, "get_quality_map", dict(dt=DT), lambda E, dt: ([S(E, dt, h=(10, 20), w=(10, 20)), 3], {}))
frame(PHA, "get_weight_mask", dict(dt=DT), lambda E, dt: ([S(E, dt, h=(20, 30), w=(20, 30))], {}))
frame(PHA, "unwrap_phase_based_fft", dict(dt=DT), lambda E, dt: ([S(E, dt, h=(10, 20), w=(10, 20))], {}))
frame(PHA, "unwrap_phase_iterative_fft", dict(dt=DT, own=[True, False]), lambda E, dt, own: (
    [S(E, dt, h=(10, 20), w=(10, 20))], dict(iteration=2, weight_map=E.array("weight", (E_h(E), E_w(E)), dt, lo=0, hi=1) if own else None)))
frame(PHA, "reconstruct_surface_from_gradient_FC_method", dict(dt=DT, correct_negative=[True, False]),
      lambda E, dt, correct_negative: (pair(E, dt), dict(correct_negative=correct_negative)))
frame(PHA, "reconstruct_surface_from_gradient_SCS_method", dict(dt=DT, correct_negative=[True, False], pad=[0, 5]),
      lambda E, dt, correct_negative, pad: (pair(E, dt), dict(correct_negative=correct_negative, pad=pad)))


def stacks(E, dt, n=None, h=(40, 44), w=(40, 44)):
    d, h, w = E.size("d", 2, 3), E.size("h", *h), E.size("w", *w)
    return [E.array(k, (d, h, w), dt, gen=lambda rs, s: rs.uniform(0.5, 2, s)) for k in ("ref_stack", "sam_stack")]


def shifts_of(E, a, name="shifts"):
    return E.array(name, (a[0].shape[0], 2), "float64", lo=-2, hi=2)


frame(PHA, "find_shift_between_image_stacks", dict(dt=DT, gv=["mixed", "median", "mean"]),
      lambda E, dt, gv: (stacks(E, dt) + [7, 5, [[20, 22], [22, 19]]], dict(global_value=gv, ncore=1)))
frame(PHA, "find_shift_between_sample_images", dict(dt=DT),
      lambda E, dt: ((lambda a: a + [shifts_of(E, a), 5, 3, [[20, 22], [22, 19]]])(stacks(E, dt)), dict(ncore=1)))
frame(PHA, "align_image_stacks", dict(dt=DT, sam=[True, False]),
      lambda E, dt, sam: (lambda a: (a + [shifts_of(E, a)], dict(sam_shifts=shifts_of(E, a, "sam_shifts") if sam else None)))(stacks(E, dt)))
frame(PHA, "retrieve_phase_based_speckle_tracking", dict(find_shift=["correl", "umpa"], dark_signal=[True, False], dim=[1, 2], surf=["SCS", "FC"]),
      lambda E, find_shift, dark_signal, dim, surf: (stacks(E, "float32", h=(18, 20), w=(18, 20)), dict(
          find_shift=find_shift, dark_signal=dark_signal, dim=dim, win_size=3, margin=2, ncore=1, surf_method=surf, pad=3, chunk_size=5)), samples=1)

frame(COR, "mtf_deconvolution", dict(dt=DT), lambda E, dt: ([S(E, dt), E.array("window", (E_h(E) + 10, E_w(E) + 10), "float64", lo=0.5, hi=1), 5], {}))
frame(COR, "upsample_sinogram", dict(dt=DT, sino_type=["180", "360"]),
      lambda E, dt, sino_type: ([S(E, dt), 2, 0 if sino_type == "360" else E_w(E) / 2 - 1, sino_type, 1, 10], {}), samples=1)

frame(UTI, "mapping", dict(dt=DT, order=[0, 1, 3]), lambda E, dt, order: (
    [S(E, dt), E.array("x_mat", (5, 7), "float64", lo=0, hi=30), E.array("y_mat", (5, 7), "float64", lo=0, hi=30), order], {}))
frame(UTI, "separate_frequency_component", dict(dt=DT, axis=[0, 1], win=["none", "dict", "array"]), lambda E, dt, axis, win: (
    [S(E, dt), axis], dict(window={"none": lambda: None, "dict": lambda: {"name": "gaussian", "sigma": 4},
                                   "array": lambda: E.array("window", (E_h(E) if axis == 0 else E_w(E),), "float64", lo=0, hi=1)}[win]())))
frame(UTI, "generate_fitted_image", dict(dt=DT, axis=[0, 1], num_chunk=[1, 2]), lambda E, dt, axis, num_chunk: ([S(E, dt), 2, axis, num_chunk], {}))
frame(UTI, "detect_stripe", dict(dt=DT), lambda E, dt: ([E.array("list_data", (E.size("n", 20, 60),), dt, gen=lambda rs, s: rs.uniform(0, 1, s) ** 3), 1.0], {}))
frame(UTI, "apply_wavelet_decomposition", dict(dt=DT, level=[None, 1]), lambda E, dt, level: ([S(E, dt), "db2", level], {}))
frame(UTI, "transform_slice_forward", dict(dt=DT), lambda E, dt: ([square(E, dt)], {}))
frame(UTI, "transform_slice_backward", dict(dt=DT), lambda E, dt: ([square(E, dt)], {}))
frame(UTI, "apply_gaussian_filter", dict(dt=DT, pad=[None, 5], mode=[None, "edge", ["mean", "edge"]]), lambda E, dt, pad, mode: ([S(E, dt), 3, 4, pad, mode], {}))
frame(UTI, "apply_1d_regularizer", dict(dt=DT), lambda E, dt: (
    lambda n: [E.array("list_data", (n,), dt, lo=0.1, hi=1), E.array("sijmat", (n, n), "float64", lo=0, hi=1)])(E.size("n", 3, 12)) and (
    [E.array("list_data", (9,), dt, lo=0.1, hi=1), E.array("sijmat", (9, 9), "float64", lo=0, hi=1)], {}))
frame(UTI, "apply_regularization_filter", dict(dt=DT, axis=[0, 1]), lambda E, dt, axis: ([S(E, dt), 0.01, axis, 2], {}))
frame(UTI, "transform_1d_window_to_2d", dict(dt=DT), lambda E, dt: ([E.array("win_1d", (E.size("n", 5, 30),), dt, lo=0, hi=1)], {}))
frame(UTI, "detect_sample", dict(dt=DT, t=["180", "360"]), lambda E, dt, t: ([S(E, dt), t], {}))


def square(E, dt):
    n = E.size("n", 6, 30)
    return E.array("mat", (n, n), dt, lo=0, hi=1)


@contract("A01", UTI, "apply_filter_to_wavelet_component", dict(order=[0, 1, 2], method=[None, "median_filter"], level=[None, 1, [1]]), bounded=True, samples=2,
          name="frame of utility.apply_filter_to_wavelet_component")
def wavelet_component(E, order, method, level):
    m = S(E)
    d = E.fn("apply_wavelet_decomposition", UTI)(np.array(m), "db2", 2)
    keep = [np.array(d[0])] + [[np.array(x) for x in y] for y in d[1:]]
    E.call(d, level, order, method, None if method is None else [(1, 5)])
    E.same("data_0", keep[0], d[0])
    for n, (a, b) in enumerate(zip(keep[1:], d[1:])):
        for k in range(3):
            E.same("data_%d_%d" % (n + 1, k), a[k], b[k])


@contract("A01", UTI, "apply_wavelet_reconstruction", dict(ignore_level=[None, 0, 1]), bounded=True, samples=2, name="frame of utility.apply_wavelet_reconstruction")
def wavelet_reconstruction(E, ignore_level):
    m = S(E)
    d = E.fn("apply_wavelet_decomposition", UTI)(np.array(m), "db2", 2)
    keep = [np.array(d[0])] + [[np.array(x) for x in y] for y in d[1:]]
    E.call(d, "db2", ignore_level)
    E.same("data_0", keep[0], d[0])
    for n, (a, b) in enumerate(zip(keep[1:], d[1:])):
        for k in range(3):
            E.same("data_%d_%d" % (n + 1, k), a[k], b[k])


frame(COL, "normalize_image", dict(dt=DT), lambda E, dt: ([S(E, dt)], {}))
frame(COL, "find_shift_based_correlation_map", dict(dt=DT, axis=[None], sub_pixel=[True, False], method=["diff", "poly_fit"], dim=[1, 2], size=[3, 5]),
      lambda E, dt, axis, sub_pixel, method, dim, size: ([E.array("ref", (17, 17), dt, lo=0, hi=1), E.array("mat", (9, 9), dt, lo=0, hi=1), 4],
                                                         dict(axis=axis, sub_pixel=sub_pixel, method=method, dim=dim, size=size)), samples=1)
frame(COL, "find_global_shift_based_local_shifts", dict(dt=DT, gv=["mixed", "median", "mean"], norm=[True, False], return_list=[True, False]),
      lambda E, dt, gv, norm, return_list: (pair(E, dt, (40, 44), (40, 44)) + [7, 5], dict(list_ij=[[20, 22], [21, 19]], global_value=gv, ncore=1, norm=norm, return_list=return_list)), samples=1)
frame(COL, "find_local_shifts_umpa", dict(dt=DT, dark_signal=[True, False], method=["diff", "poly_fit"]),
      lambda E, dt, dark_signal, method: (stacks(E, dt, h=(14, 16), w=(14, 16)), dict(win_size=3, margin=2, method=method, gpu=False, ncore=1, dark_signal=dark_signal)), samples=1)
frame(COL, "find_local_shifts", dict(dt=DT, dim=[1, 2], norm=[True, False], norm_global=[True, False]),
      lambda E, dt, dim, norm, norm_global: (stacks(E, dt, h=(14, 16), w=(14, 16)), dict(dim=dim, win_size=3, margin=2, ncore=1, norm=norm, norm_global=norm_global, chunk_size=4)), samples=1)

frame(CLB, "normalize_background", dict(dt=DT, z=[True, False]), lambda E, dt, z: ([S(E, dt, lo=0.0 if z else 0.5), 7], {}))
frame(CLB, "normalize_background_based_fft", dict(dt=DT, pad=[None, 5]), lambda E, dt, pad: ([S(E, dt), 5, pad], {}))
frame(CLB, "calculate_threshold", dict(dt=DT, bgr=["bright", "dark"]), lambda E, dt, bgr: ([S(E, dt), bgr], {}))
frame(CLB, "binarize_image", dict(dt=DT, threshold=[None, 0.8], bgr=["bright", "dark"], norm=[True, False], denoise=[True, False], invert=[True, False]),
      lambda E, dt, threshold, bgr, norm, denoise, invert: ([S(E, dt), threshold, bgr, norm, denoise, invert], {}), samples=1)
frame(CLB, "find_tilt_roll", dict(dt=DT, method=["ellipse", "linear"]), lambda E, dt, method: (circle(E, dt), dict(method=method)))


def circle(E, dt):
    n = E.size("n", 30, 60)
    t = np.arange(n) * 2 * np.pi / n
    return [E.array("x", (n,), dt, gen=lambda rs, s: 100 * np.cos(t[:s[0]] if len(t) >= s[0] else np.linspace(0, 6, s[0]))),
            E.array("y", (n,), dt, gen=lambda rs, s: 3 * np.sin(t[:s[0]] if len(t) >= s[0] else np.linspace(0, 6, s[0])))]


frame(SIM, "make_sinogram", dict(dt=DT), lambda E, dt: ([square(E, dt), E.array("angles", (7,), "float64", lo=0, hi=3.1)], {}))
frame(SIM, "add_noise", dict(dt=DT), lambda E, dt: ([S(E, dt), 0.1], {}))
frame(SIM, "add_stripe_artifact", dict(dt=DT, t=["partial", "full", "dead", "fluctuating"]), lambda E, dt, t: ([S(E, dt), 3, 20, 0.3, t], {}))
frame(SIM, "convert_to_Xray_image", dict(dt=DT, g=[None, 3.0]), lambda E, dt, g: ([S(E, dt), g], {}))
frame(SIM, "add_background_fluctuation", dict(dt=DT), lambda E, dt: ([S(E, dt), 0.2], {}))

frame(RCN, "apply_ramp_filter", dict(dt=DT, own=[True, False], pad=[None, 4]), lambda E, dt, own, pad: (
    [S(E, dt)], dict(pad=pad, ramp_win=E.array("ramp", (E_h(E), E_w(E) + 2 * (pad or int(0.15 * E_w(E)))), "float64", lo=0, hi=1) if own else None)))
frame(RCN, "apply_circular_ramp_filter", dict(dt=DT, own=[True, False]), lambda E, dt, own: (
    lambda m: ([m], dict(pad=3, ramp_win=E.array("ramp", (m.shape[0] + 6,) * 2, "float64", lo=0, hi=1) if own else None)))(square(E, dt)))


def recon(fn, extra, samples=1):
    def build(E, dt, nd, neg, ang, log, **kw):
        h, w = E.size("h", 12, 18), E.size("w", 20, 30)
        shape = (h, w) if nd == 2 else (h, 2, w)
        s = E.array("sinogram", shape, dt, gen=lambda rs, n: rs.uniform(0.3, 2, n) - (0.5 if neg else 0.0))
        a = E.array("angles", (h,), "float64", gen=lambda rs, n: np.sort(rs.uniform(0, 3.1, n))) if ang else None
        return [s, w / 2 - 1.0], dict(angles=a, apply_log=log, ncore=1, **kw)
    frame(RCN, fn, dict(dt=DT, nd=[2, 3], neg=[False, True], ang=[False, True], log=[True, False], **extra), build, samples=samples,
          name="frame of reconstruction.%s(options)" % fn)


recon("fbp_reconstruction", dict(gpu=[False]))
recon("bpf_reconstruction", dict(gpu=[False]))
recon("dfi_reconstruction", dict())

for _n in ("remove_ring_based_fft", "remove_ring_based_wavelet_fft"):
    frame(POS, _n, dict(dt=DT, sort=[True, False]), lambda E, dt, sort, _n=_n: (
        [E.array("mat", (40, 40), dt, lo=0.1, hi=1)] + ([5, 4, 1] if _n.endswith("based_fft") else [2, 1, "db5"]) + [sort], {}))
