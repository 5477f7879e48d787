"""A20 chunked accumulation and slice-wise reconstruction."""
from vc.spec import *

REC = "algotom.rec.reconstruction"
VER = "algotom.rec.vertrec"
from contracts.a18 import view_value


if not RT:
    from vc.sym_env import pure_callee
    pure_callee(REC, "make_2d_ramp_window", lambda k: (k["height"], k["width"]))
    pure_callee(REC, "make_circular_ramp_window", lambda k: (k["width"], k["width"]))
    pure_callee(REC, "apply_ramp_filter", lambda k: k["sinogram"].shape)
    pure_callee(REC, "apply_circular_ramp_filter", lambda k: k["rec_img"].shape)
    pure_callee(VER, "__apply_ver_ramp_filter", lambda k: k["ver_slice"].shape)
    pure_callee(REC, "back_projection_cpu", lambda k: (k["sinogram"].shape[1],) * 2, "float32")


def recon_inputs(E, dtype="float32", big=True):
    n, m, w = E.size("n", 2, 30000), E.size("m", 1, 300, small=3), E.size("w", 4, 30000)
    sino = E.array("sino", (n, m, w), dtype, lo=0.05 if dtype.startswith("f") else 1, hi=3 if dtype.startswith("f") else 9)
    cen = E.real("center", 1, w - 2)
    return n, m, w, sino, cen


def slicewise(E, func, kw, dtype="float32", w_min=4):
    n, m, w, sino, cen = recon_inputs(E, dtype)
    ang = None
    kw = dict(kw)
    if kw.pop("angles", False):
        kw["angles"] = E.array("angles", (n,), "float64", lo=0, hi=6)
    if kw.get("ratio") == "any":
        kw["ratio"] = E.real("ratio", 0, 1)
    r3 = E.call(sino, cen, **kw)
    E.ensure("shape", land(eq(r3.shape[0], w), eq(r3.shape[1], m), eq(r3.shape[2], w)))
    j = E.skolem("j", 0, m - 1)
    kw1 = dict(kw)
    r2 = E.call(view(sino, slice(None), j, slice(None)), cen, **kw1)
    E.ensure("shape2", land(eq(r2.shape[0], w), eq(r2.shape[1], w)))
    if E.rt:
        TOL[0] = 5e-3
    E.forall("slice", (w, w), lambda y, x: eq(at(r3, y, j, x), at(r2, y, x)))


@contract("A20", REC, "fbp_reconstruction", dict(ncore=[1, 3], log=[False, True], ratio=[None, 0.0, "any"], dtype=["float32", "uint8"],
                                                 angles=[False, True]),
          where=lambda ncore, log, ratio, dtype, angles: (ratio == "any") + (dtype == "uint8") + angles <= 1)
def fbp(E, ncore, log, ratio, dtype, angles):
    slicewise(E, "fbp_reconstruction", dict(gpu=False, ncore=ncore, apply_log=log, ratio=ratio, angles=angles), dtype)


@contract("A20", REC, "bpf_reconstruction", dict(ncore=[1, 3], log=[False, True], ratio=[None, 0.0, "any"], dtype=["float32", "uint8"],
                                                 angles=[False, True]),
          where=lambda ncore, log, ratio, dtype, angles: (ratio == "any") + (dtype == "uint8") + angles <= 1)
def bpf(E, ncore, log, ratio, dtype, angles):
    slicewise(E, "bpf_reconstruction", dict(gpu=False, ncore=ncore, apply_log=log, ratio=ratio, angles=angles), dtype)


@contract("A20", REC, "dfi_reconstruction", dict(ncore=[1, 3], log=[False, True], ratio=[None, 0.0, "any"]),
          bounded=True, rt_budget=3.0)
def dfi(E, ncore, log, ratio):
    slicewise(E, "dfi_reconstruction", dict(ncore=ncore, apply_log=log, ratio=ratio))


# ---- vertical slices: the result of the chunked accumulation is the sum over all selected projections, whatever the chunk size
def vert_term(proj, k, i, ang, x, y, cen, w, pad):
    """What projection k adds to a pixel: a function of the detector row, the angle, the point and the centre (A18)."""
    th = ang(k)
    if E_RT:
        pos = x * fcos(th) + y * fsin(th) + cen
        if not pad and min(abs(pos), abs(pos - (w - 1))) < 2e-3:
            NEAR[0] = True          # the value jumps at the edge of the detector: decided by rounding
        return view_value(lambda q: proj(k, i, q), x * fcos(th) + y * fsin(th) + cen, w, pad)
    row = _A.mkarr((w,), lambda q: proj(k, i, q), "float64")
    return N.opaque_array("callee:view_value", [row], (), [th, x, y, cen], "float64", (str(pad),)).at()


E_RT = RT
NEAR = [False]


if not RT:
    from vc.sym_env import callee
    from vc import arrays as _A, npmodel as N

    @callee(VER, "vertical_back_projection_cpu")
    def _vbp(env, projections, angles, xlist, ylist, center, edge_pad=False):
        """A18's contract of vertical_back_projection_cpu."""
        n, h, w = projections.shape
        return _A.mkarr((h, w), lambda i, j: SUM(n, lambda k: vert_term(lambda *a: at(projections, *a), k, i, lambda k: at(angles, k),
                                                                        at(xlist, j), at(ylist, j), center, w, edge_pad)), "float32")

    @callee(VER, "vertical_back_projection_cpu_chunk")
    def _vbpc(env, projections, angles, x_mat, y_mat, center, edge_pad=False):
        n, h, w = projections.shape
        return _A.mkarr((x_mat.shape[0], h, w),
                        lambda s, i, j: SUM(n, lambda k: vert_term(lambda *a: at(projections, *a), k, i, lambda k: at(angles, k),
                                                                   at(x_mat, s, j), at(y_mat, s, j), center, w, edge_pad)), "float32")


def vert_inputs(E, log, flat, crop, rng):
    n0, h0, w0 = E.size("n", 2, 30000), E.size("h", 1, 30000), E.size("w", 3, 30000)
    proj = E.array("proj", (n0, h0, w0), lo=0.05 if log else -9, hi=9)
    kw = dict(gpu=False, apply_log=log, show_progress=False, ncore=1)
    t, b, l, r = [E.int("crop%d" % k, 0, 3) for k in range(4)] if crop else (0, 0, 0, 0)
    if crop:
        kw["crop"] = (t, b, l, r)
    h, w = h0 - t - b, w0 - l - r
    E.require(land(h >= 1, w >= 3))
    p0, p1 = 0, n0
    if rng:
        p0, p1 = E.int("proj_start", 0, n0 - 2), E.int("proj_stop", 2, n0)
        E.require(p1 - p0 >= 2)
        kw["proj_start"], kw["proj_stop"] = p0, p1
    n = p1 - p0
    if flat == "none":
        val = lambda k, i, q: at(proj, p0 + k, i + t, q + l)
    else:
        fl, dk = E.array("flat", (h0, w0), lo=10, hi=20), E.array("dark", (h0, w0), lo=-1, hi=0 if log else 1)
        if flat == "both":
            kw["flat_field"], kw["dark_field"] = fl, dk
            f, d = (lambda i, q: at(fl, i + t, q + l)), (lambda i, q: at(dk, i + t, q + l))
        elif flat == "flat":
            kw["flat_field"] = fl
            f, d = (lambda i, q: at(fl, i + t, q + l)), (lambda i, q: 0)
        else:
            kw["dark_field"] = dk
            f, d = (lambda i, q: 1), (lambda i, q: at(dk, i + t, q + l))

        def val(k, i, q):
            den = f(i, q) - d(i, q)
            return div(at(proj, p0 + k, i + t, q + l) - d(i, q), ite(den == 0, 1, den))
    v2 = (lambda k, i, q: -flog(val(k, i, q))) if log else val
    cs = E.int("chunk_size", -1, 40)
    kw["chunk_size"] = cs
    cen = E.real("center", 0, 3000)
    E.require(cen <= w - 1)
    return n, h, w, proj, cen, v2, kw


VCASES = dict(log=[False, True], flat=["none", "both", "flat", "dark"], crop=[False, True], rng=[False, True], mask=[False, True],
              angles=[False, True], ramp=[None, "before", "after"])


def vwhere(log, flat, crop, rng, mask, angles, ramp):
    k = log + (flat != "none") + crop + rng + mask + angles
    return (k <= 1 and (ramp != "after" or k == 0)) or (k == 6 and flat == "both")


def vert_angles(E, n, kw, given):
    if given:
        ang = E.array("angles", (n,), "float64", lo=0, hi=6)
        kw["angles"] = ang
        return lambda k: at(ang, k)
    return lambda k: div(k * fpi(), n - 1)


def vert_mask(cen, w, j, mask):
    if not mask:
        return 1
    rad = trunc(imin(cen, w - cen))
    left = idiv(w - 2 * rad, 2)
    return ite(land(j >= left, j < left + 2 * rad), 1, 0)


def ramp_before(E, v, h, w, kw):
    """Every projection filtered by the ramp filter of the fan of its rows."""
    pad = trunc(imin(trunc(0.15 * w), 150))
    win = E.apply("make_2d_ramp_window", REC, h, w + 2 * pad, "hann")
    if E.rt:
        import numpy as np
        memo = {}

        def val(k, i, q):
            if k not in memo:
                memo[k] = E.apply("apply_ramp_filter", REC, np.float32([[v(k, a, b) for b in range(w)] for a in range(h)]), win, "hann", pad, "edge")
            return at(memo[k], i, q)
        return val
    return lambda k, i, q: at(E.apply("apply_ramp_filter", REC, _A.mkarr((h, w), lambda a, b: v(k, a, b), "float32"), win, "hann", pad, "edge"), i, q)


def vert_result(E, r, m, h, w, n, v, ang, cen, mask, ramp, pts, kw):
    """m: number of slices or None for a single slice; pts(s) -> (index, alpha)."""
    E.ensure("shape", land(*[eq(a, b) for a, b in zip(r.shape, ((h, w) if m is None else (m, h, w)))]))
    if E.rt:
        TOL[0] = 3e-3
    if ramp == "before":
        v = ramp_before(E, v, h, w, kw)
    o = ceil(div(w - 1, 2))

    def summed(sl, i, j):
        idx, alpha = pts(sl)
        a = alpha * fpi() / 180
        c, s = fcos(a), fsin(a)
        x, y = (idx - o) * s + (j - o) * c, -(idx - o) * c + (j - o) * s
        return SUM(n, lambda k: vert_term(v, k, i, ang, x, y, cen, w, ramp != "before"))
    if ramp == "after":
        final = filtered_slices(E, summed, m, h, w)
    else:
        final = summed

    def want(sl, i, j):
        return div(final(sl, i, j) * vert_mask(cen, w, j, mask) * fpi(), n - 1)
    def same(x, sl, i, j):
        NEAR[0] = False
        y = want(sl, i, j)
        return lor(NEAR[0], eq(x, y))
    if m is None:
        E.forall("sum_over_projections", (h, w), lambda i, j: same(at(r, i, j), None, i, j), sample=150)
    elif isinstance(m, int) and not E.rt:
        for s in range(m):
            E.forall("sum_over_projections_%d" % s, (h, w), lambda i, j: same(at(r, s, i, j), s, i, j))
    else:
        E.forall("sum_over_projections", (m, h, w), lambda s, i, j: same(at(r, s, i, j), s, i, j), sample=150)


def filtered_slices(E, summed, m, h, w):
    """Ramp filter of the accumulated slice (absolute value of the window: no sign of the direction)."""
    pad = trunc(imin(trunc(0.15 * w), 150))
    if E.rt:
        import numpy as np
        win = np.abs(E.apply("make_2d_ramp_window", REC, h, w + 2 * pad, filter_name="hann"))
        memo = {}

        def val(s, i, j):
            if s not in memo:
                a = np.array([[summed(s, y, x) for x in range(w)] for y in range(h)])
                p = np.pad(a, ((0, 0), (pad, pad)), mode="edge")
                f = np.fft.fftshift(np.fft.fft(p), axes=1) * win
                memo[s] = np.real(np.fft.ifft(np.fft.ifftshift(f, axes=1)))[:, pad:pad + w]
            return memo[s][i, j]
        return val
    win = E.lib("numpy", "abs", E.apply("make_2d_ramp_window", REC, h, w + 2 * pad, filter_name="hann"))
    return lambda s, i, j: at(E.apply("__apply_ver_ramp_filter", VER, _A.mkarr((h, w), lambda y, x: summed(s, y, x), "float32"),
                                      win, w, pad, "edge"), i, j)


@contract("A20", VER, "vertical_reconstruction", VCASES, rt_budget=3.0,
          where=lambda ramp, **k: ramp != "after" and vwhere(ramp=ramp, **k))
@contract("A20", VER, "vertical_reconstruction", VCASES, name="vertrec.vertical_reconstruction.after", rt_budget=3.0, bounded=True,
          where=lambda ramp, **k: ramp == "after" and vwhere(ramp=ramp, **k))        # numpy's FFT in the body
def vertical_reconstruction(E, log, flat, crop, rng, mask, angles, ramp):
    n, h, w, proj, cen, v, kw = vert_inputs(E, log, flat, crop, rng)
    ang = vert_angles(E, n, kw, angles)
    idx, alpha = E.int("slice", 0, 30000), E.real("alpha", 0, 180, vals=[0, 90])
    E.require(idx <= w - 1)
    r = E.call(proj, idx, cen, alpha, ramp_filter=ramp, masking=mask, **kw)
    vert_result(E, r, None, h, w, n, v, ang, cen, mask, ramp, lambda s: (idx, alpha), kw)


@contract("A20", VER, "vertical_reconstruction_multiple", VCASES, where=vwhere, rt_budget=3.0)
def vertical_reconstruction_multiple(E, log, flat, crop, rng, mask, angles, ramp):
    n, h, w, proj, cen, v, kw = vert_inputs(E, log, flat, crop, rng)
    ang = vert_angles(E, n, kw, angles)
    a, b, st = E.int("start", 0, 30000), E.int("stop", 0, 30000), E.int("step", 1, 3)
    E.require(a <= b, b <= w - 1)
    alpha = E.real("alpha", 0, 180, vals=[0, 90])
    m = idiv(b - a, st) + 1
    r = E.call(proj, a, b, cen, alpha, st, ramp_filter=ramp, masking=mask, **kw)
    vert_result(E, r, m, h, w, n, v, ang, cen, mask, ramp, lambda s: (a + s * st, alpha), kw)


@contract("A20", VER, "vertical_reconstruction_different_angles", VCASES, where=vwhere, rt_budget=3.0)
def vertical_reconstruction_different_angles(E, log, flat, crop, rng, mask, angles, ramp):
    n, h, w, proj, cen, v, kw = vert_inputs(E, log, flat, crop, rng)
    ang = vert_angles(E, n, kw, angles)
    idx = [E.int("slice%d" % k, 0, 30000) for k in range(2)]
    alpha = [E.real("alpha%d" % k, 0, 180, vals=[0, 90]) for k in range(2)]
    E.require(idx[0] <= w - 1, idx[1] <= w - 1)
    r = E.call(proj, idx, alpha, cen, ramp_filter=ramp, masking=mask, **kw)
    vert_result(E, r, 2, h, w, n, v, ang, cen, mask, ramp,
                lambda s: (ite(eq(s, 0), idx[0], idx[1]), ite(eq(s, 0), alpha[0], alpha[1])), kw)
