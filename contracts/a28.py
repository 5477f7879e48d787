"""A28 masks and filter windows."""
from vc.spec import *

UTI = "algotom.util.utility"
FIL = "algotom.prep.filtering"
CAL = "algotom.prep.calculation"
REC = "algotom.rec.reconstruction"
PHA = "algotom.prep.phase"
SIM = "algotom.util.simulation"


def sizes(E, lo=3):
    return E.size("height", lo, 30000), E.size("width", lo, 30000)


def shape2(E, r, h, w):
    E.ensure("shape", land(eq(length(r.shape), 2), eq(r.shape[0], h), eq(r.shape[1], w)))


@contract("A28", UTI, "make_circle_mask", {})
def make_circle_mask(E):
    w = E.size("width", 1, 30000)
    ratio = E.real("ratio", 0, 2)
    r = E.call(w, ratio)
    shape2(E, r, w, w)
    c = idiv(w, 2)
    if E.rt:
        TOL[0] = 0
    E.forall("disc", (w, w), lambda i, j: eq(at(r, i, j), ite(
        (i - c) * (i - c) + (j - c) * (j - c) <= (ratio * c) * (ratio * c), 1, 0)))
    E.forall("mirror", (w, w), lambda i, j: implies(land(i >= 1, j >= 1, 2 * c - i < w, 2 * c - j < w), land(
        eq(at(r, i, j), at(r, 2 * c - i, j)), eq(at(r, i, j), at(r, i, 2 * c - j)), eq(at(r, i, j), at(r, j, i)))))


@contract("A28", UTI, "make_2d_gaussian_window", {})
def make_2d_gaussian_window(E):
    h, w = sizes(E, 1)
    sx, sy = E.real("sigma_x", 0.01, 1e4), E.real("sigma_y", 0.01, 1e4)
    r = E.call(h, w, sx, sy)
    shape2(E, r, h, w)
    xc, yc = div(w - 1, 2), div(h - 1, 2)
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), fexp(
        -(div((j - xc) * (j - xc), 2 * sx * sx) + div((i - yc) * (i - yc), 2 * sy * sy)))))
    E.forall("range", (h, w), lambda i, j: land(at(r, i, j) >= 0, at(r, i, j) <= 1))
    E.forall("mirror", (h, w), lambda i, j: land(eq(at(r, i, j), at(r, h - 1 - i, j)), eq(at(r, i, j), at(r, i, w - 1 - j))))


@contract("A28", UTI, "make_2d_damping_window", dict(name=["gaussian", "butter"]))
def make_2d_damping_window(E, name):
    h, w = sizes(E, 1)
    s = E.real("size", 0.01, 1e4)
    r = E.call(w, h, s, window_name=name)
    shape2(E, r, h, w)
    xc = ceil(div(w, 2)) - 1

    def val(j):
        x = j - xc
        return 1 - fexp(-div(x * x, 2 * s * s)) if name == "gaussian" else 1 - div(1, 1 + div(x, s) * div(x, s))
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), val(j)))
    E.forall("range", (h, w), lambda i, j: between(0, at(r, i, j), 1))
    E.forall("zero_at_centre", (h,), lambda i: eq(at(r, i, xc), 0))
    E.forall("mirror", (h, w), lambda i, j: implies(2 * xc - j >= 0, eq(at(r, i, j), at(r, i, 2 * xc - j))))


@contract("A28", UTI, "make_2d_butterworth_window", {})
def make_2d_butterworth_window(E):
    h, w = sizes(E, 1)
    u = E.real("u", 0.1, 1e4)
    v = E.int("v", 0, 20000)
    n = E.int("n", 1, 20)
    r = E.call(w, h, u, v, n)
    shape2(E, r, h, w)
    xc, yc = ceil(div(w, 2)) - 1, ceil(div(h, 2)) - 1

    def val(i, j):
        return ite(absv(i - yc) <= v, div(1, 1 + fpow(div(j - xc, u), 2 * n)), 1)
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), val(i, j)))


@contract("A28", FIL, "make_fresnel_window", dict(dim=[1, 2]))
def make_fresnel_window(E, dim):
    h, w = sizes(E, 1)
    ratio = E.real("ratio", 0, 1e5)
    r = E.call(h, w, ratio, dim)
    shape2(E, r, h, w)
    xc, yc = ceil(div(w - 1, 2)), ceil(div(h - 1, 2))

    def val(i, j):
        u = div(j - xc, w) * div(j - xc, w)
        return 1 + ratio * (u + (div(i - yc, h) * div(i - yc, h) if dim == 2 else 0))
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), val(i, j)))
    E.forall("at_least_one", (h, w), lambda i, j: at(r, i, j) >= 1)
    E.ensure("one_at_centre", eq(at(r, yc, xc), 1))
    E.forall("mirror", (h, w), lambda i, j: land(
        implies(2 * xc - j < w, implies(2 * xc - j >= 0, eq(at(r, i, j), at(r, i, 2 * xc - j)))),
        implies(land(2 * yc - i < h, 2 * yc - i >= 0), eq(at(r, i, j), at(r, 2 * yc - i, j)))))


def wedge(i, j, h, w, radius, pc):
    """Column j of row i lies inside the double wedge of a sample of the given radius."""
    yc, xc = ceil(div(h - 1, 2)), ceil(div(w - 1, 2))
    num = ceil(div(div((i - yc) * div(h - 1, h * 2 * fpi()), radius), div(1, w)))
    lo, hi = xc - absv(num), xc + absv(num)
    return land(clip(0, lo, w - 1) <= j, j <= clip(0, hi, w - 1))


@contract("A28", FIL, "make_double_wedge_mask", {})
def make_double_wedge_mask(E):
    h, w = sizes(E)
    radius = E.real("radius", 0.5, 20000)
    E.require((h * w) <= 32000 * radius)
    r = E.call(h, w, radius)
    shape2(E, r, h, w)
    yc = ceil(div(h - 1, 2))
    E.forall("wedge", (h, w), lambda i, j: eq(at(r, i, j), ite(absv(i - yc) <= 1, 1, ite(wedge(i, j, h, w, radius, 0), 0, 1))))


@contract("A28", CAL, "make_inverse_double_wedge_mask", dict(hd=["none", "int"], vd=["none", "int"]))
def make_inverse_double_wedge_mask(E, hd, vd):
    h, w = sizes(E, 4)
    radius = E.real("radius", 0.5, 20000)
    hor = E.int("hor_drop", 0, 100) if hd == "int" else None
    ver = E.int("ver_drop", 0, 100) if vd == "int" else None
    r = E.call(h, w, radius, hor, ver)
    shape2(E, r, h, w)
    yc, xc = ceil(div(h - 1, 2)), ceil(div(w - 1, 2))
    nh = imin(20, idiv(h, 20)) if hor is None else clip(1, hor, idiv(h, 3))
    nv = 1 if ver is None else clip(1, ver, idiv(w, 3))
    E.forall("wedge", (h, w), lambda i, j: eq(at(r, i, j), ite(lor(absv(i - yc) <= nh, absv(j - xc) <= nv), 0,
                                                              ite(wedge(i, j, h, w, radius, 0), 1, 0))))


WINDOWS = ["hann", "bartlett", "blackman", "hamming", "nuttall", "parzen", "triang", None]


@contract("A28", REC, "make_smoothing_window", dict(name=WINDOWS))
def make_smoothing_window(E, name):
    w = E.size("width", 2, 30000)
    r = E.call(name, w)
    E.ensure("shape", land(eq(length(r.shape), 1), eq(r.shape[0], w)))
    E.forall("range", (w,), lambda i: land(at(r, i) >= -1e-9, at(r, i) <= 1 + 1e-9))
    E.forall("mirror", (w,), lambda i: eq(at(r, i), at(r, w - 1 - i)))
    pi = fpi()

    def val(i):
        x = div(2 * i, w - 1) - 1                    # -1 .. 1 over the window
        if name == "hann":
            return 0.5 + 0.5 * fcos(pi * x)
        if name == "hamming":
            return 0.54 + 0.46 * fcos(pi * x)
        if name == "blackman":
            return 0.42 + 0.5 * fcos(pi * x) + 0.08 * fcos(2 * pi * x)
        if name == "nuttall":
            return 0.3635819 + 0.4891775 * fcos(pi * x) + 0.1365995 * fcos(2 * pi * x) + 0.0106411 * fcos(3 * pi * x)
        if name == "bartlett":
            return 1 - absv(x)
        if name == "triang":
            d = absv(i - div(w - 1, 2))
            return ite(eq(mod(w, 2), 0), 1 - div(2 * d, w), 1 - div(2 * d, w + 1))
        if name == "parzen":
            d = div(absv(i - div(w - 1, 2)), div(w, 2))
            return ite(4 * absv(i - div(w - 1, 2)) <= w - 1, 1 - 6 * d * d + 6 * d * d * d, 2 * (1 - d) * (1 - d) * (1 - d))
        return 1
    E.forall("value", (w,), lambda i: eq(at(r, i), val(i)))


def ramp_kernel(w):
    """The discrete ramp kernel 1/4, 0, -1/(pi n)^2 in natural order."""
    import numpy as np
    n = np.arange(w) - np.ceil((w - 1) / 2.0)
    odd = n % 2 == 1
    k = np.where(n == 0, 0.25, 0.0)
    k[odd] = -1.0 / (np.pi * n[odd]) ** 2
    return k


@contract("A28", REC, "make_2d_ramp_window", dict(name=WINDOWS), bounded="spectrum: FFT is not modelled")
def make_2d_ramp_window(E, name):
    import numpy as np
    h, w = E.size("height", 1, 30000), E.size("width", 3, 30000)
    r = E.call(h, w, name)
    shape2(E, r, h, w)
    win = E.fn("make_smoothing_window")(name, w)
    spec = np.fft.fftshift(np.array([sum(ramp_kernel(w) * np.exp(-2j * np.pi * f * np.arange(w) / w)) for f in range(w)])) * win
    E.ensure("value", bool(np.allclose(np.asarray(r), np.tile(spec, (h, 1)), atol=1e-9)))
    mag = np.abs(np.asarray(r)[0])
    c = w // 2
    E.ensure("smallest_at_centre", bool(name is not None or mag[c] <= mag.min() + 1e-9))
    E.ensure("mirror", bool(all(abs(abs(spec[c - d]) - abs(spec[c + d])) < 1e-9 for d in range(1, (w - 1) // 2 + 1)) or name is not None))


@contract("A28", PHA, "_make_window", dict(direction=["forward", "backward"]))
def phase_window(E, direction):
    h, w = sizes(E, 2)
    r = E.call(h, w, direction)
    shape2(E, r, h, w)
    xc, yc = idiv(w, 2), idiv(h, 2)

    def val(i, j):
        v = div(j - xc, xc) * div(j - xc, xc) + div(i - yc, yc) * div(i - yc, yc)
        return ite(land(eq(i, yc), eq(j, xc)), 1, v) if direction != "forward" else v
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), val(i, j)))
    E.forall("positive", (h, w), lambda i, j: land(at(r, i, j) >= 0, lor(at(r, i, j) > 0, land(eq(i, yc), eq(j, xc)))))


@contract("A28", PHA, "_make_cosine_window", {})
def cosine_window(E):
    h, w = sizes(E, 1)
    r = E.call(h, w)
    shape2(E, r, h, w)
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), ite(land(eq(i, 0), eq(j, 0)), 1, 2 * (
        fcos(div(fpi() * i, h)) + fcos(div(fpi() * j, w)) - 2))))


@contract("A28", PHA, "_make_window_FC_method", {})
def fc_window(E):
    h, w = sizes(E, 2)
    u, v, r = E.call(h, w)
    shape2(E, r, h, w)
    xc, yc = idiv(w, 2), idiv(h, 2)
    E.forall("u", (h, w), lambda i, j: eq(at(u, i, j), div(j - xc, w)))
    E.forall("v", (h, w), lambda i, j: eq(at(v, i, j), div(i - yc, w)))
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), ite(land(eq(i, yc), eq(j, xc)), 0, div(
        1, div(j - xc, w) * div(j - xc, w) + div(i - yc, w) * div(i - yc, w)))))


def placed(E, i, j, size, center, angle):
    """Coordinates of pixel (i, j) in the frame of a shape with the given centre, rotated by the angle (degrees)."""
    c = idiv(size, 2)
    x, y = j - c - center[0], c - i - center[1]
    a = -div(angle * fpi(), 180)
    return x * fcos(a) - y * fsin(a), x * fsin(a) + y * fcos(a)


def shape_args(E, kind):
    s = E.size("size", 1, 30000)
    a = E.real("angle", -360, 360)
    cx, lx = E.real("cx", -10, 10), E.real("lx", 0.5, 20)
    cy, ly = (E.real("cy", -10, 10), E.real("ly", 0.5, 20)) if kind == "pair" else (cx, lx)
    return s, a, cx, cy, lx, ly, ((cx, cy) if kind == "pair" else cx), ((lx, ly) if kind == "pair" else lx)


@contract("A28", SIM, "make_elliptic_mask", dict(kind=["one", "pair"]))
def make_elliptic_mask(E, kind):
    s, a, cx, cy, lx, ly, c, l = shape_args(E, kind)
    r = E.call(s, c, l, a)
    shape2(E, r, s, s)

    def rad(i, j):
        x, y = placed(E, i, j, s, (cx, cy), a)
        x, y = div(x, lx * 0.5), div(y, ly * 0.5)
        return fsqrt(x * x + y * y)
    E.forall("binary", (s, s), lambda i, j: lor(eq(at(r, i, j), 0), eq(at(r, i, j), 1)))
    if E.rt:
        E.forall("ellipse", (s, s), lambda i, j: land(implies(rad(i, j) < 1.00999, eq(at(r, i, j), 1)),
                                                      implies(rad(i, j) > 1.01001, eq(at(r, i, j), 0))))
    else:
        E.forall("ellipse", (s, s), lambda i, j: eq(at(r, i, j), ite(rad(i, j) <= 1.01, 1, 0)))


@contract("A28", SIM, "make_rectangular_mask", dict(kind=["one", "pair"]))
def make_rectangular_mask(E, kind):
    s, a, cx, cy, lx, ly, c, l = shape_args(E, kind)
    r = E.call(s, c, l, a)
    shape2(E, r, s, s)

    def far(i, j):
        x, y = placed(E, i, j, s, (cx, cy), a)
        return imax(absv(div(x, lx * 0.5)), absv(div(y, ly * 0.5)))
    E.forall("binary", (s, s), lambda i, j: lor(eq(at(r, i, j), 0), eq(at(r, i, j), 1)))
    if E.rt:
        E.forall("rectangle", (s, s), lambda i, j: land(implies(far(i, j) < 1.00999, eq(at(r, i, j), 1)),
                                                        implies(far(i, j) > 1.01001, eq(at(r, i, j), 0))))
    else:
        E.forall("rectangle", (s, s), lambda i, j: eq(at(r, i, j), ite(far(i, j) <= 1.01, 1, 0)))
