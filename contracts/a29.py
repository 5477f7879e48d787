"""A29 calibration geometry."""
from vc.spec import *

CAL = "algotom.util.calibration"
if RT:
    import math
    import numpy as np


@contract("A29", CAL, "check_dot_size", {})
def dot_size_check(E):
    h, w = E.size("h", 1, 3000, small=6), E.size("w", 1, 3000, small=6)
    m = E.array("dot", (h, w), "int16", lo=0, hi=1)
    lo, hi = E.real("min", 0, 40), E.real("max", 0, 40)
    r = E.call(m, lo, hi)
    s = SUMI((h, w), lambda i, j: at(m, i, j))
    ok = land(s >= lo, s <= hi)
    E.ensure("range", ok if r else lnot(ok))


@contract("A29", CAL, "invert_dot_contrast", {})
def invert(E):
    """Inverted where the mean is above one half, from the largest value."""
    h, w = E.size("h", 1, 3000, small=6), E.size("w", 1, 3000, small=6)
    m = E.array("mat", (h, w), lo=0, hi=1)
    r = E.call(m)
    top = MAXR((h, w), lambda i, j: at(m, i, j))
    s = SUM((h, w), lambda i, j: at(m, i, j))
    if E.rt:
        E.require(abs(s - 0.5 * h * w) > 1e-3)
    E.forall("contrast", (h, w), lambda i, j: eq(at(r, i, j), ite(2 * s > h * w, top - at(m, i, j), at(m, i, j))))


@contract("A29", CAL, "fit_points_to_ellipse", {}, name="ellipse of the fitted conic", budget=300)
def ellipse(E):
    """Centre and axes are those of the conic a x^2 + b xy + c y^2 + d x + e y + f = 0 given by the last singular vector."""
    n = E.size("n", 6, 30000, small=8)
    x, y = E.array("x", (n,), "float64", lo=-3, hi=3), E.array("y", (n,), "float64", lo=-3, hi=3)
    A = E.lib("numpy", "array", [x ** 2, x * y, y ** 2, x, y, E.lib("numpy", "ones_like", x)])
    vh = E.lib("numpy.linalg", "svd", E.lib("numpy", "transpose", A), full_matrices=False)[-1]
    a, b, c, d, e, f = [at(vh, length(vh) - 1, k) for k in range(6)]
    den = b * b - 4 * a * c
    if E.rt:
        E.require(abs(den) > 1e-3)
        TOL[0] = 1e-6
    r = E.call(x, y, _may_raise={"ValueError": True})
    roll, ma, mi, xc, yc = [at(r, k) for k in range(5)]
    k = f + div(d * xc + e * yc, 2)
    E.ensure("centre_x", eq(2 * a * xc + b * yc + d, 0))
    E.ensure("centre_y", eq(b * xc + 2 * c * yc + e, 0))
    E.ensure("order", ma >= mi)
    # the squared semi-axes are -k over the eigenvalues of the quadratic form: their sum and product
    p, q = div(ma * ma, 4), div(mi * mi, 4)
    E.ensure("axes_sum", eq((p + q) * den, 4 * k * (a + c)))
    E.ensure("axes_product", eq(p * q * den, -4 * k * k))


@contract("A29", CAL, "fit_points_to_ellipse", dict(turn=["any", 0, 90, -90, 45]), name="ellipse through points", bounded=True, samples=60)
def ellipse_rt(E, turn):
    """Noise-free points on an ellipse give back the ellipse."""
    n = E.int("n", 6, 60)
    A = E.real("major", 2, 60)
    B = A * E.real("ratio", 0.05, 0.9)
    phi = math.radians(E.real("angle", -89.5, 89.5) if turn == "any" else turn)
    xc, yc = E.real("xc", -50, 50), E.real("yc", -50, 50)
    t = np.arange(n) * 2 * math.pi / n + E.real("start", 0, 6)
    u, v = A / 2 * np.cos(t), B / 2 * np.sin(t)
    x = xc + u * math.cos(phi) - v * math.sin(phi)
    y = yc + u * math.sin(phi) + v * math.cos(phi)
    r, ma, mi, cx, cy = E.call(x, y)
    e = 1e-3 * A
    E.ensure("centre", abs(cx - xc) < e and abs(cy - yc) < e)
    E.ensure("axes", abs(ma - A) < e and abs(mi - B) < e)
    E.ensure("angle", abs(math.sin(math.radians(r) - phi)) < 5e-3)
    E.ensure("principal", -90.001 <= r <= 90.001)
    if B > 6:
        f = E.fn("find_tilt_roll", CAL)
        tilt, roll = f(x, y, method="ellipse")
        res = np.polyfit(x, y, 1)
        E.ensure("tilt", abs(tilt - math.degrees(math.atan2(B, A))) < 0.05 or abs(res[0]) > 1e4)
        E.ensure("roll", abs(math.sin(math.radians(roll) - phi)) < 5e-3 or abs(res[0]) > 1e4)
    E.call(x, y[:-1], _raises={"ValueError": True})


@contract("A29", CAL, "find_tilt_roll", dict(flat=[True, False]), name="tilt and roll of a line", bounded=True, samples=40)
def line(E, flat):
    """Points that go forth and back on a line: no tilt, the slope as the roll; a flat ellipse: its axes."""
    n = E.int("n", 60, 180)
    L = E.real("length", 200, 1500)
    phi = math.radians(E.real("angle", -60, 60))
    tilt = 0.0 if flat else E.real("tilt", 0.02, 0.3)
    xc, yc = E.real("xc", -500, 500), E.real("yc", -500, 500)
    t = np.arange(n) * 2 * math.pi / n
    u, v = L / 2 * np.cos(t), L / 2 * math.tan(math.radians(tilt)) * np.sin(t)
    x = xc + u * math.cos(phi) - v * math.sin(phi)
    y = yc + u * math.sin(phi) + v * math.cos(phi)
    a, b = E.call(x, y, method="linear")
    E.ensure("tilt", abs(a - tilt) < 2e-3 + 0.02 * tilt)
    E.ensure("roll", abs(b - math.degrees(phi)) < 2e-2)
    E.call(x, y, method="other", _raises={"ValueError": True})
    E.call(x, y[:-2], method="linear", _raises={"ValueError": True})


def components(m):
    """4-connected components: lists of pixels."""
    h, w = m.shape
    seen, out = np.zeros((h, w), bool), []
    for i in range(h):
        for j in range(w):
            if m[i, j] and not seen[i, j]:
                st, c = [(i, j)], []
                seen[i, j] = True
                while st:
                    p, q = st.pop()
                    c.append((p, q))
                    for s, t in ((p + 1, q), (p - 1, q), (p, q + 1), (p, q - 1)):
                        if 0 <= s < h and 0 <= t < w and m[s, t] and not seen[s, t]:
                            seen[s, t] = True
                            st.append((s, t))
                out.append(c)
    return out


@contract("A29", CAL, "select_dot_based_size", dict(ratio=[0.0, 0.01, 0.3, 1.0]), bounded=True, samples=80)
def select(E, ratio):
    """Exactly the dots with a size in the range, whatever their shape and wherever their neighbours are."""
    h, w = E.size("h", 1, 14), E.size("w", 1, 14)
    p = E.real("density", 0.1, 0.7)
    m = E.array("mat", (h, w), "int16", gen=lambda rs, n: rs.uniform(0, 1, n) < p)
    c = components(m)
    s = E.real("size", 1, 12) if not c or E.bool("free") else float(len(c[E.int("dot", 0, 200) % len(c)]))
    r = E.call(m, s, ratio=ratio)
    E.ensure("shape", r.shape == (h, w))
    lo, hi = s - ratio * s, s + ratio * s
    for q in c:
        v = [int(r[t]) for t in q]
        if lo <= len(q) <= hi:
            E.ensure("kept", all(x == 1 for x in v))
        elif len(q) < math.floor(lo) or len(q) > max(hi, 1):
            E.ensure("removed", not any(v))
        else:
            E.ensure("whole", len(set(v)) == 1)
    E.ensure("nothing else", bool((r[m == 0] == 0).all()))


@contract("A29", CAL, "get_dot_size", dict(opt=["max", "min", "median", "mean"]), bounded=True, samples=60)
def dot_size(E, opt):
    h, w = E.size("h", 1, 14), E.size("w", 1, 14)
    p = E.real("density", 0.1, 0.7)
    m = E.array("mat", (h, w), "float32", gen=lambda rs, n: rs.uniform(0, 1, n) < p)
    E.require(bool(m.any()))
    s = [len(c) for c in components(m)]
    r = E.call(m, size_opt=opt)
    E.ensure("size", eq(float(r), float(dict(max=max, min=min, median=np.median, mean=np.mean)[opt](s))))


@contract("A29", CAL, "calculate_distance", dict(bgr=["bright", "dark"], thr=[True], opt=["max", "min"], denoise=[True, False]), bounded=True, samples=6)
def distance(E, bgr, thr, opt, denoise):
    """A point-like object moved by whole pixels; a second, larger or smaller, object is not selected."""
    h, w = 90, 96
    rad = E.int("rad", 5, 9)
    other = E.int("other", 2, 3) if opt == "max" else E.int("bigger", 12, 14)

    def image(cy, cx, oy, ox):
        y, x = np.mgrid[0:h, 0:w]
        m = np.ones((h, w), np.float32)
        m[(y - cy) ** 2 + (x - cx) ** 2 <= rad ** 2] = 0.2
        m[(y - oy) ** 2 + (x - ox) ** 2 <= other ** 2] = 0.2
        return m if bgr == "bright" else np.float32(1.2 - m)
    p = [E.int("y%d" % k, 12, 40) for k in range(2)], [E.int("x%d" % k, 12, w - 12) for k in range(2)]
    m1, m2 = image(p[0][0], p[1][0], 72, 20), image(p[0][1], p[1][1], 70, 66)
    r = E.call(m1, m2, size_opt=opt, bgr=bgr, threshold=0.6 if thr else None, denoise=denoise)
    E.ensure("distance", abs(float(r) - math.hypot(p[0][0] - p[0][1], p[1][0] - p[1][1])) < 0.02)
