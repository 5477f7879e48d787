"""A18 back-projection (CPU kernels); A19 sampling points of vertical slices."""
from vc.spec import *

REC = "algotom.rec.reconstruction"
VER = "algotom.rec.vertrec"


def view_value(row, pos, width, pad):
    """Linear interpolation of row(0..width-1) at pos; 0 (or the edge value) outside the detector."""
    lo, hi = floor(pos), ceil(pos)
    inside = row(lo) + (row(hi) - row(lo)) * (pos - lo)
    if pad is None:
        out = 0
    else:
        edge = ite(pos < 0, row(0), row(width - 1))
        out = ite(pad, edge, 0) if not isinstance(pad, bool) else (edge if pad else 0)
    return ite(land(0 <= pos, pos <= width - 1), inside, out)


@contract("A18", REC, "back_projection_cpu", dict(pad=[False, True]), rt_budget=4.0)
def back_projection_cpu(E, pad):
    n, w = E.size("n", 1, 30000), E.size("w", 1, 30000)
    sino = E.array("sino", (n, w))
    ang = E.array("angles", (n,), lo=-7, hi=7)
    cen = E.real("center", -5, w + 4)
    r = E.call(sino, ang, cen, pad)
    E.ensure("shape", land(eq(r.shape[0], w), eq(r.shape[1], w)))
    half = div(w - 1, 2)
    if E.rt:
        TOL[0] = 2e-3

    def val(y, x):
        def one(i):
            th = -at(ang, i)
            return view_value(lambda j: at(sino, i, j), (x - half) * fcos(th) + (y - half) * fsin(th) + cen, w, pad)
        return SUM(n, one)
    E.forall("value", (w, w), lambda y, x: eq(at(r, y, x), val(y, x)))


@contract("A18", VER, "vertical_back_projection_cpu", dict(pad=[False, True]), rt_budget=4.0)
def vertical_back_projection_cpu(E, pad):
    n, h, w = E.size("n", 1, 30000), E.size("h", 1, 30000), E.size("w", 1, 30000)
    proj = E.array("proj", (n, h, w))
    ang = E.array("angles", (n,), lo=-7, hi=7)
    xl, yl = E.array("xlist", (w,), lo=-20, hi=20), E.array("ylist", (w,), lo=-20, hi=20)
    cen = E.real("center", -5, w + 4)
    r = E.call(proj, ang, xl, yl, cen, pad)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    if E.rt:
        TOL[0] = 2e-3

    def val(i, j):
        def one(k):
            th = at(ang, k)
            return view_value(lambda q: at(proj, k, i, q), at(xl, j) * fcos(th) + at(yl, j) * fsin(th) + cen, w, pad)
        return SUM(n, one)
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), val(i, j)))


@contract("A18", VER, "vertical_back_projection_cpu_chunk", dict(pad=[False, True]), rt_budget=4.0)
def vertical_back_projection_cpu_chunk(E, pad):
    n, h, w = E.size("n", 1, 30000), E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.size("m", 1, 30000, small=4)
    proj = E.array("proj", (n, h, w))
    ang = E.array("angles", (n,), lo=-7, hi=7)
    xl, yl = E.array("xmat", (m, w), lo=-20, hi=20), E.array("ymat", (m, w), lo=-20, hi=20)
    cen = E.real("center", -5, w + 4)
    r = E.call(proj, ang, xl, yl, cen, pad)
    E.ensure("shape", land(eq(r.shape[0], m), eq(r.shape[1], h), eq(r.shape[2], w)))
    if E.rt:
        TOL[0] = 2e-3

    def val(s, i, j):
        def one(k):
            th = at(ang, k)
            return view_value(lambda q: at(proj, k, i, q), at(xl, s, j) * fcos(th) + at(yl, s, j) * fsin(th) + cen, w, pad)
        return SUM(n, one)
    E.forall("value", (m, h, w), lambda s, i, j: eq(at(r, s, i, j), val(s, i, j)))


# ---- GPU kernels: the value written by the thread of one pixel (not executable here: proved only)
def kernel(E, name, *args):
    y, x = E.int("thread_y", 0, 60000), E.int("thread_x", 0, 60000)
    E.c.cuda_ids = (y, x)
    E.run(E.fn(name), *args)
    return y, x


@contract("A18", REC, "__back_projection_gpu_kernel", dict(pad=[False, True], chunk=[False, True]), name="reconstruction.gpu_kernels",
          frame=False)
def gpu_kernel(E, pad, chunk):
    if E.rt:
        return
    n, w, m = E.size("n", 1, 30000), E.size("w", 1, 30000), E.size("m", 1, 30000)
    sino = E.array("sino", (n, m, w) if chunk else (n, w))
    ang = E.array("angles", (n,), lo=-7, hi=7)
    cen = E.real("center", -5, w + 4)
    old = E.array("old", (w, m, w) if chunk else (w, w))
    new = E.lib("numpy", "copy", old)
    if chunk:
        x, y = kernel(E, "__back_projection_gpu_chunk_kernel", new, sino, ang, cen, n, w, m, pad)
    else:
        x, y = kernel(E, "__back_projection_gpu_kernel", new, sino, ang, cen, n, w, pad)
    half = div(w - 1, 2)

    def val(j):
        def one(i):
            th = -at(ang, i)
            return view_value(lambda q: at(sino, i, j, q) if chunk else at(sino, i, q),
                              (x - half) * fcos(th) + (y - half) * fsin(th) + cen, w, pad)
        return SUM(n, one)
    ins = land(x < w, y < w)
    if chunk:
        E.forall("own_pixel", (m,), lambda j: implies(ins, eq(at(new, y, j, x), at(old, y, j, x) + val(j))))
        E.forall("other_pixels", (w, m, w), lambda a, j, b: implies(lor(a != y, b != x), eq(at(new, a, j, b), at(old, a, j, b))))
    else:
        E.ensure("own_pixel", implies(ins, eq(at(new, y, x), val(0))))
        E.forall("other_pixels", (w, w), lambda a, b: implies(lor(a != y, b != x), eq(at(new, a, b), at(old, a, b))))


@contract("A18", VER, "__vertical_back_projection_gpu_kernel", dict(pad=[False, True], chunk=[False, True]), name="vertrec.gpu_kernels",
          frame=False)
def gpu_kernel_vertical(E, pad, chunk):
    if E.rt:
        return
    n, h, w, m = E.size("n", 1, 30000), E.size("h", 1, 30000), E.size("w", 1, 30000), E.size("m", 1, 30000)
    proj = E.array("proj", (n, h, w))
    ang = E.array("angles", (n,), lo=-7, hi=7)
    xl = E.array("x", (m, w) if chunk else (w,), lo=-20, hi=20)
    yl = E.array("y", (m, w) if chunk else (w,), lo=-20, hi=20)
    cen = E.real("center", -5, w + 4)
    old = E.array("old", (m, h, w) if chunk else (h, w))
    new = E.lib("numpy", "copy", old)
    if chunk:
        i, j = kernel(E, "__vertical_back_projection_gpu_chunk_kernel", new, proj, ang, xl, yl, cen, n, h, w, m, pad)
    else:
        i, j = kernel(E, "__vertical_back_projection_gpu_kernel", new, proj, ang, xl, yl, cen, n, h, w, pad)

    def val(s):
        def one(k):
            th = at(ang, k)
            xx, yy = (at(xl, s, j), at(yl, s, j)) if chunk else (at(xl, j), at(yl, j))
            return view_value(lambda q: at(proj, k, i, q), xx * fcos(th) + yy * fsin(th) + cen, w, pad)
        return SUM(n, one)
    ins = land(i < h, j < w)
    if chunk:
        E.forall("own_pixel", (m,), lambda s: implies(ins, eq(at(new, s, i, j), val(s))))
        E.forall("other_pixels", (m, h, w), lambda s, a, b: implies(lor(a != i, b != j), eq(at(new, s, a, b), at(old, s, a, b))))
    else:
        E.ensure("own_pixel", implies(ins, eq(at(new, i, j), val(0))))
        E.forall("other_pixels", (h, w), lambda a, b: implies(lor(a != i, b != j), eq(at(new, a, b), at(old, a, b))))


# ------------------------------------------------------------------------------------------------- A19
@contract("A19", VER, "_get_points_single_line", dict(typ=["int", "real"]))
def points_single_line(E, typ):
    w = E.size("w", 1, 30000)
    idx = E.int("index", -2, w + 1) if typ == "int" else E.real("index", -2, w + 1)
    alpha = E.real("alpha", -10, 190, vals=[0, 45, 90, 135, 180])
    bad = lor(alpha < 0, alpha > 180, idx < 0, idx > w - 1)
    xs, ys = E.call(idx, alpha, w, _raises={"ValueError": bad})
    E.ensure("shape", land(eq(length(xs), w), eq(length(ys), w)))
    a = alpha * fpi() / 180
    c, s = fcos(a), fsin(a)
    cen = ceil(div(w - 1, 2))
    # foot point of the axis on the line plus one pixel per sample along the direction (cos, sin)
    E.forall("x", (w,), lambda i: eq(at(xs, i), (idx - cen) * s + (i - cen) * c))
    E.forall("y", (w,), lambda i: eq(at(ys, i), -(idx - cen) * c + (i - cen) * s))


if not RT:
    from vc.sym_env import callee
    from vc import arrays as _A
    from vc.terms import PyExc

    @callee(VER, "_get_points_single_line")
    def _points(env, slice_index, alpha, width):
        """The contract proved above, used by the callers instead of the body."""
        if lor(alpha < 0, alpha > 180, slice_index < 0, slice_index > width - 1):
            raise PyExc("ValueError", "out of range")
        a = alpha * fpi() / 180
        c, s, cen = fcos(a), fsin(a), ceil(div(width - 1, 2))
        return (_A.mkarr((width,), lambda i: (slice_index - cen) * s + (i - cen) * c, "float64"),
                _A.mkarr((width,), lambda i: -(slice_index - cen) * c + (i - cen) * s, "float64"))


@contract("A19", VER, "_get_points_multiple_lines", {})
def points_multiple_lines(E):
    w = E.size("w", 1, 30000)
    a, b = E.int("start", 0, w - 1), E.int("stop", 0, w - 1)
    E.require(a <= b)
    st = E.int("step", 1, 5)
    alpha = E.real("alpha", 0, 180, vals=[0, 45, 90, 135, 180])
    xs, ys = E.call(a, b, alpha, w, st)
    n = idiv(b - a, st) + 1
    E.ensure("shape", land(eq(length(xs), n), eq(length(ys), n)))
    al = alpha * fpi() / 180
    c, s = fcos(al), fsin(al)
    cen = ceil(div(w - 1, 2))
    E.forall("x", (n, w), lambda k, i: eq(at(xs, k, i), (a + k * st - cen) * s + (i - cen) * c))
    E.forall("y", (n, w), lambda k, i: eq(at(ys, k, i), -(a + k * st - cen) * c + (i - cen) * s))


@contract("A19", VER, "_get_points_multiple_lines_different_angles", dict(n=[1, 2, 3]))
def points_different_angles(E, n):
    w = E.size("w", 1, 30000)
    idx = [E.int("index%d" % k, 0, w - 1) for k in range(n)]
    alpha = [E.real("alpha%d" % k, 0, 180, vals=[0, 45, 90, 135, 180]) for k in range(n)]
    xs, ys = E.call(idx, alpha, w)
    E.ensure("shape", land(eq(length(xs), n), eq(length(ys), n)))
    cen = ceil(div(w - 1, 2))
    for k in range(n):
        al = alpha[k] * fpi() / 180
        c, s = fcos(al), fsin(al)
        E.forall("x%d" % k, (w,), lambda i: eq(at(xs, k, i), (idx[k] - cen) * s + (i - cen) * c))
        E.forall("y%d" % k, (w,), lambda i: eq(at(ys, k, i), -(idx[k] - cen) * c + (i - cen) * s))
