"""A26 correlation peaks and maps of local shifts."""
from vc.spec import *

COR = "algotom.util.correlation"
REC = "algotom.rec.reconstruction"

if not RT:
    from vc import sym_env as _S
    from vc import npmodel as _N, terms as _T, arrays as _A, libs as _L

    @_S.callee(COR, "find_shift_based_correlation_map")
    def _shift(env, ref_mat, mat, **kw):
        """Modular contract: the shifts are functions of the two windows and the options."""
        if not env.contract.name.startswith("local"):
            return NotImplemented
        env.c.assumptions.add("find_shift_based_correlation_map is a deterministic function of its arguments (its own contract)")
        kw.pop("gpu", None), kw.pop("block", None)
        key, sc = _L.keyparts(*[kw[k] for k in sorted(kw)])
        return tuple(_N.opaque_array("callee:shift" + s, [_N.asarray(ref_mat), _N.asarray(mat)], (), sc, "float64", key).at() for s in "xy")

    @_S.callee(COR, "normalize_image")
    def _norm(env, mat):
        if not env.contract.name.startswith("local"):
            return NotImplemented
        env.c.assumptions.add("normalize_image is a deterministic function of its argument")
        return _N.opaque_array("callee:normalize", [_N.asarray(mat)], mat.shape, (), "float64")

    @_S.callee(COR, "generate_correlation_map")
    def _corr(env, ref_mat, mat, gpu=False, block=None):
        if not env.contract.name.startswith("shift"):
            return NotImplemented
        env.c.assumptions.add("generate_correlation_map is a deterministic function of the two images (its own contract)")
        sh = tuple(r - m + 1 for r, m in zip(ref_mat.shape[-2:], mat.shape[-2:]))
        return _N.opaque_array("callee:corr_map", [ref_mat, mat], sh, (), "float32")

    @_S.callee(COR, "locate_peak")
    def _peak(env, mat, **kw):
        if not env.contract.name.startswith("shift"):
            return NotImplemented
        env.c.assumptions.add("locate_peak is a deterministic function of its arguments (its own contract)")
        key, sc = _L.keyparts(*[kw[k] for k in sorted(kw)])
        return tuple(_N.opaque_array("callee:peak" + s, [_N.asarray(mat)], (), sc, "float64", key).at() for s in "xy")


    @_S.callee(COR, "_locate_1d_peak_subpixel")
    def _peak1(env, list_data, method="diff"):
        """Modular contract (proved below): inside the list; half a sample at most from the first largest value."""
        if env.contract.func != "locate_peak" or isinstance(list_data.shape[0], _T.Sym):
            return NotImplemented
        n = list_data.shape[0]
        r = _N.opaque_array("callee:peak1", [list_data], (), (), "float64", (method,)).at()
        env.c.assume(between(0, r, n - 1))
        for k in range(n):
            first = land(*([at(list_data, i) < at(list_data, k) for i in range(k)] + [at(list_data, i) <= at(list_data, k) for i in range(k + 1, n)]))
            env.c.assume(implies(first, absv(r - k) <= div(1, 2) if method == "diff" else land(r > 0 if k else True, r < n - 1 if k < n - 1 else True)))
        return r

    @_S.callee(COR, "_locate_2d_peak_subpixel")
    def _peak2(env, mat, method="diff"):
        """Modular contract (proved below): inside the array; with the differential method less than a pixel from the first largest value."""
        if env.contract.func != "locate_peak" or isinstance(mat.shape[0], _T.Sym) or isinstance(mat.shape[1], _T.Sym):
            return NotImplemented
        h, w = mat.shape
        x, y = [_N.opaque_array("callee:peak2" + q, [mat], (), (), "float64", (method,)).at() for q in "xy"]
        y0, x0 = env.lib("numpy", "unravel_index", env.lib("numpy", "argmax", mat), (h, w))
        for sl, q in zip(mat.sel or (), (y0, x0)):
            env.hint(sl[2] + q)         # the same place seen from the map
        env.c.assume(land(between(0, x, w - 1), between(0, y, h - 1)))
        env.c.assume(land(implies(x0 > 0, x > 0), implies(x0 < w - 1, x < w - 1), implies(y0 > 0, y > 0), implies(y0 < h - 1, y < h - 1)))
        if method == "diff":
            env.c.assume(land(absv(x - x0) < 1, absv(y - y0) < 1))
        return x, y


# ------------------------------------------------------------------------------------------- the peak
def peak_map(E):
    h, w = E.size("h", 1, 30000, small=6), E.size("w", 1, 30000, small=6)
    m = E.array("map", (h, w), lo=-1, hi=1)
    if E.rt and E.bool("coarse_values"):
        m = m * 3
        m = m.round() / 3          # many equal values
    return h, w, m


def first_max(E, m, h, w, mx=True):
    """Position of the first largest (smallest) element."""
    m0 = m
    if E.rt:
        import numpy as np
        k = int(np.argmax(m) if mx else np.argmax(m.max() - m))
        return k // w, k % w
    if not mx:
        top = MAXR((h, w), lambda i, j: at(m, i, j))
        m = _A.mkarr((h, w), lambda i, j: top - at(m0, i, j), "float32")
    return E.lib("numpy", "unravel_index", E.lib("numpy", "argmax", m), (h, w))


def second(m, y, x, dy, dx):
    return at(m, y + dy, x + dx) + at(m, y - dy, x - dx) - 2 * at(m, y, x)


def slope(m, y, x, dy, dx):
    return div(at(m, y + dy, x + dx) - at(m, y - dy, x - dx), 2)


@contract("A26", COR, "locate_peak", dict(sub=[False, True], dim=[1, 2], mx=[True, False]), rt_budget=2.0)
def locate_diff(E, sub, dim, mx):
    """Integer position, and the differential refinement."""
    h, w, m = peak_map(E)
    y0, x0 = first_max(E, m, h, w, mx)
    E.case_split(land(y0 > 0, y0 < h - 1))
    E.case_split(land(x0 > 0, x0 < w - 1))
    E.case_split(w >= 3)
    E.case_split(h >= 3)
    x, y = E.call(m, sub_pixel=sub, method="diff", dim=dim, max_peak=mx)
    E.ensure("inside", land(between(0, x, w - 1), between(0, y, h - 1)))
    if not sub:
        E.ensure("position", land(eq(x, x0), eq(y, y0)))
        E.forall("maximum", (h, w), lambda i, j: at(m, i, j) <= at(m, y0, x0) if mx else at(m, i, j) >= at(m, y0, x0))
        return
    E.ensure("near", land(absv(x - x0) < 1, absv(y - y0) < 1))
    E.ensure("edge_x", implies(lor(x0 == 0, x0 == w - 1), eq(x, x0)))
    E.ensure("edge_y", implies(lor(y0 == 0, y0 == h - 1), eq(y, y0)))


@contract("A26", COR, "locate_peak", dict(dim=[1, 2], size=[3, 4, 7, 30]), name="locate_peak(poly_fit)", rt_budget=2.0)
def locate_poly(E, dim, size):
    """Polynomial refinement: inside the window around the maximum, hence inside the map."""
    h, w, m = peak_map(E)
    y0, x0 = first_max(E, m, h, w)
    n = 9 if size == 30 else 5 if size == 4 else size
    if not E.rt:
        # the maximum seen from the window around it
        E.hint(y0 - clip(y0 - n // 2, 0, h - n), x0 - clip(x0 - n // 2, 0, w - n))
    x, y = E.call(m, method="poly_fit", dim=dim, size=size)
    E.ensure("inside", land(between(0, x, w - 1), between(0, y, h - 1)))
    E.ensure("near", land(absv(x - x0) < n - 1, absv(y - y0) < n - 1))
    if size == 3:
        E.ensure("one_pixel", land(absv(x - x0) < 1, absv(y - y0) < 1))


@contract("A26", COR, "_locate_1d_peak_subpixel", dict(n=[3, 5, 9], method=["diff", "poly_fit"]))
def peak_1d(E, n, method):
    v = E.array("values", (n,), "float64", lo=-1, hi=1)
    if E.rt and E.bool("coarse"):
        v = (v * 3).round() / 3
    k = E.lib("numpy", "argmax", v) if not E.rt else max(range(n), key=lambda i: v[i])
    r = E.call(v, method=method)
    E.ensure("inside", land(between(0, r, n - 1), implies(k > 0, r > 0), implies(k < n - 1, r < n - 1)))
    if method == "diff":
        E.ensure("near", absv(r - k) <= (0.5001 if E.rt else div(1, 2)))
        # vertex of the parabola through the maximum and its neighbours
        inner = land(k > 0, k < n - 1)
        km, kp = imax(k - 1, 0), imin(k + 1, n - 1)
        d2 = at(v, km) + at(v, kp) - 2 * at(v, k)
        if E.rt:
            E.require(lor(not inner, abs(d2) > 1e-6))
        E.ensure("vertex", implies(land(inner, d2 != 0), eq((r - k) * d2 * 2, at(v, km) - at(v, kp))))
        E.ensure("edge", implies(lor(lnot(inner), d2 == 0), eq(r, k)))


@contract("A26", COR, "_locate_2d_peak_subpixel", dict(h=[3, 5, 9], method=["poly_fit"]), name="_locate_2d_peak_subpixel(inside)", rt_budget=1.0)
def peak_2d_inside(E, h, method):
    w = h
    m = E.array("map", (h, w), "float64", lo=-1, hi=1)
    if E.rt and E.bool("coarse"):
        m = (m * 3).round() / 3
    y0, x0 = first_max(E, m, h, w)
    x, y = E.call(m, method=method)
    E.ensure("inside", land(between(0, x, w - 1), between(0, y, h - 1)))
    E.ensure("strict", land(implies(x0 > 0, x > 0), implies(x0 < w - 1, x < w - 1), implies(y0 > 0, y > 0), implies(y0 < h - 1, y < h - 1)))


@contract("A26", COR, "_locate_2d_peak_subpixel", {}, rt_budget=2.0, budget=500)
def peak_2d(E):
    """Differential method: one Newton step from the maximum, taken where it is shorter than a pixel."""
    h, w, m = peak_map(E)
    y0, x0 = first_max(E, m, h, w)
    yi, xi = E.case_split(land(y0 > 0, y0 < h - 1)), E.case_split(land(x0 > 0, x0 < w - 1))
    x, y = E.call(m, method="diff")
    gx = slope(m, y0, x0, 0, 1) if xi else 0
    gy = slope(m, y0, x0, 1, 0) if yi else 0
    hxx = second(m, y0, x0, 0, 1) if xi else 0
    hyy = second(m, y0, x0, 1, 0) if yi else 0
    hxy = div(slope(m, y0, x0 + 1, 1, 0) - slope(m, y0, x0 - 1, 1, 0), 2) if xi and yi else 0
    det = hxy * hxy - hxx * hyy
    if E.rt:
        E.require(abs(det) > 1e-4 or not (xi and yi))
    ok = det != 0
    dx = div(hyy * gx - hxy * gy, ite(ok, det, 1))
    dy = div(hxx * gy - hxy * gx, ite(ok, det, 1))
    if E.rt:
        E.require(abs(abs(dx) - 1) > 1e-3, abs(abs(dy) - 1) > 1e-3)
        TOL[0] = 1e-3
    E.ensure("near", land(absv(x - x0) < 1, absv(y - y0) < 1))
    E.ensure("inside", land(between(0, x, w - 1), between(0, y, h - 1)))
    E.ensure("strict", land(implies(x0 > 0, x > 0), implies(x0 < w - 1, x < w - 1), implies(y0 > 0, y > 0), implies(y0 < h - 1, y < h - 1)))
    E.ensure("newton_x", eq(x, x0 + ite(land(ok, absv(dx) < 1), dx, 0)))
    E.ensure("newton_y", eq(y, y0 + ite(land(ok, absv(dy) < 1), dy, 0)))


# ------------------------------------------------------------------------------------------- the map
@contract("A26", COR, "generate_correlation_map", dict(dim=[2, 3]), rt_budget=2.0)
def corr_map(E, dim):
    d = (E.size("d", 1, 300, small=4),) if dim == 3 else ()
    h0, w0 = E.size("h0", 1, 3000, small=6), E.size("w0", 1, 3000, small=6)
    h1, w1 = E.size("h1", 1, 3000, small=4), E.size("w1", 1, 3000, small=4)
    a, b = E.array("ref", d + (h0, w0), lo=0, hi=3), E.array("mat", d + (h1, w1), lo=0, hi=3)
    r = E.call(a, b, _raises={"ValueError": lor(h1 > h0, w1 > w0)})
    E.ensure("shape", land(eq(r.shape[0], h0 - h1 + 1), eq(r.shape[1], w0 - w1 + 1)))
    sz = d + (h1, w1)
    mb = MEAN(sz, lambda *p: at(b, *p))
    sb = SUM(sz, lambda *p: (at(b, *p) - mb) * (at(b, *p) - mb))
    if E.rt:
        TOL[0] = 5e-3
        E.ensure("range", bool((abs(r) <= 1.0001).all()))

    def coef(i, j):
        sh = lambda p: at(a, *(p[:-2] + (p[-2] + i, p[-1] + j)))        # noqa
        ma = MEAN(sz, lambda *p: sh(p))
        sa = SUM(sz, lambda *p: (sh(p) - ma) * (sh(p) - ma))
        num = fsqrt(sb * sa)
        if E.rt and num < 1e-2:
            return float(at(r, i, j))
        return ite(num != 0, div(SUM(sz, lambda *p: (at(b, *p) - mb) * (sh(p) - ma)), ite(num != 0, num, 1)), 0)
    E.forall("pearson", (h0 - h1 + 1, w0 - w1 + 1), lambda i, j: eq(at(r, i, j), coef(i, j)))


@contract("A26", COR, "find_shift_based_correlation_map", dict(dim=[2, 3], axis=[None, 0, 1], same=[True, False]), name="shift_of_map", rt_budget=2.0)
def shift_of_map(E, dim, axis, same):
    """The shift is the peak of the correlation map seen from its middle, zero along an axis that is not searched."""
    d = (E.size("d", 1, 300, small=4),) if dim == 3 else ()
    h, w = E.size("h", 7, 3000, small=5), E.size("w", 7, 3000, small=5)
    g = E.int("margin", 1, 40, small=2)
    a = E.array("ref", d + (h, w), lo=0, hi=3)
    E.require(h - 2 * g > 3, w - 2 * g > 3)
    hg, wg = (0 if axis == 1 else g), (0 if axis == 0 else g)
    full = tuple(slice(None) for _ in d)
    if same:
        b = E.array("mat", d + (h, w), lo=0, hi=3)
        c = view(b, *(full + (slice(hg, h - hg), slice(wg, w - wg))))
    else:
        c = b = E.array("mat", d + (h - 2 * hg, w - 2 * wg), lo=0, hi=3)
    xs, ys = E.call(a, b, g, axis=axis, dim=2)
    m = E.apply("generate_correlation_map", COR, a, c)
    x, y = E.apply("locate_peak", COR, m, dim=2 if axis is None else 1)
    E.ensure("x", eq(xs, 0 if axis == 0 else x - wg))
    E.ensure("y", eq(ys, 0 if axis == 1 else y - hg))
    if E.rt:
        E.ensure("range", abs(xs) <= wg and abs(ys) <= hg)


# ------------------------------------------------------------------------------------------- local shifts over the full image
def local_inputs(E, ndim):
    d = (E.size("d", 2, 300, small=3),) if ndim == 3 else ()
    win = E.int("win", 2, 60, small=4)
    g = E.int("margin", 1, 60, small=2)
    rad = idiv(win, 2)
    e = rad + g
    h, w = E.size("h", 3, 3000, small=8), E.size("w", 3, 3000, small=8)
    E.require(h >= 2 * e + 1, w >= 2 * e + 1)
    a, b = E.array("ref", d + (h, w), lo=0.2, hi=3), E.array("mat", d + (h, w), lo=0.2, hi=3)
    return d, win, g, rad, e, h, w, a, b


@contract("A26", COR, "find_local_shifts", dict(ndim=[2, 3], norm=[False, True], glob=[False, True], ncore=[1, 3, None], chunk=["any", None]), name="local_2d",
          where=lambda ndim, norm, glob, ncore, chunk: not norm if ndim == 3 else not (glob or chunk is None), rt_budget=2.0)
def local_2d(E, ndim, norm, glob, ncore, chunk):
    maps_2d(E, ndim, norm, glob, ncore, chunk)


@contract("A26", COR, "find_local_shifts", dict(ndim=[3], norm=[True], glob=[False, True], ncore=[1, 3], chunk=["any"]), name="local_2d(normalised chunks)",
          bounded=True, samples=5, rt_budget=4.0)
def local_2d_norm(E, ndim, norm, glob, ncore, chunk):
    """Every chunk is normalised by itself: a positive affine map, without effect on the correlation."""
    maps_2d(E, ndim, norm, glob, ncore, chunk)


def maps_2d(E, ndim, norm, glob, ncore, chunk):
    d, win, g, rad, e, h, w, a, b = local_inputs(E, ndim)
    kw = {} if ndim == 2 else dict(chunk_size=None if chunk is None else E.int("chunk", 1, 3000, small=8), norm_global=glob)
    xs, ys = E.call(a, b, dim=2, win_size=win, margin=g, ncore=ncore, norm=norm, **kw)
    E.ensure("shape", land(eq(xs.shape[0], h), eq(xs.shape[1], w), eq(ys.shape[0], h), eq(ys.shape[1], w)))
    if (norm and ndim == 2) or glob:
        a, b = E.apply("normalize_image", COR, a), E.apply("normalize_image", COR, b)
    full = (slice(None),) * (ndim - 2)

    def want(i, j, q):
        p = view(a, *(full + (slice(i - e, i + e + 1), slice(j - e, j + e + 1))))
        s = view(b, *(full + (slice(i - rad, i + rad + 1), slice(j - rad, j + rad + 1))))
        return E.apply("find_shift_based_correlation_map", COR, p, s, g, None, True, "diff", 2, 3)[q]
    inside = lambda i, j: land(i >= e, j >= e, i < h - e, j < w - e)        # noqa
    if E.rt:
        TOL[0] = 0.02
    for q, r in ((0, xs), (1, ys)):
        nm = "xy"[q]
        if E.rt:
            E.forall("border_" + nm, (h, w), lambda i, j: inside(i, j) or at(r, i, j) == 0)
            E.forall("shift_" + nm, (h, w), lambda i, j: not inside(i, j) or eq(float(at(r, i, j)), float(want(i, j, q))))
        else:
            E.forall("border_" + nm, (h, w), lambda i, j: implies(lnot(inside(i, j)), eq(at(r, i, j), 0)))
            E.forall("shift_" + nm, (h - 2 * e, w - 2 * e), lambda i, j: eq(at(r, i + e, j + e), want(i + e, j + e, q)))


@contract("A26", COR, "find_local_shifts", dict(norm=[False], glob=[False, True], ncore=[1, 3, None], chunk=["any", None]), name="local_1d",
          rt_budget=2.0)
def local_1d(E, norm, glob, ncore, chunk):
    maps_1d(E, norm, glob, ncore, chunk)


@contract("A26", COR, "find_local_shifts", dict(norm=[True], glob=[False, True], ncore=[1, 3], chunk=["any"]), name="local_1d(normalised rows)",
          bounded=True, samples=5, rt_budget=4.0)
def local_1d_norm(E, norm, glob, ncore, chunk):
    maps_1d(E, norm, glob, ncore, chunk)


def maps_1d(E, norm, glob, ncore, chunk):
    """Row-wise shifts in x, column-wise shifts in y of a stack (images with sharp features along one axis)."""
    d, win, g, rad, e, h, w, a, b = local_inputs(E, 3)
    kw = dict(chunk_size=None if chunk is None else E.int("chunk", 1, 3000, small=8), norm_global=glob)
    xs, ys = E.call(a, b, dim=1, win_size=win, margin=g, ncore=ncore, norm=norm, **kw)
    E.ensure("shape", land(eq(xs.shape[0], h), eq(xs.shape[1], w), eq(ys.shape[0], h), eq(ys.shape[1], w)))
    if glob:
        a, b = E.apply("normalize_image", COR, a), E.apply("normalize_image", COR, b)

    def line(u, i, j, r, ax):
        return view(u, slice(None), i, slice(j - r, j + r + 1)) if ax == 0 else view(u, slice(None), slice(i - r, i + r + 1), j)

    def want(i, j, ax):
        if E.rt and norm:
            u, v = (a[:, i, :], b[:, i, :]) if ax == 0 else (a[:, :, j], b[:, :, j])
            n = E.fn("normalize_image", COR)
            u, v = n(u), n(v)
            k = j if ax == 0 else i
            p, s = u[:, k - e:k + e + 1], v[:, k - rad:k + rad + 1]
        else:
            p, s = line(a, i, j, e, ax), line(b, i, j, rad, ax)
        return E.apply("find_shift_based_correlation_map", COR, p, s, g, 1, True, "diff", 1, 3)[0]
    if E.rt:
        TOL[0] = 0.02
        E.forall("border_x", (h, w), lambda i, j: e <= j < w - e or at(xs, i, j) == 0)
        E.forall("border_y", (h, w), lambda i, j: e <= i < h - e or at(ys, i, j) == 0)
        E.forall("shift_x", (h, w), lambda i, j: not e <= j < w - e or eq(float(at(xs, i, j)), float(want(i, j, 0))))
        if norm:
            # the profiles are normalised over the rows of a chunk: only within the searched range
            E.ensure("range_y", bool((abs(ys) <= g).all()))
        else:
            E.forall("shift_y", (h, w), lambda i, j: not e <= i < h - e or eq(float(at(ys, i, j)), float(want(i, j, 1))))
        return
    E.forall("border_x", (h, w), lambda i, j: implies(lor(j < e, j >= w - e), eq(at(xs, i, j), 0)))
    E.forall("border_y", (h, w), lambda i, j: implies(lor(i < e, i >= h - e), eq(at(ys, i, j), 0)))
    E.forall("shift_x", (h, w - 2 * e), lambda i, j: eq(at(xs, i, j + e), want(i, j + e, 0)))
    E.forall("shift_y", (h - 2 * e, w), lambda i, j: eq(at(ys, i + e, j), want(i + e, j, 1)))


@contract("A26", COR, "find_local_shifts_umpa", dict(dark=[False, True], ncore=[1, 3]), name="local_umpa", bounded=True, samples=4, rt_budget=8.0)
def local_umpa(E, dark, ncore):
    """The maps do not depend on the chunk size; each pixel minimises the cost over the searched window."""
    import numpy as np
    d, win, g, rad, e, h, w, a, b = local_inputs(E, 3)
    m = E.fn("find_local_shifts_umpa", COR)
    c = E.int("chunk", 1, 20)
    r = E.call(a, b, win_size=win, margin=g, gpu=False, ncore=ncore, chunk_size=c, dark_signal=dark)
    q = m(a, b, win_size=win, margin=g, gpu=False, ncore=1, chunk_size=None, dark_signal=dark)
    TOL[0] = 1e-2
    E.ensure("count", len(r) == (4 if dark else 2))
    for k in range(len(r)):
        E.ensure("shape", r[k].shape == (h, w))
        E.ensure("chunks", float(np.median(np.abs(r[k] - q[k]))) < 1e-3 and float(np.mean(np.abs(r[k] - q[k]) > 1e-2)) < 0.05)
    for k in (0, 1):
        E.ensure("border", bool((r[k][:e] == 0).all() and (r[k][h - e:] == 0).all() and (r[k][:, :e] == 0).all() and (r[k][:, w - e:] == 0).all()))
        E.ensure("range", bool((np.abs(r[k]) <= g).all()))
    if not dark:
        # the integer minimum of sum over the stack and window of win * (K * ref_shifted - mat)^2, with the best K
        wn = 2 * (win // 2) + 1
        w1 = E.fn("make_smoothing_window", REC)("hamming", wn)
        wt = np.multiply.outer(w1, w1)
        wt = wt / wt.sum()
        bad = tot = 0
        for i in range(e, h - e):
            for j in range(e, w - e):
                s = b[:, i - rad:i + rad + 1, j - rad:j + rad + 1].astype(float)
                cost = np.zeros((2 * g + 1,) * 2)
                for y in range(-g, g + 1):
                    for x in range(-g, g + 1):
                        f = a[:, i + y - rad:i + y + rad + 1, j + x - rad:j + x + rad + 1].astype(float)
                        k = (wt * f * s).sum() / (wt * f * f).sum()
                        cost[y + g, x + g] = (wt * (k * f - s) ** 2).sum()
                y, x = np.unravel_index(np.argmin(cost), cost.shape)
                tot += 1
                bad += abs(r[0][i, j] - (x - g)) >= 1.02 or abs(r[1][i, j] - (y - g)) >= 1.02
        E.ensure("minimum", bad <= 0.05 * tot, "%d of %d" % (bad, tot))


@contract("A26", COR, "find_global_shift_based_local_shifts", dict(value=["median", "mean", "mixed"], ncore=[1, 2], norm=[False, True], pts=["list", "one"]),
          name="local_global", bounded=True, samples=5, rt_budget=2.0)
def local_global(E, value, ncore, norm, pts):
    """Shifts at the given points, combined by the requested robust average."""
    import numpy as np
    d, win, g, rad, e, h, w, a, b = local_inputs(E, 2)
    E.require(h > 2 * e + 2, w > 2 * e + 2)
    n = E.int("n", 1, 12) if pts == "list" else 1
    ii = [E.int("i%d" % k, e + 1, h - e - 1) for k in range(n)]
    jj = [E.int("j%d" % k, e + 1, w - e - 1) for k in range(n)]
    lij = [ii, jj] if pts == "list" else [ii[0], jj[0]]
    kw = dict(list_ij=lij, norm=norm, ncore=ncore)
    xs, ys = E.call(a, b, win, g, return_list=True, global_value=value, **kw)
    if norm:
        f = E.fn("normalize_image", COR)
        u, v = f(a), f(b)
    else:
        u, v = a, b
    E.ensure("count", len(xs) == n and len(ys) == n)
    TOL[0] = 1e-3
    for k in range(n):
        i, j = ii[k], jj[k]
        x, y = E.fn("find_shift_based_correlation_map", COR)(u[i - e:i + e + 1, j - e:j + e + 1], v[i - rad:i + rad + 1, j - rad:j + rad + 1], g)
        E.ensure("point", eq(float(xs[k]), float(x)) and eq(float(ys[k]), float(y)))
    gx, gy = E.call(a, b, win, g, global_value=value, **kw)
    for q, s in ((gx, np.sort(xs)), (gy, np.sort(ys))):
        m = n // 2
        if value == "median":
            z = np.median(s)
        elif value == "mixed":
            z = np.mean(s[max(m - 3, 0):min(m + 3, n)])
        else:
            z = np.mean(s[2:-2] if n > 7 else s)
        E.ensure("global", eq(float(q), float(z)))
    # points in the border are refused (a single one) or left out
    if pts == "one":
        E.call(a, b, win, g, list_ij=[e - 1, jj[0]], ncore=1, _raises={"ValueError": True})
