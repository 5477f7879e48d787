"""A25 searches for the overlap between images and for the rotation centre."""
from vc.spec import *

CALC = "algotom.prep.calculation"
REC = "algotom.rec.reconstruction"
VER = "algotom.rec.vertrec"

if not RT:
    from vc.sym_env import pure_callee
    from vc import sym_env as _S
    from vc import npmodel as _N2, terms as _T, arrays as _A

    @_S.callee(CALC, "correlation_metric")
    def _correlation(env, mat1, mat2):
        env.c.assumptions.add("prep.calculation.correlation_metric is a deterministic function of the two images (checked at run time)")
        return _N2.opaque_array("callee:correlation", [_N2.asarray(mat1), _N2.asarray(mat2)], (), (), "float64").at()

    @_S.callee(CALC, "calculate_center_metric")
    def _center_metric(env, center, **kw):
        if env.contract.func == "calculate_center_metric":
            return NotImplemented
        env.c.assumptions.add("prep.calculation.calculate_center_metric is a deterministic function of its arguments (its own contract)")
        arrs = [kw[k] for k in ("sino_180", "sino_flip", "sino_comp", "mask")]
        return _N2.opaque_array("callee:center_metric", arrs, (), [center], "float64").at()

    @_S.callee(CALC, "make_inverse_double_wedge_mask")
    def _wedge(env, height, width, radius, hor_drop=None, ver_drop=None):
        if env.contract.func == "make_inverse_double_wedge_mask":
            return NotImplemented
        from vc import libs as _L
        env.c.assumptions.add("make_inverse_double_wedge_mask is a deterministic function of its arguments")
        key, sc = _L.keyparts(height, width, radius, hor_drop, ver_drop)
        return _N2.opaque_array("callee:wedge", [], (height, width), sc, "float32", key)

    @_S.callee(CALC, "search_overlap")
    def _search(env, mat1, mat2, win_width, side, denoise=True, norm=False, use_overlap=False, ncore=None):
        """Modular contract: the metrics of all window positions and half the window, whatever the number of cores."""
        if not env.contract.name.startswith("modular"):
            return NotImplemented
        from vc import libs as _L
        w = clip(win_width, 6, idiv(imin(mat1.shape[1], mat2.shape[1]), 2) - 1)
        off = idiv(w, 2)
        key, sc = _L.keyparts(w, side, denoise, norm, use_overlap)
        return (_N2.opaque_array("callee:search_overlap", [mat1, mat2], (mat1.shape[1] - 2 * off,), sc, "float64", key), off)

    @_S.callee(CALC, "calculate_curvature")
    def _curv(env, list_metric):
        """The contract proved below: a position less than one from the clipped minimum, a non-negative curvature."""
        if env.contract.func == "calculate_curvature":
            return NotImplemented
        a = _N2.asarray(list_metric)
        n = a.shape[0]
        cv = _N2.opaque_array("callee:curvature", [a], (), (), "float64").at()
        pos = _N2.opaque_array("callee:curvature_pos", [a], (), (), "float64").at()
        env.c.assume(cv >= 0)
        env.c.assume(implies(n >= 5, land(pos >= 1, pos <= n - 2)))
        return cv, pos


def images(E, lo=20):
    h = E.size("h", 1, 30000)
    w1, w2 = E.size("w1", lo, 30000), E.size("w2", lo, 30000)
    a, b = E.array("mat1", (h, w1), lo=0.1), E.array("mat2", (h, w2), lo=0.1)
    return h, w1, w2, a, b


@contract("A25", CALC, "calculate_curvature", {})
def curvature(E):
    n = E.size("n", 5, 30000)
    y = E.array("metric", (n,), dtype="float64", lo=0.01, hi=3)
    c, p = E.call(y)
    if E.rt:
        TOL[0] = 1e-3
    # the position of the smallest value, kept two samples away from the ends, refined by a parabola through three samples
    if E.rt:
        k = min(range(n), key=lambda i: at(y, i))
    else:
        k = E.lib("numpy", "argmin", y)
    m = clip(k, 2, n - 3)
    cv = div(2 * at(y, m - 2) - at(y, m - 1) - 2 * at(y, m) - at(y, m + 1) + 2 * at(y, m + 2), 14)
    E.ensure("curvature", eq(c, absv(cv)))
    a2 = at(y, m - 1) - 2 * at(y, m) + at(y, m + 1)
    s = div(at(y, m - 1) - at(y, m + 1), 2 * a2)
    if E.rt:
        E.require(absv(a2) > 1e-3, absv(absv(s) - 1) > 1e-3)
    E.ensure("position", eq(p, ite(land(a2 != 0, -1 <= s, s <= 1), m + s, m)))
    E.ensure("inside", between(1, p, n - 2))


@contract("A25", CALC, "search_overlap", dict(side=[0, 1], denoise=[False, True], norm=[False, True], use=[False, True], ncore=[1, 3]), rt_budget=1.5)
def search(E, side, denoise, norm, use, ncore):
    h, w1, w2, a, b = images(E)
    E.require(h >= 2)
    win = E.int("win", 2, 30000, small=20)
    mx = idiv(w1 if E.case_split(w1 <= w2) else w2, 2) - 1
    E.case_split(6 <= mx)
    w = 6 if E.case_split(win < 6) else mx if E.case_split(win > mx) else win
    r, off = E.call(a, b, win, side, denoise=denoise, norm=norm, use_overlap=use, ncore=ncore)
    o = idiv(w, 2)
    E.ensure("offset", eq(off, o))
    n = w1 - 2 * o
    E.ensure("shape", eq(length(r), n))
    W = 2 * o
    if denoise:
        a, b = E.lib("scipy.ndimage", "gaussian_filter", a, (2, 2), mode="reflect"), E.lib("scipy.ndimage", "gaussian_filter", b, (2, 2), mode="reflect")
    first = 0 if side == 1 else w2 - W
    q = view(b, slice(None), slice(first, first + W)) if E.rt else window(b, h, first, W)

    def metric(k):
        """The candidate window of the first image is centred at k + o."""
        x0 = k
        f = lambda i: div(MEAN(W, lambda j: absv(at(b, i, first + j))), MEAN(W, lambda j: absv(at(a, i, x0 + j)))) if norm else 1   # noqa
        p = window_rt(a, h, x0, W, f) if E.rt else mk(h, W, lambda i, j: at(a, i, x0 + j) * f(i))
        c = lambda u, v: E.apply("correlation_metric", CALC, u, v)     # noqa
        if not use:
            return c(p, q)

        def comb(i, j):
            up = div(j, W - 1)
            wa, wb = (1 - up, up) if side == 1 else (up, 1 - up)
            return at(a, i, x0 + j) * wa * f(i) + at(b, i, first + j) * wb
        m = mk(h, W, comb) if not E.rt else mk_rt(h, W, comb)
        return div(c(p, q) + c(p, m) + c(q, m), 3)
    if E.rt:
        TOL[0] = 2e-3
    if E.rt:
        vals = [metric(k) for k in range(n)]
        lo = min(vals)
        E.require(lo > 1e-2)
        for k in range(n):
            E.ensure("metric", eq(float(at(r, k)), vals[k] / lo))
        return
    lo = MINR(n, metric)
    E.forall("metric", (n,), lambda k: eq(at(r, k), ite(eq(lo, 0), metric(k), div(metric(k), lo))))


def mk(h, w, f):
    return _A.mkarr((h, w), f, "float64")


def window(b, h, x0, W):
    return mk(h, W, lambda i, j: at(b, i, x0 + j))


def mk_rt(h, w, f):
    import numpy as np
    return np.array([[f(i, j) for j in range(w)] for i in range(h)], dtype="float64")


def window_rt(a, h, x0, W, f):
    return mk_rt(h, W, lambda i, j: at(a, i, x0 + j) * f(i))


def overlap_of(E, side, w1, m1, off):
    """-> (curvature, overlap, position of the window centre in the first image)"""
    cv, p = E.apply("calculate_curvature", CALC, m1)
    pos = p + off
    return cv, (w1 - pos + off if side == 1 else pos + off), pos


@contract("A25", CALC, "find_overlap", dict(side=[0, 1, None], denoise=[False, True], norm=[False, True], use=[False, True]),
          where=lambda side, denoise, norm, use: side is not None or denoise == norm, name="modular.find_overlap", rt_budget=1.5)
def overlap(E, side, denoise, norm, use):
    find_overlap(E, side, denoise, norm, use)


@contract("A25", CALC, "find_overlap", [dict(side=None, denoise=d, norm=not d, use=u) for d in (False, True) for u in (False, True)],
          name="find_overlap(detected side, options differ)", bounded=True, samples=6, rt_budget=1.5)
def overlap_differ(E, side, denoise, norm, use):
    find_overlap(E, side, denoise, norm, use)


def find_overlap(E, side, denoise, norm, use):
    h, w1, w2, a, b = images(E, 30)
    E.require(h >= 2)
    win = E.int("win", 2, 30000, small=20)
    r = E.call(a, b, win, side=side, denoise=denoise, norm=norm, use_overlap=use, ncore=E.int("ncore", 1, 4))
    if E.rt and side is None and denoise != norm:
        w = clip(win, 6, idiv(imin(w1, w2), 2))

        def found(d, n):
            c = []
            for s in (0, 1):
                m, off = E.apply("search_overlap", CALC, a, b, w, s, denoise=d, norm=n, use_overlap=use, ncore=1)
                c.append((s,) + overlap_of(E, s, w1, m, off))
            E.require(absv(c[0][1] - c[1][1]) > 1e-6)
            return c[1] if c[1][1] > c[0][1] else c[0]

        def same(c):
            return r[1] == c[0] and eq(float(r[0]), float(c[2])) and eq(float(r[2]), float(c[3]))
        TOL[0] = 1e-4
        want, swapped = found(denoise, norm), found(norm, denoise)
        E.ensure("options_swapped", same(want) or not same(swapped), "the two options are exchanged when the side is detected")
        E.ensure("found", same(want))
        return
    check_overlap(E, r, a, b, w1, w2, win, side, denoise, norm, use)


def check_overlap(E, r, a, b, w1, w2, win, side, denoise, norm, use):
    ov, sd, pos = r
    if E.rt:
        TOL[0] = 1e-4
    w = clip(win, 6, idiv(imin(w1, w2), 2))
    want = {}
    for s in ([0, 1] if side is None else [side]):
        m, off = E.apply("search_overlap", CALC, a, b, w, s, denoise=denoise, norm=norm, use_overlap=use, ncore=1)
        want[s] = overlap_of(E, s, w1, m, off)
    if side is None and E.rt:
        E.require(absv(want[0][0] - want[1][0]) > 1e-6)
    s = side if side is not None else 1 if E.case_split(want[1][0] > want[0][0]) else 0
    E.ensure("side", eq(sd, s))
    if E.rt and sd != s:
        return
    E.ensure("overlap", eq(ov, want[s][1]))
    E.ensure("position", eq(pos, want[s][2]))
    # the window of the matched position lies inside the first image
    E.ensure("in_range", land(gt(ov, 0), lt(ov, w1), between(0, pos, w1 - 1)))


@contract("A25", CALC, "find_overlap_multiple", dict(n=[2, 3], side=[0, 1], denoise=[False, True], norm=[False, True]), name="modular.find_overlap_multiple")
def overlap_multiple(E, n, side, denoise, norm):
    h = E.size("h", 2, 30000)
    ws = [E.size("w%d" % i, 30, 30000) for i in range(n)]
    ms = [E.array("mat%d" % i, (h, ws[i]), lo=0.1) for i in range(n)]
    win = E.int("win", 2, 30000, small=20)
    r = E.call(list(ms), win, side=side, denoise=denoise, norm=norm, ncore=2)
    E.ensure("count", length(r) == n - 1)
    for i in range(n - 1):
        check_overlap(E, r[i], ms[i], ms[i + 1], ws[i], ws[i + 1], win, side, denoise, norm, False)


@contract("A25", CALC, "find_overlap_multiple", {}, name="find_overlap_multiple(one image)", frame=False)
def overlap_single(E):
    a = E.array("mat", (5, 40))
    E.call([a], 10, _raises={"ValueError": True})


@contract("A25", CALC, "find_center_360", dict(side=[0, 1, None], denoise=[False, True], norm=[False, True]), name="modular.find_center_360")
def center_360(E, side, denoise, norm):
    h, w = E.size("h", 3, 30000), E.size("w", 30, 30000)
    s = E.array("sino", (h, w), lo=0.1)
    win = E.int("win", 2, 30000, small=20)
    r = E.call(s, win, side=side, denoise=denoise, norm=norm, ncore=2)
    n = idiv(h, 2) + 1
    if E.rt:
        TOL[0] = 1e-4
        top, bot = s[:n], s[h - n:][:, ::-1]
    else:
        top, bot = mk32(n, w, lambda i, j: at(s, i, j)), mk32(n, w, lambda i, j: at(s, h - n + i, w - 1 - j))
    ov, sd, pos = E.apply("find_overlap", CALC, top, bot, win, side=side, denoise=denoise, norm=norm, ncore=1)
    E.ensure("found", land(eq(r[1], ov), eq(r[2], sd), eq(r[3], pos)))
    if side is not None:
        E.ensure("side", eq(r[2], side))
    E.ensure("centre", eq(r[0], ite(eq(sd, 0), div(ov, 2) - div(1, 2), w - div(ov, 2) - div(1, 2))))


def mk32(h, w, f):
    return _A.mkarr((h, w), f, "float32")


@contract("A25", CALC, "find_center_projection", dict(flip=[False, True], denoise=[False, True], chunk=["none", "int", "ratio"], start=["none", "given"],
                                                      winw=["none", "given"], use=[False, True]),
          where=lambda flip, denoise, chunk, start, winw, use: not use or (chunk == "none" and winw == "given"), name="modular.find_center_projection", rt_budget=1.0)
def center_projection(E, flip, denoise, chunk, start, winw, use):
    h, w = E.size("h", 4, 30000), E.size("w", 40, 30000)
    a, b = E.array("mat1", (h, w), lo=0.1), E.array("mat2", (h, w), lo=0.1)
    kw = {}
    if winw == "given":
        win = kw["win_width"] = E.int("win", 6, 15, small=20)
    else:
        win = imin(250, trunc(div(w, 5)))
    if chunk == "none":
        ch = imin(500, trunc(div(9 * h, 10)))
    elif chunk == "int":
        ch = kw["chunk_height"] = E.int("chunk", 1, 40)
    else:
        kw["chunk_height"] = 0.5
        ch = trunc(div(h, 2))
    ch = clip(ch, 1, h - 1)
    if start == "none":
        st = idiv(h, 2) - idiv(ch, 2)
    else:
        kw["start_row"] = E.int("start", 0, 40)
        st = clip(kw["start_row"], 0, idiv(h, 2) - idiv(ch, 2))
    sp = st + ch
    st = clip(st, 0, h - ch - 1)
    sp = clip(sp, ch, h)
    r = E.call(a, b, flip=flip, denoise=denoise, norm=denoise, use_overlap=use, ncore=2, **kw)
    if E.rt:
        E.require(sp - st >= 2)
        TOL[0] = 1e-4
        p, q = a[st:sp], (b[:, ::-1] if flip else b)[st:sp]
    else:
        p = mk32(sp - st, w, lambda i, j: at(a, st + i, j))
        q = mk32(sp - st, w, lambda i, j: at(b, st + i, w - 1 - j if flip else j))
    ov, sd, pos = E.apply("find_overlap", CALC, p, q, win, side=None, denoise=denoise, norm=denoise, use_overlap=use, ncore=1)
    E.ensure("centre", eq(r, ite(eq(sd, 0), div(ov, 2) - div(1, 2), w - div(ov, 2) - div(1, 2))))


# ------------------------------------------------------------------------------------------- 180-degree search
def flipped(E, s, h, w):
    if E.rt:
        return s[:, ::-1], s[::-1]
    return mk32(h, w, lambda i, j: at(s, i, w - 1 - j)), mk32(h, w, lambda i, j: at(s, h - 1 - i, j))


@contract("A25", CALC, "coarse_search_cor", dict(denoise=[False, True], ncore=[1, 3, None]), rt_budget=3.0)
def coarse(E, denoise, ncore):
    h, w = E.size("h", 4, 30000), E.size("w", 12, 30000)
    s = E.array("sino", (h, w), lo=0.1)
    a, b = E.int("start", -5, 30000, small=20), E.int("stop", -5, 40000, small=30)
    ratio = E.real("ratio", 0.1, 2)
    lo, hi = clip(a, 0, w - 1), clip(b, 0, w - 1)
    E.require(lo <= hi)
    r = E.call(s, a, b, ratio=ratio, denoise=denoise, ncore=ncore)
    best_of(E, s, h, w, r, denoise and (3, 1), ratio, hi - lo + 1, lambda k: lo + k)


def best_of(E, s, h, w, r, sigma, ratio, n, cand, **drop):
    if sigma:
        s = E.lib("scipy.ndimage", "gaussian_filter", s, sigma, mode="reflect")
    fl, co = flipped(E, s, h, w)
    mask = E.apply("make_inverse_double_wedge_mask", CALC, 2 * h, w, ratio * w * div(1, 2), **drop)

    def metric(c):
        return E.apply("calculate_center_metric", CALC, c, s, fl, co, mask)
    if E.rt:
        TOL[0] = 1e-5
        E.ensure("candidate", any(eq(float(r), float(cand(k))) for k in range(n)))
        E.ensure("optimal", all(le(float(metric(r)), float(metric(cand(k)))) for k in range(n)))
        return
    k0 = E.lib("numpy", "argmin", _A.mkarr((n,), lambda k: metric(cand(k)), "float64"))
    E.ensure("candidate", eq(r, cand(k0)))
    E.forall("optimal", (n,), lambda k: metric(cand(k0)) <= metric(cand(k)))


@contract("A25", CALC, "fine_search_cor", dict(denoise=[False, True], ncore=[1, 3, None], step=["int", "quarter"]), rt_budget=3.0)
def fine(E, denoise, ncore, step):
    h, w = E.size("h", 4, 30000), E.size("w", 12, 30000)
    s = E.array("sino", (h, w), lo=0.1)
    a = E.real("start", 0, w - 1)
    rad = E.int("radius", 1, 50, small=4)
    st = 1 if step == "int" else 0.25 if E.rt else div(1, 4)
    ratio = E.real("ratio", 0.1, 2)
    r = E.call(s, a, rad, st, ratio=ratio, denoise=denoise, ncore=ncore)
    n = 2 * rad + 1 if step == "int" else 8 * rad + 1
    best_of(E, s, h, w, r, denoise and (2, 2), ratio, n, lambda k: clip(a - rad + k * st, 0, w - 1))
    E.ensure("in_range", land(between(0, r, w - 1), between(a - rad, r, a + rad)))


@contract("A25", CALC, "find_center_vo", dict(dsp=[False, True], rng=["given", "default"], ncore=[1, 2]), rt_budget=4.0, bounded=True, samples=12)
def vo(E, dsp, rng, ncore):
    """Composition of the two searches with the documented defaults and options."""
    h, w = E.size("h", 6, 30, small=20), E.size("w", 32, 60, small=30)
    s = E.array("sino", (h, w), lo=0.1)
    kw = {}
    a, b = idiv(w, 2) - idiv(w, 16), idiv(w, 2) + idiv(w, 16)
    if rng == "given":
        a = kw["start"] = E.int("start", 3, 20)
        b = kw["stop"] = E.int("stop", 21, 31)
    rad = E.int("radius", 1, 4)
    ratio = E.real("ratio", 0.2, 1.5)
    step = 0.5 if E.bool("half") else 1
    drop = dict(hor_drop=E.int("hor_drop", 1, 2), ver_drop=E.int("ver_drop", 1, 3)) if E.bool("drop") else {}
    r = E.call(s, step=step, radius=rad, ratio=ratio, dsp=dsp, ncore=ncore, **dict(kw, **drop))
    if dsp:
        sb = E.lib("scipy.ndimage", "gaussian_filter", s, (3, 1), mode="reflect")
        raw = E.apply("coarse_search_cor", CALC, sb, a, b, ratio, denoise=False, ncore=1, **drop) + 0.5
    else:
        raw = E.apply("coarse_search_cor", CALC, s, a, b, ratio, denoise=True, ncore=1, **drop)
    n = int(round(2 * rad / step)) + 1
    best_of(E, s, h, w, r, (2, 2), ratio, n, lambda k: clip(raw - rad + k * step, 0, w - 1), **drop)


@contract("A25", CALC, "find_center_vo", {}, rt_budget=12.0, bounded=True, samples=2, name="find_center_vo(downsampled)")
def vo_large(E):
    """Wide sinogram: coarse search on the binned image, at the middle of the bin, then the fine search on the full one."""
    h, w = E.size("h", 6, 12), 1281 + E.int("more", 0, 700)
    s = E.array("sino", (h, w), lo=0.1)
    d = w // 640
    a = E.int("start", 600, 640)
    b = a + E.int("range", 1, 30)
    rad = E.int("radius", 1, 4)
    r = E.call(s, a, b, radius=rad, ratio=0.5, step=0.5, ncore=1)
    sb = E.lib("scipy.ndimage", "gaussian_filter", s, (3, 1), mode="reflect")
    k = w // d
    t = sb[:, :k * d].reshape(h, k, d).mean(2)
    lo, hi = a // d, -(-b // d)
    raw = E.apply("coarse_search_cor", CALC, t, lo, hi, 0.5, denoise=False, ncore=1)
    E.ensure("coarse", lo <= raw <= hi)
    rad = max(rad, d)
    best_of(E, s, h, w, r, (2, 2), 0.5, 4 * rad + 1, lambda i: raw * d + 0.5 * d - rad + i * 0.5)


@contract("A25", CALC, "calculate_center_metric", dict(kind=["int", "half", "real"]))
def center_metric(E, kind):
    h, w = E.size("h", 1, 30000), E.size("w", 4, 30000)
    s, f, c = [E.array(k, (h, w)) for k in ("sino", "flip", "comp")]
    m = E.array("mask", (2 * h, w), lo=0, hi=1)
    if kind == "real":
        x = E.real("center", 0, w - 1)
        d = 2 * x - (w - 1)
        E.require(lnot(eq(d, floor(d)))) if not E.rt else E.require(absv(d - round(d)) > 1e-3)
    else:
        d = E.int("shift", 1 - w, w - 1, dim=False)
        x = div(d + w - 1, 2)
    r = E.call(x, s, f, c, m)
    if kind == "real":
        g = E.lib("scipy.ndimage", "shift", f, (0, d), order=3, prefilter=True)
        shifted = lambda i, j: at(g, i, j)      # noqa
        k = ceil(d) if E.case_split(d >= 0) else floor(d)
    else:
        shifted = lambda i, j: at(f, i, mod(j - d, w))     # noqa
        k = d
    right = E.case_split(d >= 0)

    def mat(i, j):
        # data moved in from outside are replaced by the complement of the sinogram
        out = j < k if right else j >= w + k
        return ite(i < h, at(s, imin(i, h - 1), j), ite(out, at(c, imax(i - h, 0), j), shifted(imax(i - h, 0), j)))
    if E.rt:
        import numpy as np
        TOL[0] = 1e-4
        full = mk_rt(2 * h, w, mat)
        want = float(np.mean(np.abs(np.fft.fftshift(np.fft.fft2(full))) * m))
        E.ensure("metric", eq(float(r), want))
        return
    F = E.lib("scipy.fft", "fft2", mk32(2 * h, w, mat))
    A_ = E.lib("numpy", "abs", E.lib("numpy.fft", "fftshift", F))
    E.ensure("metric", eq(r, MEAN((2 * h, w), lambda i, j: at(A_, i, j) * at(m, i, j))))


@contract("A25", CALC, "correlation_metric", dict(kind=["any", "same", "scaled"]), bounded=True, rt_budget=2.0)
def correlation(E, kind):
    import numpy as np
    h, w = E.size("h", 2, 12), E.size("w", 2, 12)
    a = E.array("mat1", (h, w))
    b = E.array("mat2", (h, w)) if kind == "any" else (2.5 * a + 1).astype("float32") if kind == "scaled" else a.copy()
    E.require(a.std() > 1e-2, b.std() > 1e-2)
    r = E.call(a, b)
    TOL[0] = 1e-4
    p, q = a.astype(float) - a.astype(float).mean(), b.astype(float) - b.astype(float).mean()
    E.ensure("metric", eq(float(r), float(abs(1 - (p * q).sum() / np.sqrt((p * p).sum() * (q * q).sum())))))


# ------------------------------------------------------------------------------------------- slice metrics
def centre_of_mass(img, offset=0.0):
    """A metric that depends on the reconstruction."""
    import numpy as np
    return float(np.sum(np.abs(img - offset)))


@contract("A25", REC, "_find_center_based_slice_metric",
          dict(typ=["int", "float", "mixed"], method=["fbp", "dfi", "bpf"], metric=["custom", "entropy", "sharpness"], invert=[False, True]),
          bounded=True, samples=4, rt_budget=3.0)
def slice_metric(E, typ, method, metric, invert):
    search_slices(E, typ, method, metric, invert, True)


def rng_of(E, typ, w):
    a = E.int("start", 4, w - 6, small=12)
    n = E.int("num", 1, 3)
    if typ == "int":
        return a, a + n, 1
    if typ == "float":
        return a + 0.25, a + 0.25 + 0.5 * n, 0.5
    return a, a + 0.5 * n, 0.5


def search_slices(E, typ, method, metric, invert, inner):
    import numpy as np
    h, w = E.size("h", 6, 12), E.size("w", 12, 24, small=12)
    s = E.array("sino", (h, w), lo=0.5, hi=0.9)
    E.require(s.std() > 0.02)
    a, b, st = rng_of(E, typ, w)
    kw = dict(method=method, gpu=False, invert_metric=invert, ncore=E.int("ncore", 1, 2), sigma=E.int("sigma", 0, 2), apply_log=E.bool("log"))
    if E.bool("angles"):
        kw["angles"] = np.linspace(0, np.pi, h) + 0.01
    seen = []
    val = {}
    if metric == "custom":
        off = E.real("offset", -1, 1)

        def fn(img, offset=0.0):
            v = centre_of_mass(img, offset)
            seen.append(v)
            return v
        kw.update(metric_function=fn if kw["ncore"] == 1 or method == "fbp" else centre_of_mass, offset=off)
    else:
        kw["metric"] = metric
    cs, ms = E.call(s, a, b, st, return_metric=True, **kw)
    n = int(np.ceil((b - a) / st - 1e-9))
    E.ensure("candidates", len(cs) == n and len(ms) == n and all(eq(float(cs[k]), float(a + k * st)) for k in range(n)))
    best = E.call(s, a, b, st, return_metric=False, **kw)
    TOL[0] = 1e-9
    E.ensure("in_range", any(eq(float(best), float(c)) for c in cs))
    # the metric of the returned candidate is the smallest one
    E.ensure("optimal", eq(float(ms[[i for i in range(n) if eq(float(cs[i]), float(best))][0]]), float(min(ms))))
    if metric == "custom":
        # metrics of independent reconstructions at every candidate
        from scipy import ndimage as ndi
        t = s
        if kw["sigma"] > 0:
            t = ndi.gaussian_filter1d(t, kw["sigma"], axis=1)
        if kw["apply_log"]:
            t = -np.log(t)
        want = []
        for c in cs:
            img = E.fn("_reconstruct_slice", REC)(t, c, method, kw.get("angles"), 1.0, "hann", False, False, 1)
            want.append(centre_of_mass(img, off))
        if invert:
            want = [max(want) - v for v in want]
        TOL[0] = 1e-4
        E.ensure("metric", all(eq(float(x), float(y)) for x, y in zip(ms, want)))


@contract("A25", REC, "find_center_based_slice_metric", dict(typ=["int", "float"], zoom=[1.0, 0.5], metric=["custom", "entropy", "sharpness"], radius=[0, 1]),
          bounded=True, samples=3, rt_budget=3.0)
def slice_search(E, typ, zoom, metric, radius):
    """Coarse search with a step of one over [start, stop], then a fine one around it."""
    import numpy as np
    h, w = E.size("h", 6, 10), E.size("w", 16, 26, small=10)
    s = E.array("sino", (h, w), lo=0.5, hi=0.9)
    E.require(s.std() > 0.02)
    a = E.int("start", 5, w - 8, small=8)
    b = a + E.int("num", 0, 3)
    if typ == "float":
        a, b = a + 0.5, b + 0.5
    kw = dict(method="fbp", gpu=False, ncore=1, sigma=1, apply_log=False, invert_metric=E.bool("invert"))
    if metric == "custom":
        kw.update(metric_function=centre_of_mass, offset=E.real("offset", -1, 1))
    else:
        kw["metric"] = metric
    if E.bool("angles"):
        kw["angles"] = np.linspace(0, np.pi, h) + 0.01
    r = E.call(s, a, b, step=0.5, radius=radius, zoom=zoom, **kw)
    inner = E.fn("_find_center_based_slice_metric", REC)
    from scipy import ndimage as ndi
    sz = ndi.zoom(s, zoom, order=1, mode="nearest") if zoom < 1 else s
    kz = dict(kw)
    if zoom < 1 and "angles" in kw:
        kz["angles"] = ndi.zoom(np.tile(kw["angles"], (1, 1)), (1.0, zoom))[0]
    c = a if b <= a else inner(sz, a * zoom, b * zoom + 1, 1.0, return_metric=False, **kz) / zoom
    if radius:
        rad = max(radius, 0.5 + 1 / zoom)
        cs, ms = inner(s, c - rad, c + rad + 0.5, 0.5, return_metric=True, **kw)
        best = cs[int(np.argmin(ms))]
        E.ensure("around_coarse", between(c - rad, float(r), c + rad + 0.5))
        c = best
    TOL[0] = 1e-6
    E.ensure("result", eq(float(r), float(c)))


@contract("A25", REC, "find_center_based_slice_metric", dict(typ=["int", "float"]), name="find_center_based_slice_metric(true axis)", bounded=True, samples=2, rt_budget=8.0)
def slice_true(E, typ):
    """A point-like object: the sharpest slice is at its axis."""
    import numpy as np
    w, h = 65 + 2 * E.int("odd", 0, 3), 91
    c = w // 2 + E.int("shift", -4, 4, dim=False)
    th = np.linspace(0, np.pi, h)
    x = np.arange(w)
    s = np.zeros((h, w), dtype="float32")
    for rr, ph in ((9, 0.4), (5, 2.0), (14, 4.1)):
        s += np.exp(-((x[None] - (c + rr * np.cos(th + ph))[:, None]) / 1.2) ** 2)

    def blur(img):
        return -float(np.sum(img ** 4))
    r = E.call(s, c - 3 if typ == "int" else c - 3.0, c + 4, step=0.5, radius=1, method="fbp", gpu=False, apply_log=False, sigma=0, metric_function=blur)
    E.ensure("found", abs(float(r) - c) <= 0.51, "%s for an axis at %s" % (r, c))


@contract("A25", VER, "find_center_vertical_slice", dict(typ=["int", "float", "mixed"], metric=["custom", "entropy", "sharpness", "autocorrelation"]),
          bounded=True, samples=3, rt_budget=5.0)
def vertical_slice(E, typ, metric):
    import numpy as np
    n, h, w = E.size("n", 5, 8), E.size("h", 6, 9), E.size("w", 14, 20, small=8)
    p = E.array("proj", (n, h, w), lo=0.5, hi=0.9)
    E.require(p.std() > 0.02)
    a, b, st = rng_of(E, typ, w)
    kw = dict(gpu=False, show_progress=False, ncore=1, sigma=E.int("sigma", 0, 1), apply_log=E.bool("log"), masking=E.bool("masking"),
              alpha=E.real("alpha", 0, 180, vals=[0.0, 90.0]), invert_metric=E.bool("invert"))
    if metric == "custom":
        kw.update(metric_function=centre_of_mass, offset=0.1)
    else:
        kw["metric"] = metric
    k = E.int("slice", 3, w - 4)
    cs, ms = E.call(p, k, a, b, st, return_metric=True, **kw)
    m = int(round((b - a) / st)) + 1
    E.ensure("candidates", len(cs) == m and all(eq(float(cs[i]), float(a + i * st)) for i in range(m)))
    best = E.call(p, k, a, b, st, **kw)
    E.ensure("optimal", any(float(cs[i]) == float(best) and ms[i] == min(ms) for i in range(m)))
    # every candidate is judged by its own reconstruction: one candidate at a time gives the same metric
    if metric == "custom":
        from scipy import ndimage as ndi
        t = ndi.gaussian_filter(p, (0, kw["sigma"], kw["sigma"])) if kw["sigma"] else p
        if kw["apply_log"]:
            t = -np.log(t)
        rad = int(min(a, w - a))
        left = (w - 2 * rad) // 2
        mask = np.zeros(w)
        mask[left:left + 2 * rad] = 1.0
        want = []
        for c in cs:
            img = E.fn("vertical_reconstruction", VER)(t, k, c, alpha=kw["alpha"], chunk_size=30, ramp_filter="after", filter_name="hann",
                                                       pad=min(int(0.15 * w), 150), pad_mode="edge", apply_log=False, gpu=False, ncore=1, show_progress=False)
            want.append(centre_of_mass(img * mask if kw["masking"] else img, 0.1))
        if kw["invert_metric"]:
            want = [max(want) - v for v in want]
        TOL[0] = 1e-4
        E.ensure("metric", all(eq(float(x), float(y)) for x, y in zip(ms, want)))
