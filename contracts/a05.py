"""A05 360/180-degree conversions and the rotation centre they return."""
from vc.spec import *

CONV = "algotom.prep.conversion"


def geometry(E, form, side, w):
    """-> (argument, integer overlap, centre in the input)"""
    if form == "tuple":
        ov = E.int("ov", 1, w)
        return (ov, side), ov
    # a position on the half-pixel grid: 2*cor is an integer
    c2 = E.int("cor2", 0, w - 1) if side == 0 else E.int("cor2", w, 2 * w - 2)
    if side == 0:
        return div(c2, 2), c2 + 1
    return div(c2, 2), 2 * w - c2 - 1


def weight(t, ov):
    return ite(eq(ov, 1), 1, 1 - div(t, imax(ov - 1, 1)))


@contract("A05", CONV, "convert_sinogram_360_to_180", dict(form=["tuple", "position"], side=[0, 1], norm=[False, True], tw=["none", "given"]),
          where=lambda form, side, norm, tw: not (form == "position" and norm and tw == "given"))
def to180(E, form, side, norm, tw):
    h, w = E.size("h", 2, 30000), E.size("w", 2, 30000)
    cor, ov = geometry(E, form, side, w)
    s = E.array("sino", (h, w), lo=0.1)
    kw = {}
    if tw == "given":
        kw["total_width"] = E.int("total_width", 1, 70000, small=30)
    r, c = E.call(s, cor, norm=norm, **kw)
    n = idiv(h, 2) + 1
    W = 2 * w - ov
    want = W if tw == "none" else imax(W, kw["total_width"])
    E.ensure("shape", land(eq(r.shape[0], n), eq(r.shape[1], want)))
    # the returned centre is the middle of the stitched part, i.e. the axis referred to the new image
    E.ensure("centre", eq(c, div(W - 1, 2)))

    def top(i, j):
        return at(s, i, j)

    def bot(i, j):
        return at(s, h - n + i, w - 1 - j)
    ft = fb = 1
    if norm:
        if side == 1:
            fb = div(MEAN((n, ov), lambda i, j: top(i, w - ov + j)), MEAN((n, ov), lambda i, j: bot(i, j)))
        else:
            fb = div(MEAN((n, ov), lambda i, j: top(i, j)), MEAN((n, ov), lambda i, j: bot(i, w - ov + j)))

    def val(i, j0):
        j = imin(j0, W - 1)
        t = j - (w - ov)
        l = top(i, j) if side == 1 else bot(i, j) * fb
        q = bot(i, t) * fb if side == 1 else top(i, t)
        return ite(t < 0, l, ite(j >= w, q, l * weight(t, ov) + q * (1 - weight(t, ov))))
    E.forall("value", (n, want), lambda i, j: eq(at(r, i, j), val(i, j)))


@contract("A05", CONV, "extend_sinogram", dict(form=["tuple", "position"], side=[0, 1], log=[False, True]))
def extend(E, form, side, log):
    h, w = E.size("h", 1, 30000), E.size("w", 2, 30000)
    cor, ov = geometry(E, form, side, w)
    E.require(ov >= 2)
    s = E.array("sino", (h, w), lo=0.1)
    r, c = E.call(s, cor, apply_log=log)
    W = 2 * w - ov
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], W)))
    E.ensure("centre", eq(c, div(W - 1, 2)))

    def src(i, j):
        return -flog(at(s, i, j)) if log else at(s, i, j)

    def val(i, j):
        if side == 1:
            x = j
            wt = ite(x < w - ov, 1, 1 - div(x - (w - ov), ov - 1))
            return ite(j < w, 2 * src(i, x) * wt, 0)
        x = j - (w - ov)
        wt = ite(x >= ov, 1, div(x, ov - 1))
        return ite(x >= 0, 2 * src(i, x) * wt, 0)
    E.forall("value", (h, W), lambda i, j: eq(at(r, i, j), val(i, j)))


@contract("A05", CONV, "convert_sinogram_180_to_360", dict(centre=["any"]))
def to360(E, centre):
    h, w = E.size("h", 2, 30000), E.size("w", 2, 30000)
    c = E.real("center", 0, w - 1)
    s = E.array("sino", (h, w))
    r = E.call(s, c)
    E.ensure("shape", land(eq(r.shape[0], 2 * h - 1), eq(r.shape[1], w)))
    E.forall("first_half", (h, w), lambda i, j: eq(at(r, i, j), at(s, i, j)))


@contract("A05", CONV, "convert_sinogram_180_to_360", dict(), name="convert_sinogram_180_to_360.mirror")
def to360m(E):
    """For a centre on the half-pixel grid compatible with the width, the appended rows are mirrored about it."""
    h, w = E.size("h", 2, 3000), E.size("w", 2, 3000)
    d = E.int("d", 0 - w + 1, w - 1, dim=False)
    E.require(absv(d) * 2 <= w - 1)
    c = div(w - 1, 2) - d
    s = E.array("sino", (h, w))
    r = E.call(s, c)
    # columns whose mirror image lies inside the data
    E.forall("mirrored", (h - 1, w), lambda i, j: implies(between(0, w - 1 - 2 * d - j, w - 1), eq(at(r, h + i, j), at(s, 1 + i, w - 1 - 2 * d - j))))


def move(E, m, s):
    """Content moved right by s columns (spline interpolation, edges replicated)."""
    return E.lib("scipy.ndimage", "shift", m, (0, s), mode="nearest")


def fraction(E):
    """The part of an overlap beyond the nearest whole number of columns."""
    s = E.real("frac", -0.49, 0.49)
    E.require(lor(s > 0.001, s < -0.001))
    return s


@contract("A03", CONV, "stitch_image", dict(side=[0, 1], norm=[False, True]), name="stitch_image.fractional")
def stitch_fractional(E, side, norm):
    """A fractional overlap n+s is the whole overlap n after moving the two images s towards or away from each other, half each."""
    h, w1, w2 = E.size("h", 1, 3000), E.size("w1", 3, 3000, small=15), E.size("w2", 3, 3000, small=15)
    n = E.int("ov", 1, imin(w1, w2))
    s = fraction(E)
    m1, m2 = E.array("m1", (h, w1), lo=0.5, hi=1), E.array("m2", (h, w2), lo=0.5, hi=1)
    r = E.call(m1, m2, n + s, side, norm=norm)
    d = div(s, 2) if side == 1 else div(-s, 2)
    q = E.run("stitch_image", move(E, m1, d), move(E, m2, -d), n, side, norm=norm)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w1 + w2 - n)))
    E.forall("value", (h, w1 + w2 - n), lambda i, j: eq(at(r, i, j), at(q, i, j)))


@contract("A04", CONV, "join_image", dict(side=[0, 1], norm=[False, True]), name="join_image.fractional")
def join_fractional(E, side, norm):
    """A fractional gap n+s is the whole gap n after moving the two images s away from each other, half each."""
    h, w1, w2 = E.size("h", 2, 3000), E.size("w1", 4, 3000, small=15), E.size("w2", 4, 3000, small=15)
    n = E.int("gap", 1, 300, small=6)
    s = fraction(E)
    m1, m2 = E.array("m1", (h, w1), lo=0.5, hi=1), E.array("m2", (h, w2), lo=0.5, hi=1)
    r = E.call(m1, m2, n + s, side, norm=norm)
    d = div(-s, 2) if side == 1 else div(s, 2)
    q = E.run("join_image", move(E, m1, d), move(E, m2, -d), n, side, norm=norm)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w1 + w2 + n)))
    E.forall("value", (h, w1 + w2 + n), lambda i, j: eq(at(r, i, j), at(q, i, j)))


@contract("A05", CONV, "convert_sinogram_360_to_180", dict(side=[0, 1], norm=[False, True]), name="convert_sinogram_360_to_180.fractional")
def to180_fractional(E, side, norm):
    """The two halves are moved so that both have their axis at the returned centre."""
    h, w = E.size("h", 2, 3000), E.size("w", 3, 3000, small=15)
    n = E.int("ov", 1, w - 1)
    s = fraction(E)
    ov = n + s
    cor = div(ov - 1, 2) if side == 0 else w - div(ov + 1, 2)
    E.require(cor >= 0, cor <= w - 1, 2 * cor <= w - 1 if side == 0 else 2 * cor > w - 1)
    a = E.array("sino", (h, w), lo=0.5, hi=1)
    r, c = E.call(a, cor, norm=norm)
    k = idiv(h, 2) + 1
    top = E.derived("top", (k, w), lambda i, j: at(a, i, j))
    bot = E.derived("bot", (k, w), lambda i, j: at(a, h - k + i, w - 1 - j))
    # axis at `cor` in the first half and at w-1-cor in the mirrored half, before the move by d and -d
    d = c - cor - (w - n if side == 0 else 0)
    q = E.run("stitch_image", move(E, top, d), move(E, bot, -d), n, side, norm=norm)
    E.ensure("centre", eq(c, div(2 * w - n - 1, 2)))
    E.forall("value", (k, 2 * w - n), lambda i, j: eq(at(r, i, j), at(q, i, j)))


@contract("A05", CONV, "extend_sinogram", dict(side=[0, 1]), name="extend_sinogram.fractional")
def extend_fractional(E, side):
    """The sinogram is moved so that its axis is at the returned centre."""
    h, w = E.size("h", 1, 3000), E.size("w", 3, 3000, small=15)
    n = E.int("ov", 2, w - 1)
    s = fraction(E)
    ov = n + s
    cor = div(ov - 1, 2) if side == 0 else w - div(ov + 1, 2)
    E.require(cor >= 0, cor <= w - 1, 2 * cor <= w - 1 if side == 0 else 2 * cor > w - 1)
    a = E.array("sino", (h, w), lo=0.5, hi=1)
    r, c = E.call(a, cor, apply_log=False)
    d = c - cor - (w - n if side == 0 else 0)
    q, c2 = E.run("extend_sinogram", move(E, a, d), (n, side), apply_log=False)
    E.ensure("centre", land(eq(c, div(2 * w - n - 1, 2)), eq(c, c2)))
    E.forall("value", (h, 2 * w - n), lambda i, j: eq(at(r, i, j), at(q, i, j)))
