"""A07 distortion correction; A08 tilted sinograms and profiles."""
from vc.spec import *

COR = "algotom.prep.correction"


def model(E, nf, w, h, ident):
    """Coefficients and centre of the radial model."""
    xc, yc = E.real("xc", 0, w - 1), E.real("yc", 0, h - 1)
    if ident:
        fact = [1.0] + [0.0] * (nf - 1)
    else:
        fact = [E.real("c%d" % k, 0.8 if k == 0 else -0.02, 1.2 if k == 0 else 0.02) for k in range(nf)]
    return xc, yc, fact


def where_to(x, y, xc, yc, fact, w, h):
    xu, yu = x - xc, y - yc
    r = fsqrt(xu * xu + yu * yu)
    f = 0
    rp = 1
    for c in fact:
        f = f + c * rp
        rp = rp * r
    return clip(yc + f * yu, 0, h - 1), clip(xc + f * xu, 0, w - 1)


@contract("A07", COR, "unwarp_projection", dict(nf=[1, 2, 3, 5]))
def unwarp_projection(E, nf):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    p = E.array("proj", (h, w))
    xc, yc, fact = model(E, nf, w, h, False)
    r = E.call(p, xc, yc, fact)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    if E.rt:
        TOL[0] = 2e-3

    def val(i, j):
        y, x = where_to(j, i, xc, yc, fact, w, h)
        return bilinear(lambda a, b: at(p, a, b), y, x, h, w)
    E.forall("value", (h, w), lambda i, j: eq(at(r, i, j), val(i, j)))


def opts(E, opt, d):
    if opt == "all":
        return {}, 0, d, 1
    start = E.int("start", 0, d - 1)
    stop = E.int("stop", start + 1, d)
    step = E.int("step", 1, 4)
    return {"option": (start, stop, step)}, start, stop, step


@contract("A07", COR, "unwarp_sinogram", dict(nf=[1, 2, 3], opt=["all", "some"]))
def unwarp_sinogram(E, nf, opt):
    d, h, w = E.size("d", 1, 30000, small=4), E.size("h", 1, 30000), E.size("w", 1, 30000)
    data = E.array("data", (d, h, w))
    idx = E.int("index", 0, h - 1)
    xc, yc, fact = model(E, nf, w, h, False)
    kw, s0, s1, st = opts(E, opt, d)
    r = E.call(data, idx, xc, yc, fact, **kw)
    n = idiv(s1 - s0 + st - 1, st)
    E.ensure("shape", land(eq(r.shape[0], n), eq(r.shape[1], w)))
    if E.rt:
        TOL[0] = 2e-3

    def val(i, j):
        y, x = where_to(j, idx, xc, yc, fact, w, h)
        return bilinear(lambda a, b: at(data, s0 + i * st, a, b), y, x, h, w)
    E.forall("value", (n, w), lambda i, j: eq(at(r, i, j), val(i, j)))


@contract("A07", COR, "unwarp_sinogram_chunk", dict(nf=[1, 2, 3], opt=["all", "some"], stop=["last", "any"]))
def unwarp_sinogram_chunk(E, nf, opt, stop):
    d, h, w = E.size("d", 1, 30000, small=4), E.size("h", 1, 30000), E.size("w", 1, 30000)
    data = E.array("data", (d, h, w))
    a = E.int("start_index", 0, h - 1)
    b = E.int("stop_index", a + 1, h) if stop == "any" else -1
    b1 = b if stop == "any" else h
    xc, yc, fact = model(E, nf, w, h, False)
    if not E.rt:
        # the documented use: a monotone model, whose rows do not fold over inside the chunk
        E.require(*[c >= 0 for c in fact])
    elif any(c < 0 for c in fact):
        return
    kw, s0, s1, st = opts(E, opt, d)
    r = E.call(data, a, b, xc, yc, fact, **kw)
    n = idiv(s1 - s0 + st - 1, st)
    E.ensure("shape", land(eq(r.shape[0], n), eq(r.shape[1], b1 - a), eq(r.shape[2], w)))
    if E.rt:
        TOL[0] = 2e-3

    def val(k, i, j):
        y, x = where_to(j, a + i, xc, yc, fact, w, h)
        return bilinear(lambda p, q: at(data, s0 + k * st, p, q), y, x, h, w)
    E.forall("value", (n, b1 - a, w), lambda k, i, j: eq(at(r, k, i, j), val(k, i, j)))


# ------------------------------------------------------------------------------------------------- A08
def tilt(x, y, ang, w, h):
    xc, yc = div(w - 1, 2), div(h - 1, 2)
    a = ang * fpi() / 180 if E_RT() else ang * fpi() * Fraction(1, 180)
    c, s = fcos(a), fsin(a)
    return clip(yc + ((x - xc) * s + (y - yc) * c), 0, h - 1), clip(xc + ((x - xc) * c - (y - yc) * s), 0, w - 1)


def E_RT():
    return RT


@contract("A08", COR, "generate_tilted_sinogram", dict(opt=["all", "some"]))
def tilted_sinogram(E, opt):
    d, h, w = E.size("d", 1, 30000, small=4), E.size("h", 1, 30000), E.size("w", 1, 30000)
    data = E.array("data", (d, h, w))
    idx = E.int("index", 0, h - 1)
    ang = E.real("angle", -90, 90)
    kw, s0, s1, st = opts(E, opt, d)
    r = E.call(data, idx, ang, **kw)
    n = idiv(s1 - s0 + st - 1, st)
    E.ensure("shape", land(eq(r.shape[0], n), eq(r.shape[1], w)))
    if E.rt:
        TOL[0] = 1e-3

    def val(i, j):
        y, x = tilt(j, idx, ang, w, h)
        return bilinear(lambda a, b: at(data, s0 + i * st, a, b), y, x, h, w)
    E.forall("value", (n, w), lambda i, j: eq(at(r, i, j), val(i, j)))


@contract("A08", COR, "generate_tilted_sinogram_chunk", dict(opt=["all", "some"]))
def tilted_sinogram_chunk(E, opt):
    d, h, w = E.size("d", 1, 30000, small=4), E.size("h", 1, 30000), E.size("w", 1, 30000)
    data = E.array("data", (d, h, w))
    a = E.int("start_index", 0, h - 1)
    b = E.int("stop_index", a, h - 1)
    ang = E.real("angle", -90, 90)
    kw, s0, s1, st = opts(E, opt, d)
    r = E.call(data, a, b, ang, **kw)
    n = idiv(s1 - s0 + st - 1, st)
    E.ensure("shape", land(eq(r.shape[0], n), eq(r.shape[1], b - a + 1), eq(r.shape[2], w)))
    if E.rt:
        TOL[0] = 1e-3

    def val(k, i, j):
        y, x = tilt(j, a + i, ang, w, h)
        return bilinear(lambda p, q: at(data, s0 + k * st, p, q), y, x, h, w)
    E.forall("value", (n, b - a + 1, w), lambda k, i, j: eq(at(r, k, i, j), val(k, i, j)))


@contract("A08", COR, "generate_tilted_profile_line")
def tilted_profile(E):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.array("mat", (h, w))
    idx = E.int("index", 0, h - 1)
    ang = E.real("angle", -90, 90)
    r = E.call(m, idx, ang)
    E.ensure("shape", land(r.ndim == 1, eq(r.shape[0], w)))
    if E.rt:
        TOL[0] = 1e-3

    def val(j):
        y, x = tilt(j, idx, ang, w, h)
        return bilinear(lambda a, b: at(m, a, b), y, x, h, w)
    E.forall("value", (w,), lambda j: eq(at(r, j), val(j)))


@contract("A08", COR, "generate_tilted_profile_chunk")
def tilted_profile_chunk(E):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.array("mat", (h, w))
    a = E.int("start_index", 0, h - 1)
    b = E.int("stop_index", a, h - 1)
    ang = E.real("angle", -90, 90)
    r = E.call(m, a, b, ang)
    E.ensure("shape", land(eq(r.shape[0], b - a + 1), eq(r.shape[1], w)))
    if E.rt:
        TOL[0] = 1e-3

    def val(i, j):
        y, x = tilt(j, a + i, ang, w, h)
        return bilinear(lambda p, q: at(m, p, q), y, x, h, w)
    E.forall("value", (b - a + 1, w), lambda i, j: eq(at(r, i, j), val(i, j)))
