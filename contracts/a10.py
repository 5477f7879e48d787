"""A09 downsampling, A10 rescaling, A12 statistics: the in-memory functions (containers: a11_io)."""
from vc.spec import *

POST = "algotom.post.postprocessing"
RED = {"mean": MEAN, "min": MINR, "max": MAXR, "median": MEDIAN}


@contract("A09", POST, "downsample", dict(method=["mean", "min", "max", "median"], cell=["int", "tuple"]))
def downsample(E, method, cell):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    if cell == "int":
        if E.rt:
            c0 = E.int("c", 1, 4)
            arg = c0
            c1 = c0
        else:
            c0 = c1 = arg = E.int("c", 1, 30000)
    else:
        c0, c1 = E.int("c0", 1, 30000, small=4), E.int("c1", 1, 30000, small=4)
        arg = (c0, c1)
    m = E.array("mat", (h, w))
    E.require(idiv(h, c0) > 0, idiv(w, c1) > 0)
    r = E.call(m, arg, method=method)
    E.ensure("shape", land(eq(r.shape[0], idiv(h, c0)), eq(r.shape[1], idiv(w, c1))))
    R = RED[method]
    if E.rt:
        TOL[0] = 1e-4
    E.forall("value", (idiv(h, c0), idiv(w, c1)),
             lambda i, j: eq(at(r, i, j), R(c0, lambda a: R(c1, lambda b: at(m, i * c0 + a, j * c1 + b)))))


def near(E, a, b):
    """Equal, up to the truncation of a number that floating point puts on the other side of an integer."""
    return absv(a - b) <= 1 if E.rt else eq(a, b)


@contract("A10", POST, "rescale", dict(nbit=[8, 16], mm=["given", "none"], dt=["float32", "uint16", "int16", "uint8"]))
def rescale(E, nbit, mm, dt):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.array("mat", (h, w), dtype=dt)
    kw = {}
    if mm == "given":
        if dt == "float32":
            lo = E.real("gmin", -20, 20)
            hi = lo + E.real("grange", 0.01, 40)
        else:
            lo = E.int("gmin", -100 if dt == "int16" else 0, 200)
            hi = lo + E.int("grange", 1, 55)
        kw["minmax"] = (lo, hi)
    else:
        lo = MINR((h, w), lambda i, j: at(m, i, j))
        hi = MAXR((h, w), lambda i, j: at(m, i, j))
        E.require(lo < hi)
    r = E.call(m, nbit=nbit, **kw)
    M = 255 if nbit == 8 else 65535
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    E.ensure("dtype", str(r.dtype) == "uint%d" % nbit)
    E.forall("range", (h, w), lambda i, j: land(at(r, i, j) >= 0, at(r, i, j) <= M))
    E.forall("endpoints", (h, w), lambda i, j: land(implies(at(m, i, j) <= lo, eq(at(r, i, j), 0)),
                                                    implies(at(m, i, j) >= hi, near(E, at(r, i, j), M))))
    E.forall("linear", (h, w), lambda i, j: near(E, at(r, i, j), trunc(div((clip(at(m, i, j), lo, hi) - lo) * M, hi - lo))))
    if E.rt:
        E.forall("order", (h, w, h, w), lambda i, j, k, l: implies(at(m, i, j) <= at(m, k, l), at(r, i, j) <= at(r, k, l)), sample=300)
    else:
        def order(i, j, k, l):
            a, b = at(m, i, j), at(m, k, l)
            return implies(a <= b, at(r, i, j) <= at(r, k, l))
        E.forall("order", (h, w, h, w), order)


@contract("A10", POST, "rescale", name="postprocessing.rescale(bad depth)", frame=False)
def rescale_bad(E):
    m = E.array("mat", (2, 2))
    n = E.int("nbit", -1, 70)
    E.require(n != 8, n != 16)
    E.call(m, nbit=n, _raises={"ValueError": True})


@contract("A12", POST, "get_statistical_information", dict(den=[False, True]))
def statistics(E, den):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.array("mat", (h, w))
    p0, p1 = E.real("p0", 0, 100), E.real("p1", 0, 100)
    r = E.call(m, percentile=(p0, p1), denoise=den)
    if den:
        m = gaussian(E, m, 2)
    if E.rt:
        TOL[0] = 1e-4
    n, f = (h, w), lambda i, j: at(m, i, j)
    E.ensure("values", land(eq(at(r, 0), MINR(n, f)), eq(at(r, 1), MAXR(n, f)), eq(at(r, 2), PERCENTILE(n, f, p0)),
                            eq(at(r, 3), PERCENTILE(n, f, p1)), eq(at(r, 4), MEAN(n, f)), eq(at(r, 5), MEDIAN(n, f)),
                            eq(at(r, 6), VAR(n, f))))


@contract("A12", POST, "get_statistical_information_dataset", dict(den=[False, True], crop=[False, True]), budget=250)
def statistics_dataset(E, den, crop):
    d, h, w = E.size("d", 1, 30000, small=7), E.size("h", 1, 30000, small=6), E.size("w", 1, 30000, small=6)
    m = E.array("data", (d, h, w))
    sk = E.int("skip", 1, 40, small=5)
    kw = {}
    c = (0,) * 6
    if crop:
        c = tuple(E.int("crop%d" % k, 0, 5, small=3) for k in range(6))
        kw["crop"] = c
    E.require(c[0] + c[1] < d, c[2] + c[3] < h, c[4] + c[5] < w)
    D, H, W = d - c[0] - c[1], h - c[2] - c[3], w - c[4] - c[5]
    p0, p1 = E.real("p0", 0, 100), E.real("p1", 0, 100)
    r = E.call(m, percentile=(p0, p1), skip=sk, denoise=den, **kw)
    s = imax(imin(sk, D - 1), 1)
    n = idiv(D + s - 1, s)
    if E.rt:
        TOL[0] = 1e-4

    def slc(k):
        if not den:
            return lambda i, j: at(m, c[0] + k * s, c[2] + i, c[4] + j)
        g = gaussian_of(E, m, c, k * s + c[0], H, W)
        return lambda i, j: at(g, i, j)
    q = (H, W)
    E.ensure("min", eq(at(r, 0), MINR(n, lambda k: MINR(q, slc(k)))))
    E.ensure("max", eq(at(r, 1), MAXR(n, lambda k: MAXR(q, slc(k)))))
    E.ensure("low", eq(at(r, 2), MINR(n, lambda k: PERCENTILE(q, slc(k), p0))))
    E.ensure("high", eq(at(r, 3), MAXR(n, lambda k: PERCENTILE(q, slc(k), p1))))
    E.ensure("mean", eq(at(r, 4), MEAN(n, lambda k: MEAN(q, slc(k)))))
    E.ensure("median", eq(at(r, 5), MEDIAN(n, lambda k: MEDIAN(q, slc(k)))))
    E.ensure("variance", eq(at(r, 6), MEAN(n, lambda k: VAR(q, slc(k)))))


def gaussian(E, m, sigma):
    return E.lib("scipy.ndimage", "gaussian_filter", m, sigma)


def gaussian_of(E, m, c, z, H, W):
    return gaussian(E, view(m, z, slice(c[2], c[2] + H), slice(c[4], c[4] + W)), 2)
