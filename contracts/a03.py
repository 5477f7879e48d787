"""A03 stitching."""
from vc.spec import *

CONV = "algotom.prep.conversion"


def weight1(t, ov):
    """Weight of the left image at column t of the overlap."""
    return ite(eq(ov, 1), 1, 1 - div(t, imax(ov - 1, 1)))


@contract("A03", CONV, "make_weight_matrix", dict(side=[0, 1]))
def make_weight_matrix(E, side):
    h, w1, w2 = E.size("h", 1, 30000), E.size("w1", 1, 30000), E.size("w2", 1, 30000)
    ov = E.int("ov", 1, imin(w1, w2))
    m1, m2 = E.array("m1", (h, w1)), E.array("m2", (h, w2))
    a, b = E.call(m1, m2, ov, side)
    E.ensure("shapes", land(a.shape[0] == h, a.shape[1] == w1, b.shape[0] == h, b.shape[1] == w2))
    lw, l, r = (w1, a, b) if side == 1 else (w2, b, a)
    rw = w2 if side == 1 else w1
    E.forall("left", (h, lw), lambda i, j: eq(at(l, i, j), ite(j < lw - ov, 1, weight1(j - (lw - ov), ov))))
    E.forall("right", (h, rw), lambda i, j: eq(at(r, i, j), ite(j >= ov, 1, 1 - weight1(j, ov))))
    E.forall("unit_range", (h, lw), lambda i, j: between(0, at(l, i, j), 1))
    E.forall("sum_to_one", (h, ov), lambda i, j: eq(at(l, i, lw - ov + j) + at(r, i, j), 1))


@contract("A03", CONV, "stitch_image", dict(side=[0, 1], norm=[False, True], tw=["none", "given"], wei=["auto", "given"]))
def stitch_image(E, side, norm, tw, wei):
    h, w1, w2 = E.size("h", 1, 30000), E.size("w1", 1, 30000), E.size("w2", 1, 30000)
    ov = E.int("ov", 1, imin(w1, w2))
    m1, m2 = E.array("m1", (h, w1), lo=0.1), E.array("m2", (h, w2), lo=0.1)
    kw = {}
    if tw == "given":
        kw["total_width"] = E.int("total_width", 1, 70000, small=30)
    if wei == "given":
        kw["wei_mat1"], kw["wei_mat2"] = E.array("wa", (h, w1), lo=0, hi=1), E.array("wb", (h, w2), lo=0, hi=1)
    r = E.call(m1, m2, ov, side, norm=norm, **kw)
    tw0 = w1 + w2 - ov
    want = tw0 if tw == "none" else imax(tw0, kw["total_width"])
    E.ensure("height", eq(r.shape[0], h))
    E.ensure("width", eq(r.shape[1], want))
    lw = w1 if side == 1 else w2
    L, R = (m1, m2) if side == 1 else (m2, m1)
    f1 = f2 = 1
    if norm:
        if side == 1:
            k1 = MEAN((h, ov), lambda i, j: at(m1, i, w1 - ov + j))
            k2 = MEAN((h, ov), lambda i, j: at(m2, i, j))
            f2 = div(k1, k2)
        else:
            k2 = MEAN((h, ov), lambda i, j: at(m2, i, w2 - ov + j))
            k1 = MEAN((h, ov), lambda i, j: at(m1, i, j))
            f1 = div(k1, k2)
    gl, gr = (1, f2) if side == 1 else (f1, 1)

    def wl(i, t):
        if wei == "given":
            return at(kw["wei_mat1"] if side == 1 else kw["wei_mat2"], i, lw - ov + t)
        return weight1(t, ov)

    def wr(i, t):
        if wei == "given":
            return at(kw["wei_mat2"] if side == 1 else kw["wei_mat1"], i, t)
        return 1 - weight1(t, ov)

    def want_at(i, j0):
        j = imin(j0, tw0 - 1)
        t = j - (lw - ov)
        l, q = at(L, i, j) * gl, at(R, i, t) * gr
        if wei == "given":
            # user weights multiply the whole images
            wl_all = at(kw["wei_mat1"] if side == 1 else kw["wei_mat2"], i, j)
            wr_all = at(kw["wei_mat2"] if side == 1 else kw["wei_mat1"], i, t)
            return ite(t < 0, l * wl_all, ite(j >= lw, q * wr_all, l * wl_all + q * wr_all))
        return ite(t < 0, l, ite(j >= lw, q, l * wl(i, t) + q * wr(i, t)))
    E.forall("value", (h, want), lambda i, j: eq(at(r, i, j), want_at(i, j)))


@contract("A03", CONV, "stitch_image", dict(side=[0, 1]), name="stitch_image.heights")
def stitch_heights(E, side):
    h1, h2, w1, w2 = E.size("h1", 1, 3000), E.size("h2", 1, 3000), E.size("w1", 1, 3000), E.size("w2", 1, 3000)
    ov = E.int("ov", 1, imin(w1, w2))
    m1, m2 = E.array("m1", (h1, w1), lo=0.1), E.array("m2", (h2, w2), lo=0.1)
    E.call(m1, m2, ov, side, norm=False, _raises={"ValueError": lnot(eq(h1, h2))})
    E.ensure("same_height", eq(h1, h2))


@contract("A03", CONV, "stitch_image", dict(norm=[False, True]), name="stitch_image.mirror")
def stitch_mirror(E, norm):
    """Stitching on side 1 and on side 0 are mirror images of each other."""
    h, w1, w2 = E.size("h", 1, 3000), E.size("w1", 2, 3000), E.size("w2", 2, 3000)
    ov = E.int("ov", 2, imin(w1, w2))
    m1, m2 = E.array("m1", (h, w1), lo=0.1), E.array("m2", (h, w2), lo=0.1)
    f1, f2 = E.derived("f1", (h, w1), lambda i, j: at(m1, i, w1 - 1 - j)), E.derived("f2", (h, w2), lambda i, j: at(m2, i, w2 - 1 - j))
    a = E.call(m1, m2, ov, 1, norm=norm)
    b = E.call(f1, f2, ov, 0, norm=norm)
    E.ensure("width", eq(a.shape[1], b.shape[1]))
    W = w1 + w2 - ov
    if norm:
        return
    E.forall("mirror", (h, W), lambda i, j: eq(at(a, i, j), at(b, i, W - 1 - j)))


@contract("A03", CONV, "stitch_image_multiple", dict(n=[2, 3], norm=[False], tw=["none", "given"]))
def stitch_image_multiple(E, n, norm, tw):
    h = E.size("h", 1, 3000)
    ws = [E.size("w%d" % k, 1, 3000) for k in range(n)]
    ms = [E.array("m%d" % k, (h, ws[k]), lo=0.1) for k in range(n)]
    ovs = [E.int("ov%d" % k, 1, imin(ws[k], ws[k + 1])) for k in range(n - 1)]
    kw = {}
    if tw == "given":
        kw["total_width"] = E.int("total_width", 1, 70000, small=40)
    r = E.call(ms, [(o, 1) for o in ovs], norm=norm, **kw)
    cur = ms[0]
    st = E.fn("stitch_image")
    for k in range(1, n):
        cur = E.run(st, cur, ms[k], ovs[k - 1], 1, norm=norm)
    W = cur.shape[1]
    want = W if tw == "none" else imax(W, kw["total_width"])
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], want)))
    E.forall("value", (h, want), lambda i, j: eq(at(r, i, j), at(cur, i, imin(j, W - 1))))
