"""A04 joining with a gap; A05 360/180 degree conversions."""
from vc.spec import *

CONV = "algotom.prep.conversion"


@contract("A04", CONV, "join_image", dict(side=[0, 1], norm=[False, True], tw=["none", "given"]))
def join_image(E, side, norm, tw):
    h, w1, w2 = E.size("h", 2, 30000), E.size("w1", 4, 30000), E.size("w2", 4, 30000)
    g = E.int("gap", 0, 3000)
    m1, m2 = E.array("m1", (h, w1), lo=0.1), E.array("m2", (h, w2), lo=0.1)
    kw = {}
    if tw == "given":
        kw["total_width"] = E.int("total_width", 1, 70000, small=30)
    r = E.call(m1, m2, g, side, norm=norm, **kw)
    tw0 = w1 + w2 + g
    want = tw0 if tw == "none" else imax(tw0, kw["total_width"])
    E.ensure("height", eq(r.shape[0], h))
    E.ensure("width", eq(r.shape[1], want))
    (L, lw), (R, rw) = ((m1, w1), (m2, w2)) if side == 1 else ((m2, w2), (m1, w1))
    fl = fr = 1
    if norm:
        kl = MEAN((h, 3), lambda i, j: at(L, i, lw - 3 + j))
        kr = MEAN((h, 3), lambda i, j: at(R, i, j))
        if side == 1:
            fr = div(kl, kr)
        else:
            fl = div(kr, kl)
    E.forall("left_kept", (h, lw - 2), lambda i, j: eq(at(r, i, j), at(L, i, j) * fl))
    E.forall("right_kept", (h, rw - 3), lambda i, j: eq(at(r, i, lw + g + 3 + j), at(R, i, 3 + j) * fr))

    def seam(i, k):
        # seam columns lw-2 .. lw+g+2, between the kept columns lw-3 and lw+g+3
        t = div(k + 1, g + 6)
        return (1 - t) * (at(L, i, lw - 3) * fl) + t * (at(R, i, 3) * fr)
    E.hint(lw - 3, lw + g + 3)
    E.forall("seam", (h, g + 5), lambda i, k: eq(at(r, i, lw - 2 + k), seam(i, k)))
    E.forall("padding", (h, want - tw0), lambda i, k: eq(at(r, i, tw0 + k), at(r, i, tw0 - 1)))


@contract("A04", CONV, "join_image", dict(side=[0, 1]), name="join_image.heights")
def join_heights(E, side):
    h1, h2, w1, w2 = E.size("h1", 2, 3000), E.size("h2", 2, 3000), E.size("w1", 4, 3000), E.size("w2", 4, 3000)
    g = E.int("gap", 0, 3000)
    m1, m2 = E.array("m1", (h1, w1), lo=0.1), E.array("m2", (h2, w2), lo=0.1)
    E.call(m1, m2, g, side, norm=False, _raises={"ValueError": lnot(eq(h1, h2))})
    E.ensure("same_height", eq(h1, h2))


@contract("A04", CONV, "join_image_multiple", dict(n=[2, 3], norm=[False, True], tw=["none", "given"]))
def join_image_multiple(E, n, norm, tw):
    h = E.size("h", 2, 3000)
    ws = [E.size("w%d" % k, 4, 3000) for k in range(n)]
    ms = [E.array("m%d" % k, (h, ws[k]), lo=0.1) for k in range(n)]
    gs = [E.int("gap%d" % k, 0, 300) for k in range(n - 1)]
    kw = {}
    if tw == "given":
        kw["total_width"] = E.int("total_width", 1, 70000, small=60)
    r = E.call(ms, [(o, k % 2) for k, o in enumerate(gs)], norm=norm, **kw)
    cur = ms[0]
    st = E.fn("join_image")
    for k in range(1, n):
        cur = E.run(st, cur, ms[k], gs[k - 1], (k - 1) % 2, norm=norm)
    W = cur.shape[1]
    want = W if tw == "none" else imax(W, kw["total_width"])
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], want)))
    E.forall("value", (h, want), lambda i, j: eq(at(r, i, j), at(cur, i, imin(j, W - 1))))
