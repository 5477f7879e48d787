"""A23 locating slices in a vertical grid of tiles, A24 filling overlap tables."""
from vc.spec import *

UTIL = "algotom.util.utility"


def table(E, gaps, side):
    """An overlap table of integer overlaps (at least 2, at most half a tile so that at most two tiles meet)."""
    h = E.int("height", 4, 30000, small=12)
    ncol = E.size("ncol", 1, 4)
    ov = E.array("ov", (gaps,), "int64", lo=2, hi=15000, elem=lambda v, i: [2 * v <= h], gen=lambda rs, s: rs.randint(2, h // 2 + 1, s))
    m = E.derived("meta", (gaps, ncol, 2), lambda i, j, k: ite(k == 0, at(ov, i), side), "int64")
    st = [0]
    for i in range(gaps):
        st.append(st[-1] + h - at(ov, i))
    return h, m, st, [at(ov, i) for i in range(gaps)]


def covers(st, i, h, s):
    return land(s >= st[i], s < st[i] + h)


def position(side, st, i, h, s):
    return s - st[i] if side == 1 else st[i] + h - 1 - s


def weight(st, ov, i, h, s):
    w = 1
    if i > 0:
        w = ite(s < st[i - 1] + h, div(s - st[i], ov[i - 1] - 1), w)
    if i < len(ov):
        w = ite(s >= st[i + 1], div(st[i] + h - 1 - s, ov[i] - 1), w)
    return w


@contract("A23", UTIL, "locate_slice", dict(gaps=[1, 2, 3], side=[0, 1]))
def single(E, gaps, side):
    h, m, st, ov = table(E, gaps, side)
    s = E.int("slice", -3, 100000, small=60)
    r = E.call(s, h, m)
    n = 0
    for i in range(gaps + 1):
        if E.case_split(covers(st, i, h, s)):
            E.ensure("found_%d" % i, n < len(r))
            if n < len(r):
                E.ensure("tile_%d" % i, eq(r[n][0], i))
                E.ensure("row_%d" % i, eq(at(r[n][1]), position(side, st, i, h, s)))
                E.ensure("weight_%d" % i, eq(at(r[n][2]), weight(st, ov, i, h, s)))
            n += 1
    E.ensure("nothing_else", len(r) == n)
    if n == 2 and len(r) == 2:
        E.ensure("weights_sum", eq(at(r[0][2]) + at(r[1][2]), 1))
    for q in r:
        E.ensure("weight_range", between(0, at(q[2]), 1))


@contract("A23", UTIL, "locate_slice_chunk", dict(gaps=[1, 2, 3], side=[0, 1], length=[1, 2]))
def chunk(E, gaps, side, length):
    chunk_body(E, gaps, side, length)


@contract("A23", UTIL, "locate_slice_chunk", dict(gaps=[1, 2, 4], side=[0, 1], length=["any"]), name="locate_slice_chunk.any", bounded=True,
          samples=200)
def chunk_any(E, gaps, side, length):
    chunk_body(E, gaps, side, E.int("length", 1, 40, small=40))


def chunk_body(E, gaps, side, length):
    h, m, st, ov = table(E, gaps, side)
    s0 = E.int("start", -3, 100000, small=60)
    r = E.call(s0, s0 + length, h, m)
    n = 0
    for i in range(gaps + 1):
        want = [s0 + k for k in range(length) if E.case_split(covers(st, i, h, s0 + k))]
        if want:
            E.ensure("found_%d" % i, n < len(r))
            if n < len(r):
                E.ensure("count_%d" % i, len(r[n]) == len(want))
                if len(r[n]) == len(want):
                    for q, s in zip(r[n], want):
                        E.ensure("tile_%d" % i, eq(q[0], i))
                        E.ensure("row_%d" % i, eq(at(q[1]), position(side, st, i, h, s)))
                        E.ensure("weight_%d" % i, eq(at(q[2]), weight(st, ov, i, h, s)))
            n += 1
    E.ensure("nothing_else", len(r) == n)


@contract("A23", UTIL, "locate_slice_chunk", dict(side=[0, 1]), name="locate_slice_chunk.refuse")
def chunk_refuse(E, side):
    h, m, st, ov = table(E, 1, side)
    s0, s1 = E.int("start", 0, 1000), E.int("stop", 0, 1000)
    E.require(s1 < s0)
    E.call(s0, s1, h, m, _raises={"ValueError": True})


@contract("A24", UTIL, "fix_non_sample_areas", dict(direction=["horizontal", "vertical"], gaps=["some", "none"]), bounded=True, samples=400)
def fix_areas(E, direction, gaps):
    nr, nc = E.size("nrow", 1, 6, small=5), E.size("ncol", 1, 6, small=5)

    def gen(rs, s):
        a = rs.randint(1, 400, s)
        a[..., 1] = rs.randint(0, 2, s[:2])
        if gaps == "some":
            z = rs.rand(*s[:2]) < rs.choice([0.2, 0.5, 0.8, 0.95])
            a[z] = 0
        return a
    m = E.array("meta", (nr, nc, 2), "int64" if E.bool("int_table") else "float32", lo=0, hi=400, gen=gen)
    r = E.call(m, direction=direction)
    E.ensure("shape", shape(r) == (nr, nc, 2))

    def near(i, j):
        return [(a, b) for a, b in ((i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)) if 0 <= a < nr and 0 <= b < nc]
    known = {(at(m, i, j, 0), at(m, i, j, 1)) for i in range(nr) for j in range(nc) if at(m, i, j, 0) != 0}
    for i in range(nr):
        for j in range(nc):
            new = (at(r, i, j, 0), at(r, i, j, 1))
            if at(m, i, j, 0) != 0:
                E.ensure("measured_kept", new == (at(m, i, j, 0), at(m, i, j, 1)))
            elif new[0] != 0:
                E.ensure("filled_from_measured", new in known)
            else:
                E.ensure("empty_only_if_nothing_adjacent", all(at(m, a, b, 0) == 0 for a, b in near(i, j)))
