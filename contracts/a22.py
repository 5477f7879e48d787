"""A22 repair of blobs, zingers and stripes."""
from vc.spec import *
import numpy as np

REM = "algotom.prep.removal"
UTI = "algotom.util.utility"


def kept_between(keep, w, j):
    """Nearest kept columns at or left of and at or right of column j."""
    return (MAXI((w,), lambda k: ite(land(k <= j, keep(k)), k, -1)), MINI((w,), lambda k: ite(land(k >= j, keep(k)), k, w)))


def repaired(row, keep, w, j):
    """Linear interpolation between the nearest kept columns."""
    a, b = kept_between(keep, w, j)
    if E_RT and (a < 0 or b >= w):
        return float("nan")
    t = ite(eq(a, b), 0, div(j - a, b - a) if not E_RT else (j - a) / max(b - a, 1))
    return (1 - t) * row(a) + t * row(b)


E_RT = False


def masked(mask, w):
    """The two outer columns on each side are never repaired."""
    return lambda j: land(mask(j) > 0, j >= 2, j < w - 2)


def mask_gen(rs, s):
    return (rs.rand(*s) < rs.choice([0.1, 0.4, 0.9])).astype(float)


@contract("A22", REM, "remove_blob_1d", {}, frame=True)
def remove_blob_1d(E):
    global E_RT
    E_RT = E.rt
    w = E.size("w", 5, 30000, small=9)
    row = E.array("row", (w,))
    mask = E.array("mask", (w,), elem=lambda v, j: lor(v == 0, v == 1), gen=mask_gen)
    r = E.call(row, mask)
    E.ensure("shape", land(eq(length(r.shape), 1), eq(r.shape[0], w)))
    bad = masked(lambda j: at(mask, j), w)
    E.forall("untouched", (w,), lambda j: implies(lnot(bad(j)), eq(at(r, j), at(row, j))))
    E.forall("interpolated", (w,), lambda j: implies(bad(j), eq(at(r, j), repaired(lambda k: at(row, k), lambda k: lnot(bad(k)), w, j))))


@contract("A22", REM, "remove_blob", {}, frame=True)
def remove_blob(E):
    global E_RT
    E_RT = E.rt
    h, w = E.size("h", 1, 30000), E.size("w", 5, 30000, small=9)
    mat = E.array("mat", (h, w))
    mask = E.array("mask", (h, w), elem=lambda v, i, j: lor(v == 0, v == 1), gen=mask_gen)
    r = E.call(mat, mask)
    E.ensure("shape", land(eq(length(r.shape), 2), eq(r.shape[0], h), eq(r.shape[1], w)))
    bad = lambda i: masked(lambda j: at(mask, i, j), w)
    E.forall("untouched", (h, w), lambda i, j: implies(lnot(bad(i)(j)), eq(at(r, i, j), at(mat, i, j))))
    E.forall("interpolated", (h, w), lambda i, j: implies(bad(i)(j), eq(at(r, i, j), repaired(
        lambda k: at(mat, i, k), lambda k: lnot(bad(i)(k)), w, j))))


@contract("A22", UTI, "interpolate_inside_stripe", {}, frame=True)
def interpolate_inside_stripe(E):
    global E_RT
    E_RT = E.rt
    h, w = E.size("h", 2, 30000), E.size("w", 5, 30000, small=9)
    mat = E.array("mat", (h, w))
    mask = E.array("mask", (w,), elem=lambda v, j: lor(v == 0, v == 1), gen=mask_gen)
    r = E.call(mat, mask)
    E.ensure("shape", land(eq(length(r.shape), 2), eq(r.shape[0], h), eq(r.shape[1], w)))
    bad = masked(lambda j: at(mask, j), w)
    E.forall("untouched", (h, w), lambda i, j: implies(lnot(bad(j)), eq(at(r, i, j), at(mat, i, j))))
    E.forall("interpolated", (h, w), lambda i, j: implies(bad(j), eq(at(r, i, j), repaired(
        lambda k: at(mat, i, k), lambda k: lnot(bad(k)), w, j))))


@contract("A22", REM, "remove_zinger", dict(size=[1, 2, 3]), frame=True)
def remove_zinger(E, size):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    mat = E.array("mat", (h, w), lo=0, hi=10)
    thr = E.real("threshold", 0, 5)
    r = E.call(mat, thr, size=size)
    E.ensure("shape", land(eq(length(r.shape), 2), eq(r.shape[0], h), eq(r.shape[1], w)))

    def around(i, j):
        v = 0
        for a in (-size, 0, size):
            for b in (-size, 0, size):
                if a or b:
                    v = v + at(mat, mod(i - a, h), mod(j - b, w))
        v = div(v, 8)
        return ite(eq(v, 0), 1, v)

    def zinger(i, j):
        return div(at(mat, i, j), around(i, j)) - 1 > thr
    if E.rt:
        E.forall("repaired", (h, w), lambda i, j: lor(abs(at(mat, i, j) / around(i, j) - 1 - thr) < 1e-4, eq(
            at(r, i, j), ite(zinger(i, j), around(i, j), at(mat, i, j)))))
    else:
        E.forall("repaired", (h, w), lambda i, j: eq(at(r, i, j), ite(zinger(i, j), around(i, j), at(mat, i, j))))


# ------------------------------------------------------------------------------------------------ stripes
def stripes(rs, s):
    m = np.linspace(0.8, 1.2, s[1]) * rs.uniform(0.9, 1.1, s)
    for j in rs.choice(np.arange(2, s[1] - 2), 2, replace=False):
        m[:, j] *= 1.5
    return m


def flagged_columns(E, fact, snr):
    """Columns taken for stripes: the detected ones and their direct neighbours."""
    d = E.apply("detect_stripe", UTI, fact, snr)
    return E.lib("scipy.ndimage", "binary_dilation", d, iterations=1)


@contract("A22", REM, "remove_large_stripe", dict(norm=[True, False], opt=[None, {"method": "gaussian_filter", "para1": (1, 5)}]), bounded=True, samples=12)
def remove_large_stripe(E, norm, opt):
    """A column that is not flagged keeps its values (divided by the factor of the column if asked for); a flagged one gets those of the smoothed image."""
    h, w = E.size("h", 12, 40), E.size("w", 30, 60)
    m = E.array("sinogram", (h, w), gen=stripes)
    ratio = E.real("drop_ratio", 0, 1)
    snr = 2.0
    r = E.call(m, snr, 11, ratio, norm, **({} if opt is None else {"option": dict(opt)}))
    s, ix = E.apply("sort_forward", UTI, m, axis=0)
    g = E.lib("scipy.ndimage", "median_filter", s, (1, 11)) if opt is None else E.lib("scipy.ndimage", "gaussian_filter", s, (1, 5))
    nd = int(0.5 * min(ratio, 0.8) * h)
    a, b = s[nd:h - nd].mean(axis=0), g[nd:h - nd].mean(axis=0)
    fact = np.where(b != 0, a / np.where(b != 0, b, 1), 1)
    flag = flagged_columns(E, fact, snr)
    q = E.apply("sort_backward", UTI, g, ix, axis=0)
    E.ensure("shape", r.shape == m.shape)
    E.forall("untouched", (h, w), lambda i, j: implies(not flag[j], eq(at(r, i, j), at(m, i, j) / (fact[j] if norm else 1))))
    E.forall("repaired", (h, w), lambda i, j: implies(flag[j], eq(at(r, i, j), at(q, i, j))))


@contract("A22", REM, "remove_dead_stripe", dict(dt=["float32", "float64"]), bounded=True, samples=20)
def remove_dead_stripe(E, dt):
    """Flagged columns (never the two outer ones) are interpolated linearly between the nearest columns kept, the others stay."""
    h, w = E.size("h", 12, 40), E.size("w", 30, 60)

    def dead(rs, s):
        m = np.linspace(0.8, 1.2, s[1]) * rs.uniform(0.9, 1.1, s)
        for j in rs.choice(np.arange(0, s[1]), rs.randint(1, 4), replace=False):
            m[:, j] = 1.0 if rs.rand() < 0.5 else rs.uniform(0, 2, s[0])
        return m
    m = E.array("sinogram", (h, w), dt, gen=dead)
    r = E.call(m, 1.5, 11, False, 7)
    sm = E.lib("scipy.ndimage", "uniform_filter1d", m, 7, axis=0)
    d = np.sum(np.abs(m - sm), axis=0)
    bck = np.array(E.lib("scipy.ndimage", "median_filter", d, 11))
    bck[bck == 0.0] = np.mean(np.abs(bck))
    flag = flagged_columns(E, d / bck, 1.5)
    flag = [bool(flag[j]) and 2 <= j < w - 2 for j in range(w)]
    E.ensure("shape", r.shape == m.shape)
    E.forall("untouched", (h, w), lambda i, j: implies(not flag[j], at(r, i, j) == at(m, i, j)))
    if 0 < sum(flag) < w // 3:
        E.forall("interpolated", (h, w), lambda i, j: implies(flag[j], eq(at(r, i, j), between_kept(m, flag, i, j, w))))
    else:
        E.forall("too_many", (h, w), lambda i, j: at(r, i, j) == at(m, i, j))


def between_kept(m, flag, i, j, w):
    a, b = max(k for k in range(j + 1) if not flag[k]), min(k for k in range(j, w) if not flag[k])
    return m[i, a] if a == b else (m[i, a] * (b - j) + m[i, b] * (j - a)) / (b - a)


@contract("A22", REM, "remove_stripe_based_interpolation", dict(norm=[True, False], kind=["linear", "cubic", "quintic"],
                                                                opt=[None, {"method": "gaussian_filter", "para1": (1, 5)}]), bounded=True, samples=12)
def remove_stripe_based_interpolation(E, norm, kind, opt):
    h, w = E.size("h", 12, 40), E.size("w", 30, 60)
    m = E.array("sinogram", (h, w), "float64", gen=stripes)
    ratio = E.real("drop_ratio", 0, 1)
    snr = 2.0
    r = E.call(m, snr, 11, ratio, norm, kind, **({} if opt is None else {"option": dict(opt)}))
    s = np.sort(m, axis=0)
    g = E.lib("scipy.ndimage", "median_filter", s, (1, 11)) if opt is None else E.lib("scipy.ndimage", "gaussian_filter", s, (1, 5))
    nd = int(0.5 * min(ratio, 0.8) * h)
    a, b = s[nd:h - nd].mean(axis=0), g[nd:h - nd].mean(axis=0)
    a = np.where(a == 0, 1, a)
    fact = np.where(b != 0, a / np.where(b != 0, b, 1), 1)
    flag = flagged_columns(E, fact, snr)
    flag = [bool(flag[j]) and 2 <= j < w - 2 for j in range(w)]
    n = m / fact if norm else m
    E.ensure("shape", r.shape == m.shape)
    E.forall("untouched", (h, w), lambda i, j: implies(not flag[j], eq(at(r, i, j), at(n, i, j))))
    if kind == "linear":
        E.forall("interpolated", (h, w), lambda i, j: implies(flag[j], eq(at(r, i, j), between_kept(n, flag, i, j, w))))


def components(m):
    """Groups of marked pixels that touch along rows or columns."""
    left = {(i, j) for i in range(m.shape[0]) for j in range(m.shape[1]) if m[i, j] != 0}
    out = []
    while left:
        todo, c = [left.pop()], []
        while todo:
            i, j = todo.pop()
            c.append((i, j))
            for q in ((i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)):
                if q in left:
                    left.remove(q)
                    todo.append(q)
        out.append(c)
    return out


@contract("A22", REM, "select_zinger", dict(dt=["float32", "float64"]), bounded=True, samples=60)
def select_zinger(E, dt):
    """Exactly the connected groups of at most the given number of pixels are kept."""
    h, w = E.size("h", 1, 15), E.size("w", 1, 15)
    m = E.array("mat", (h, w), dt, gen=mask_gen)
    n = E.int("max_size", 1, 9)
    r = E.call(m, n)
    keep = {q for c in components(m) if len(c) <= n for q in c}
    E.ensure("shape", r.shape == m.shape)
    E.forall("small_ones", (h, w), lambda i, j: at(r, i, j) == (1 if (i, j) in keep else 0))


@contract("A22", REM, "remove_zinger", dict(size=[1, 2, 3]), bounded=True, samples=40, name="remove_zinger(size checked)")
def remove_zinger_checked(E, size):
    """Only the zingers of at most that size are replaced, by the values of the unchecked repair."""
    h, w = E.size("h", 8, 20), E.size("w", 8, 20)

    def spots(rs, s):
        m = rs.uniform(0.99, 1.01, s)
        m[rs.rand(*s) < rs.choice([0.02, 0.1, 0.3])] = 4.0
        return m
    m = E.array("mat", (h, w), "float64", gen=spots)
    full = E.run("remove_zinger", np.array(m), 0.4, size=size)
    flag = (full != m)
    r = E.call(m, 0.4, size=size, check_size=True)
    keep = {q for c in components(flag) if len(c) <= size for q in c}
    E.forall("only_small_ones", (h, w), lambda i, j: eq(at(r, i, j), at(full, i, j) if (i, j) in keep else at(m, i, j)))
