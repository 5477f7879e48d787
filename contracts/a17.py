"""A17 sorting along an axis and its inverse."""
from vc.spec import *

UTIL = "algotom.util.utility"

if not RT:
    from vc.sym_env import pure_callee
    pure_callee(UTIL, "calculate_regularization_coefficient", lambda k: (k["width"], k["width"]))


def pos(axis, i, k):
    """(line, position) -> pixel"""
    return (k, i) if axis == 0 else (i, k)


@contract("A17", UTIL, "sort_forward", dict(axis=[0, 1]))
def forward(E, axis):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.array("mat", (h, w))
    n, lines = (h, w) if axis == 0 else (w, h)
    s, ix = E.call(m, axis=axis)
    E.ensure("shape", land(eq(s.shape[0], h), eq(s.shape[1], w), eq(ix.shape[0], h), eq(ix.shape[1], w)))
    E.forall("index_in_range", (lines, n), lambda i, k: land(at(ix, *pos(axis, i, k)) >= 0, at(ix, *pos(axis, i, k)) <= n - 1))
    E.forall("index_integral", (lines, n), lambda i, k: eq(floor(at(ix, *pos(axis, i, k))), at(ix, *pos(axis, i, k))))
    E.forall("same_values", (lines, n), lambda i, k: eq(at(s, *pos(axis, i, k)), at(m, *pos(axis, i, trunc(at(ix, *pos(axis, i, k)))))))
    E.forall("non_decreasing", (lines, n - 1), lambda i, k: le(at(s, *pos(axis, i, k)), at(s, *pos(axis, i, k + 1))))


@contract("A17", UTIL, "sort_backward", dict(axis=[0, 1]))
def backward(E, axis):
    """The value at sorted position k goes to the position given by index k, for any image and any permutation."""
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.array("mat", (h, w))
    ix = E.permutation("index", (h, w), axis)
    n, lines = (h, w) if axis == 0 else (w, h)
    r = E.call(m, ix, axis=axis)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    E.forall("carried_back", (lines, n), lambda i, k: eq(at(r, *pos(axis, i, trunc(at(ix, *pos(axis, i, k))))), at(m, *pos(axis, i, k))))


@contract("A17", UTIL, "sort_forward", dict(axis=[0, 1]), name="sort.round_trip")
def round_trip(E, axis):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    m = E.array("mat", (h, w))
    s, ix = E.call(m, axis=axis)
    r = E.run("sort_backward", s, ix, axis=axis)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    E.forall("restored", (h, w), lambda i, j: eq(at(r, i, j), at(m, i, j)))


# ------------------------------------------------------------------------------------ filters in the sorted domain
REM, POS = "algotom.prep.removal", "algotom.post.postprocessing"
GAUSS = {"method": "gaussian_filter", "para1": (1, 5)}
MEDIAN = {"method": "median_filter", "para1": (1, 3)}


def distinct(rs, s):
    """An image whose columns have no repeated values (stripes included)."""
    m = rs.uniform(0.5, 2.0, s) * (1 + 0.5 * (rs.rand(s[1]) < 0.2))
    return m


def image(E, dt="float32", lo=8, hi=30000):
    return E.array("sinogram", (E.size("h", lo, hi), E.size("w", lo, hi)), dt, gen=distinct)


def same(E, r, g, h, w):
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    E.forall("carried_back", (h, w), lambda i, j: eq(at(r, i, j), at(g, i, j)))


def options_of(opt):
    return {} if opt is None else {"option": dict(opt)}


@contract("A17", REM, "remove_stripe_based_sorting", dict(dim=[1, 2], opt=[None, "gauss", "both"]))
def sorting(E, dim, opt):
    """Sort the columns, smooth, and put every value back to the position it came from."""
    m = image(E)
    h, w = m.shape
    size = E.int("size", 1, 7)
    r = E.call(m, size, dim, **({} if opt is None else {"o1": dict(GAUSS)} if opt == "gauss" else {"o1": dict(MEDIAN), "o2": dict(GAUSS)}))
    s, ix = E.apply("sort_forward", UTIL, m, axis=0)
    if opt is None:
        s = E.lib("scipy.ndimage", "median_filter", s, (size, size) if dim == 2 else (1, size))
    else:
        if opt == "both":
            s = E.lib("scipy.ndimage", "median_filter", s, (1, 3))
        s = E.lib("scipy.ndimage", "gaussian_filter", s, (1, 5))
    same(E, r, E.apply("sort_backward", UTIL, s, ix, axis=0), h, w)


def in_sorted_domain(fn, cases, par, mod=REM, name="sort", lo=8, **opts):
    @contract("A17", mod, fn, cases, name="%s(%s)" % (fn, name), samples=6, **opts)
    def body(E, **kw):
        """Processing with sort=True is processing the sorted image with sort=False and putting the values back."""
        m = image(E, "float64", lo)
        h, w = m.shape
        a, k = par(E, **kw)
        r = E.call(m, *a, sort=True, **k)
        s, ix = E.apply("sort_forward", UTIL, m, axis=0)
        q = E.call(s, *a, sort=False, **k)
        same(E, r, E.apply("sort_backward", UTIL, q, ix, axis=0), h, w)


in_sorted_domain("remove_stripe_based_fitting", dict(num_chunk=[1], opt=[None, GAUSS]), lambda E, num_chunk, opt: ((2, 10), dict(num_chunk=num_chunk, **options_of(opt))))
in_sorted_domain("remove_stripe_based_normalization", dict(num_chunk=[1, 2], opt=[None, {"method": "gaussian_filter", "para1": 5}]),
                 lambda E, num_chunk, opt: ((5, num_chunk), options_of(opt)))
in_sorted_domain("remove_stripe_based_regularization", dict(num_chunk=[1], apply_log=[False]), lambda E, num_chunk, apply_log: ((0.005, num_chunk, apply_log), {}))
in_sorted_domain("remove_stripe_based_regularization", dict(num_chunk=[1, 3], apply_log=[True, False]),
                 lambda E, num_chunk, apply_log: ((0.005, num_chunk, apply_log), {}), name="sort, chunks", bounded=True)
in_sorted_domain("remove_stripe_based_fitting", dict(num_chunk=[2], opt=[None, MEDIAN]), lambda E, num_chunk, opt: ((1, 10), dict(num_chunk=num_chunk, **options_of(opt))),
                 name="sort, chunks", bounded=True)
in_sorted_domain("remove_stripe_based_normalization", dict(num_chunk=[3], opt=[None, {"method": "median_filter", "para1": 5}]),
                 lambda E, num_chunk, opt: ((5, num_chunk), options_of(opt)), name="sort, chunks", bounded=True)
in_sorted_domain("remove_stripe_based_fft", dict(v=[1, 2]), lambda E, v: ((5, 4, v), {}))
in_sorted_domain("remove_stripe_based_wavelet_fft", dict(level=[1, 2], window_name=["gaussian", "butter"], opt=[None, GAUSS]),
                 lambda E, level, window_name, opt: ((level, 1, "db5", window_name), options_of(opt)), bounded=True, lo=60)


@contract("A17", REM, "remove_stripe_based_filtering", dict(dim=[1, 2], sort=[True, False], opt=[None, GAUSS]), samples=6)
def filtering(E, dim, sort, opt):
    """The low-frequency part is smoothed (in the sorted domain if asked for), the high-frequency part is added back unchanged."""
    m = image(E)
    h, w = m.shape
    size = E.int("size", 1, 7)
    r = E.call(m, 3, size, dim, sort, **options_of(opt))
    s, sharp = E.apply("separate_frequency_component", UTIL, m, axis=0, window={"name": "gaussian", "sigma": 3})
    if sort:
        s, ix = E.apply("sort_forward", UTIL, s, axis=0)
    if opt is None:
        s = E.lib("scipy.ndimage", "median_filter", s, (size, size) if dim == 2 else (1, size))
    else:
        s = E.lib("scipy.ndimage", "gaussian_filter", s, (1, 5))
    if sort:
        s = E.apply("sort_backward", UTIL, s, ix, axis=0)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    E.forall("carried_back", (h, w), lambda i, j: eq(at(r, i, j), at(s, i, j) + at(sharp, i, j)))


@contract("A17", REM, "remove_stripe_based_2d_filtering_sorting", dict(dim=[1, 2]), samples=6)
def filtering_2d(E, dim):
    m = image(E, "float64")
    h, w = m.shape
    size = E.int("size", 1, 7)
    r = E.call(m, 2, size, dim)
    s = E.apply("apply_gaussian_filter", UTIL, m, 2, 2, imin(150, trunc(div(imin(h, w), 10))))
    q = E.apply("remove_stripe_based_sorting", REM, E.lib("numpy", "subtract", m, s), size, dim)
    E.ensure("shape", land(eq(r.shape[0], h), eq(r.shape[1], w)))
    E.forall("carried_back", (h, w), lambda i, j: eq(at(r, i, j), at(s, i, j) + at(q, i, j)))
