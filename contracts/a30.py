"""A30 phase: wrapping, unwrapping, transmission and dark-field signals."""
from vc.spec import *

PH = "algotom.prep.phase"

if RT:
    import numpy as np
else:
    from vc import sym_env as _S, npmodel as _N, terms as _T

    @_S.callee(PH, "_calculate_transmission_dark_field_values")
    def _values(env, ref_stack, sam_stack):
        """Modular contract: functions of the two windows (the formula is its own contract, `window_values`)."""
        if env.contract.name == "window_values":
            return NotImplemented
        env.c.assumptions.add("_calculate_transmission_dark_field_values is a deterministic function of the two windows (formula: its own contract)")
        return tuple(_N.opaque_array("callee:window_" + q, [_N.asarray(ref_stack), _N.asarray(sam_stack)], (), (), "float64").at() for q in ("trans", "dark"))


@contract("A30", PH, "_wrap_to_pi", dict(dim=[1, 2, 3]))
def wrap(E, dim):
    """In [-pi, fpi()), a whole number of turns from the input."""
    s = tuple(E.size("n%d" % k, 1, 30000, small=6) for k in range(dim))
    m = E.array("phase", s, lo=-1000, hi=1000)
    r = E.call(m)
    e = 1e-3 if E.rt else 0
    if E.rt:
        TOL[0] = 1e-3
    E.ensure("shape", eq(length(r), s[0]))
    E.forall("interval", s, lambda *i: land(at(r, *i) >= -fpi() - e, at(r, *i) < fpi() + e))
    E.forall("turns", s, lambda *i: eq(at(r, *i) + 2 * fpi() * floor((at(m, *i) + fpi()) / (2 * fpi())), at(m, *i)) if not E.rt else
             abs((float(at(r, *i)) - float(at(m, *i))) / (2 * fpi()) - round((float(at(r, *i)) - float(at(m, *i))) / (2 * fpi()))) < 1e-3)


@contract("A30", PH, "_double_image", {})
def double(E):
    """Mirrored in both directions, the image itself in the lower left quarter."""
    h, w = E.size("h", 1, 30000, small=6), E.size("w", 1, 30000, small=6)
    m = E.array("mat", (h, w))
    r = E.call(m)
    E.ensure("shape", land(eq(r.shape[0], 2 * h), eq(r.shape[1], 2 * w)))
    E.forall("image", (h, w), lambda i, j: eq(at(r, h + i, j), at(m, i, j)))
    E.forall("mirror_x", (2 * h, w), lambda i, j: eq(at(r, i, j), at(r, i, 2 * w - 1 - j)))
    E.forall("mirror_y", (h, 2 * w), lambda i, j: eq(at(r, i, j), at(r, 2 * h - 1 - i, j)))


def trans_inputs(E, dim, low):
    d = (E.size("d", 1, 300, small=3),) if dim == 3 else ()
    rad = E.int("rad", 0, 30, small=2)
    win = 2 * rad + 1 if low else 2 * rad + E.int("odd", 0, 1)
    E.require(win >= 1)
    g = E.int("margin", 1, 60, small=3)
    p = rad + g
    h, w = E.size("h", 3, 3000, small=9), E.size("w", 3, 3000, small=9)
    E.require(h > 2 * p, w > 2 * p)
    a, b = E.array("ref", d + (h, w), lo=0.2, hi=3), E.array("sam", d + (h, w), lo=0.2, hi=3)
    x, y = E.array("x", (h, w), lo=-g, hi=g), E.array("y", (h, w), lo=-g, hi=g)
    return d, win, g, rad, p, h, w, a, b, x, y


def signals(E, d, rad, i, j, a, b, x, y):
    """The values of the window around the pixel and the shifted reference window, averaged over the stack."""
    rnd = lambda v: int(np.round(v)) if E.rt else _T.s_round(v)      # noqa
    iy, jx = i + rnd(at(y, i, j)), j + rnd(at(x, i, j))

    def one(q):
        u = view(a, *(q + (slice(iy - rad, iy + rad + 1), slice(jx - rad, jx + rad + 1))))
        v = view(b, *(q + (slice(i - rad, i + rad + 1), slice(j - rad, j + rad + 1))))
        return E.apply("_calculate_transmission_dark_field_values", PH, u, v)
    if not d:
        return one(())
    if E.rt:
        return np.mean([one((q,)) for q in range(d[0])], axis=0)
    return tuple(MEAN(d[0], lambda q, s=s: one((q,))[s]) for s in (0, 1))


@contract("A30", PH, "_calculate_transmission_dark_field_values", {}, name="window_values")
def window_values(E):
    """Ratio of the means; ratio of the relative standard deviations; one where these are not defined."""
    h, w = E.size("h", 1, 30000, small=5), E.size("w", 1, 30000, small=5)
    z = E.bool("zero")
    A, B = E.array("ref", (h, w), lo=0, hi=3), E.array("sam", (h, w), lo=0, hi=3)
    if E.rt and z:
        A = A * 0
    t, k = E.call(A, B)
    ma, mb = MEAN((h, w), lambda i, j: at(A, i, j)), MEAN((h, w), lambda i, j: at(B, i, j))
    sa, sb = STD((h, w), lambda i, j: at(A, i, j)), STD((h, w), lambda i, j: at(B, i, j))
    if E.rt:
        E.require(sa > 1e-3 or not A.any())
        TOL[0] = 1e-3
    ok = land(ma != 0, mb != 0)
    E.ensure("transmission", eq(t * ma, mb) if E.rt and ok else eq(t, ite(ok, div(mb, ite(ok, ma, 1)), 1)))
    ok2 = land(ok, sa != 0)
    E.ensure("dark", eq(k, ite(ok2, div(ma, ite(ok2, mb, 1)) * div(sb, ite(ok2, sa, 1)), 1)))


@contract("A30", PH, "_get_transmission_dark_field_signal", dict(dim=[3]), rt_budget=2.0)
def inner(E, dim):
    d, win, g, rad, p, h, w, a, b, x, y = trans_inputs(E, dim, True)
    t, k = E.call(a, b, x, y, win, g)
    check(E, d, rad, p, h, w, a, b, x, y, t, k, False)


def check(E, d, rad, p, h, w, a, b, x, y, t, k, full):
    o = p if full else 0
    E.ensure("shape", land(eq(t.shape[0], h - 2 * p + 2 * o), eq(t.shape[1], w - 2 * p + 2 * o), eq(k.shape[0], h - 2 * p + 2 * o), eq(k.shape[1], w - 2 * p + 2 * o)))
    if E.rt:
        TOL[0] = 5e-3
        nan = all(bool((q == q).all()) for q in (t, k))
        E.ensure("finite", nan)
    E.forall("transmission", (h - 2 * p, w - 2 * p), lambda i, j: eq(at(t, i + o, j + o), signals(E, d, rad, i + p, j + p, a, b, x, y)[0]))
    E.forall("dark", (h - 2 * p, w - 2 * p), lambda i, j: eq(at(k, i + o, j + o), signals(E, d, rad, i + p, j + p, a, b, x, y)[1]))
    if full:
        E.forall("edge", (h, w), lambda i, j: land(eq(at(t, i, j), at(t, clip(i, p, h - p - 1), clip(j, p, w - p - 1))),
                                                   eq(at(k, i, j), at(k, clip(i, p, h - p - 1), clip(j, p, w - p - 1)))))


@contract("A30", PH, "get_transmission_dark_field_signal", dict(dim=[2, 3], ncore=[1, 3]), rt_budget=2.0, budget=400)
def full(E, dim, ncore):
    """The same signals for every number of cores."""
    d, win, g, rad, p, h, w, a, b, x, y = trans_inputs(E, dim, False)
    t, k = E.call(a, b, x, y, win, g, ncore=ncore)
    check(E, d, rad, p, h, w, a, b, x, y, t, k, True)


@contract("A30", PH, "get_transmission_dark_field_signal", dict(dim=[2, 3], ncore=[1, 2]), name="signals(margin from the shifts)", bounded=True,
          samples=12, rt_budget=3.0)
def full_free(E, dim, ncore):
    """Without a margin no window leaves the images; more rows than are needed for splitting over the cores."""
    d = (E.size("d", 1, 4),) if dim == 3 else ()
    rad, g = E.int("rad", 0, 3), E.real("range", 0, 3)
    m = int(np.ceil(g)) + rad
    h, w = E.size("h", 2 * m + 1, 2 * m + 60), E.size("w", 2 * m + 1, 2 * m + 8)
    a, b = E.array("ref", d + (h, w), lo=0.2, hi=3), E.array("sam", d + (h, w), lo=0.2, hi=3)
    x, y = E.array("x", (h, w), lo=-g, hi=g), E.array("y", (h, w), lo=-g, hi=g)
    t, k = E.call(a, b, x, y, 2 * rad + 1, ncore=ncore)
    p = rad + int(np.ceil(max(np.abs(x).max(), np.abs(y).max())))
    check(E, d, rad, p, h, w, a, b, x, y, t, k, True)


@contract("A30", PH, "retrieve_phase_based_speckle_tracking", dict(dim=[2, 3], sign=[1, -1]), name="signals of a shifted sample", bounded=True, samples=4, rt_budget=6.0)
def shifted(E, dim, sign):
    """A sample that only shifts and absorbs: its transmission everywhere, no dark-field signal."""
    g, s = 4, E.int("shift", 1, 3) * sign
    ax = E.int("axis", 1, 2)
    h, w = 48, 50
    a = E.array("ref", (3, h, w), gen=lambda rs, n: rs.uniform(0.5, 2, n))
    f = E.real("absorption", 0.3, 0.9)
    b = np.float32(f * np.roll(a, s, axis=ax))
    if dim == 2:
        a, b = a[0], b[0]
    q = E.call(a, b, dim=2, win_size=9, margin=g, gpu=False, ncore=1, norm=False, dark_signal=True, return_shift=True, pad=2, method="diff")
    e = 4 + g + 4
    n = (slice(e, h - e), slice(e, w - e))
    E.ensure("shift", float(np.max(np.abs(q[2 - ax][n] + s))) < 0.6 and float(np.max(np.abs(q[ax - 1][n]))) < 0.6)
    E.ensure("transmission", float(np.max(np.abs(q[3][n] - f))) < 1e-3)
    E.ensure("dark", float(np.max(np.abs(q[4][n] - 1))) < 1e-3)


@contract("A30", PH, "unwrap_phase_based_cosine_transform", dict(win=[False, True]), bounded=True, samples=40)
def unwrap(E, win):
    """Neighbours less than half a turn apart: the phase itself up to a constant."""
    h, w = E.size("h", 3, 40), E.size("w", 3, 40)
    ax, ay = E.real("ax", -1.5, 1.5), E.real("ay", -1.5, 1.5)
    n = E.array("rough", (h, w), "float64", lo=-0.7, hi=0.7)
    yy, xx = np.mgrid[0:h, 0:w]
    p = ax * xx + ay * yy + n
    m = np.angle(np.exp(1j * p))
    u = E.call(m, window=E.fn("_make_cosine_window", PH)(h, w) if win else None)
    d = u - p
    E.ensure("shape", u.shape == (h, w))
    E.ensure("phase", float(np.ptp(d)) < 1e-6 * (h * w))
    f = E.fn("unwrap_phase_iterative_fft", PH)
    v = f(m, iteration=4)
    E.ensure("same shape", v.shape == (h, w))
