"""A02 flat-field correction; A27 beam hardening."""
from vc.spec import *
import numpy as np

COR = "algotom.prep.correction"


@contract("A02", COR, "flat_field_correction", dict(nd=[2, 3], fd=["arrays", "scalar_dark"], use_dark=[True, False]))
def flat_field(E, nd, fd, use_dark):
    h, w = E.size("h", 1, 30000), E.size("w", 1, 30000)
    if nd == 3:
        d = E.size("d", 1, 30000, small=3)
        p = E.array("proj", (d, h, w))
    else:
        p = E.array("proj", (h, w))
    flat = E.array("flat", (h, w), gen=lambda rs, s: rs.choice([0.0, 1.0, 2.0, 3.5, -1.0], size=s))
    dark = E.array("dark", (h, w), gen=lambda rs, s: rs.choice([0.0, 1.0, 2.0], size=s)) if fd == "arrays" else E.real("dark", -2, 2)
    ratio = E.real("ratio", 0.5, 2, vals=[1.0, 1.0, 0.5])
    r = E.call(p, flat, dark, ratio=ratio, use_dark=use_dark)
    E.ensure("ndim", r.ndim == nd)
    E.ensure("shape", land(*[eq(a, b) for a, b in zip(r.shape, p.shape)]))

    def dk(i, j):
        return at(dark, i, j) if fd == "arrays" else dark

    def den(i, j):
        return ratio * at(flat, i, j) - dk(i, j) if use_dark else ratio * at(flat, i, j)
    mean = MEAN((h, w), den)

    def fixed(i, j):
        x = den(i, j)
        return ite(eq(x, 0) if not E.rt else abs(x) < 1e-12, ite(eq(mean, 0) if not E.rt else abs(mean) < 1e-12, 1, mean), x)
    if E.rt and abs(mean) < 1e-4:
        return          # float round-off decides whether the mean is exactly zero

    def num(*ix):
        return at(p, *ix) - dk(ix[-2], ix[-1]) if use_dark else at(p, *ix)
    E.forall("value", r.shape, lambda *ix: eq(at(r, *ix), div(num(*ix), fixed(ix[-2], ix[-1]))))
    E.forall("no_zero_divisor", (h, w), lambda i, j: lnot(fixed(i, j) == 0))


REM, FIL, PHA = "algotom.prep.removal", "algotom.prep.filtering", "algotom.prep.phase"
if not RT:
    from vc.sym_env import pure_callee
    for _m, _f, _a in ((REM, "remove_zinger", "mat"), (FIL, "fresnel_filter", "mat"), (PHA, "get_quality_map", "mat"), (REM, "remove_stripe_based_sorting", "sinogram")):
        pure_callee(_m, _f, lambda k, _a=_a: k[_a].shape, lambda k, _a=_a: "float32" if _a == "sinogram" else k[_a].dtype)

FILTERS = {"zinger": (REM, "remove_zinger", (0.1, 1)), "fresnel": (FIL, "fresnel_filter", (10.0,)), "quality": (PHA, "get_quality_map", (3,)),
           "sorting": (REM, "remove_stripe_based_sorting", (5,))}


@contract("A02", COR, "flat_field_correction", dict(nd=[2, 3], opts=[["zinger"], ["fresnel"], ["quality"], ["zinger", "sorting"], ["sorting", "none", "zinger"]],
                                                    use_dark=[True, False]), name="flat_field_correction(options)", samples=5)
def flat_field_options(E, nd, opts, use_dark):
    """Filters given as options are applied in turn to the corrected image; in a chunk to every sinogram by itself."""
    h, w = E.size("h", 6, 30000), E.size("w", 6, 30000)
    shape = (E.size("d", 6, 30000, small=8), h, w) if nd == 3 else (h, w)
    p = E.array("proj", shape, gen=lambda rs, s: rs.uniform(1, 3, s))
    flat = E.array("flat", (h, w), lo=2, hi=4, elem=lambda v, i, j: v >= 2, gen=lambda rs, s: rs.uniform(2, 4, s))
    dark = E.array("dark", (h, w), lo=0, hi=1, elem=lambda v, i, j: land(v >= 0, v <= 1), gen=lambda rs, s: rs.uniform(0, 1, s))
    given = {}
    for k, o in enumerate(opts):
        given["option%d" % k] = None if o == "none" else dict([("method", FILTERS[o][1])] + [("para%d" % i, v) for i, v in enumerate(FILTERS[o][2])])
    c = E.call(p, flat, dark, use_dark=use_dark)
    r = E.call(p, flat, dark, use_dark=use_dark, **given)
    E.ensure("shape", land(r.ndim == nd, *[eq(a, b) for a, b in zip(r.shape, shape)]))
    todo = [FILTERS[o] for o in opts if o != "none"]

    def filtered(x):
        for m, f, a in todo:
            x = E.apply(f, m, x, *a)
        return x
    if nd == 2:
        g = filtered(c)
        E.forall("filtered", shape, lambda i, j: eq(at(r, i, j), at(g, i, j)))
    elif E.rt:
        E.forall("filtered", (h,), lambda i: bool(np.allclose(r[:, i, :], filtered(c[:, i, :]), rtol=1e-4, atol=1e-5)))
    else:
        k = E.skolem("row", 0, h - 1)
        g = filtered(view(c, slice(None), k, slice(None)))
        E.forall("filtered", (shape[0], w), lambda i, j: eq(at(r, i, k, j), at(g, i, j)))


@contract("A27", COR, "beam_hardening_correction", dict(opt=[True, False], nd=[1, 2, 3]))
def beam_hardening(E, opt, nd):
    sh = tuple(E.size(k, 1, 30000) for k in "dhw"[3 - nd:])
    m = E.array("mat", sh, "float64", lo=0, hi=3, gen=lambda rs, s: rs.choice([1, 1, 1, 2.5]) * rs.rand(*s))
    q = E.real("q", 0.001, 10)
    n = E.real("n", 0, 10)
    mx = MAXR(sh, lambda *ix: at(m, *ix))
    r = E.call(m, q, n, opt=opt, _raises={"ValueError": lor(mx >= 2.0, n < 2.0)})
    E.ensure("shape", land(eq(length(r.shape), nd), *[eq(a, b) for a, b in zip(r.shape, sh)]))
    E.forall("pixelwise", sh, lambda *ix: implies(at(m, *ix) <= 1, eq(at(r, *ix), curve(imin(at(m, *ix), 1), q, n, opt))))


def curve(v, q, n, opt):
    x = 1 - v if opt else v
    den = flog(1 - q * (1 - n))
    y = div(flog(1 - q * (fpow(x, n) - n * x)), den)
    return 1 - y if opt else y


@contract("A27", COR, "non_linear_function", dict(opt=[True, False]))
def non_linear_function(E, opt):
    q, n = E.real("q", 0.001, 100), E.real("n", 2, 10)
    x, y = E.real("x", 0, 1), E.real("y", 0, 1)
    E.require(x <= y)
    one = lambda v: E.call(v, q, n, opt)
    b, w, fx, fy = one(0.0), one(1.0), one(x), one(y)
    E.ensure("black", eq(b, 0))
    E.ensure("white", eq(w, 1))
    tol = 1e-9 if E.rt else 0
    for u, v in ((x, y), (1 - y, 1 - x)):
        E.lemma("0 <= v^n - u^n <= n (v - u) for 0 <= u <= v <= 1 and n >= 1",
                between(0, fpow(v, n) - fpow(u, n), n * (v - u)))
        for t in (u, v):
            E.lemma("0 <= t^n <= 1 for 0 <= t <= 1", between(0, fpow(t, n), 1))
            E.lemma("t^n >= n t - (n - 1)", fpow(t, n) >= n * t - (n - 1))
            E.lemma("t^n <= t for 0 <= t <= 1 and n >= 1", fpow(t, n) <= t)
    E.ensure("order", fx <= fy + tol)
    E.ensure("range", land(fx >= -tol, fx <= 1 + tol))
