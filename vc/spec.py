"""Specification vocabulary shared by the symbolic prover and the run-time contract checker.

Under python3-vt (z3 present, VC_MODE unset) the names build terms; with VC_MODE=rt they compute numbers.
"""
import itertools
import os

RT = os.environ.get("VC_MODE") == "rt"
CONTRACTS = []


class Contract(object):
    def __init__(self, prop, module, func, harness, cases, **opts):
        self.prop, self.module, self.func, self.harness = prop, module, func, harness
        self.cases = cases
        self.name = opts.pop("name", None) or "%s.%s" % (module.split(".")[-1], func)
        self.frame = opts.pop("frame", True)        # take part in the frame property A01
        self.bounded = opts.pop("bounded", False)   # run-time checking only (never counted as proved)
        self.samples = opts.pop("samples", None)
        self.rt_budget = opts.pop("rt_budget", 8.0 if self.bounded else 2.0)
        self.budget = opts.pop("budget", 150)
        self.max_paths = opts.pop("max_paths", 400)
        self.also = opts.pop("also", ())
        self.doc = opts.pop("doc", harness.__doc__ or "")
        self.rt_only_cases = opts.pop("rt_only_cases", None)
        self.thorough_only = opts.pop("thorough_only", False)
        self.ms = opts.pop("ms", None)
        assert not opts, opts

    def key(self, case):
        return self.name + "[" + ",".join("%s=%s" % kv for kv in sorted(case.items())) + "]"


def contract(prop, module, func, cases=None, where=None, **opts):
    """Register a contract of module.func for property `prop`; `cases` splits the option space completely."""
    cases = cases or {}
    if isinstance(cases, dict):
        ks = list(cases)
        lst = [dict(zip(ks, v)) for v in itertools.product(*[cases[k] for k in ks])]
    else:
        lst = list(cases)
    if where is not None:
        lst = [c for c in lst if where(**c)]

    def deco(h):
        CONTRACTS.append(Contract(prop, module, func, h, lst, **opts))
        return h
    return deco


class Done(Exception):
    """The harness has nothing more to check on this path."""


from fractions import Fraction  # noqa

if not RT:
    from fractions import Fraction
    from . import terms as T
    from .terms import ite, s_and as land, s_or as lor, s_not as lnot, s_floor as floor, s_ceil as ceil, s_round as rnd
    from .terms import s_trunc as trunc, s_min as imin, s_max as imax, s_abs as absv
    from .terms import s_eq as eq, s_le as le, s_lt as lt
    from . import arrays as _A
    from . import npmodel as _N

    def implies(a, b):
        return lor(lnot(a), b)

    def fcos(x): return T.fn_app("cos", x)
    def fsin(x): return T.fn_app("sin", x)
    def ftan(x): return T.fn_app("tan", x)
    def fsqrt(x): return T.fn_app("sqrt", x)
    def fexp(x): return T.fn_app("exp", x)
    def flog(x): return T.fn_app("log", x)
    def fpow(x, y): return T.s_pow(x, y)
    def fatan2(y, x): return T.fn_app("arctan2", y, x)

    def fpi():
        return _N.PI() if callable(getattr(_N, "PI", None)) else _N.PI

    def div(a, b):
        return T.s_truediv(a, b)

    def idiv(a, b):
        return T.s_floordiv(a, b)

    def mod(a, b):
        return T.s_mod(a, b)

    def at(a, *idx):
        if isinstance(a, _A.Arr):
            return a.at(*idx)
        if not idx:
            return a
        if hasattr(a, "elem"):
            v = a.elem(idx[0])
        else:
            v = a[idx[0]]
        return at(v, *idx[1:]) if len(idx) > 1 else v

    def view(a, *idx):
        """a[idx], for specifications"""
        return _A.getitem(a, idx if len(idx) > 1 else idx[0])

    def length(a):
        if isinstance(a, _A.Arr):
            return a.shape[0]
        if hasattr(a, "n") and hasattr(a, "elem"):
            return a.n
        return len(a)

    def shape(a):
        return tuple(a.shape)

    def _red(kind, n, f, m=None, dtype="float64"):
        """Reduction over k in range(n) (or a pair of ranges): f is a spec-level function of the index."""
        ns = n if isinstance(n, tuple) else (n,)
        arr = _A.mkarr(ns, f, dtype)
        fn = getattr(_N, "np_" + kind, None) or _N.NP[kind]
        v = fn(arr)
        return v.at() if isinstance(v, _A.Arr) else v

    def SUM(n, f): return _red("sum", n, f)
    def MINR(n, f): return _red("min", n, f)
    def MAXR(n, f): return _red("max", n, f)
    def SUMI(n, f): return _red("sum", n, f, dtype="int64")
    def MINI(n, f): return _red("min", n, f, dtype="int64")
    def MAXI(n, f): return _red("max", n, f, dtype="int64")

    def MEAN(n, f): return _red("mean", n, f)
    def MEDIAN(n, f): return _red("median", n, f)
    def VAR(n, f): return _red("var", n, f)
    def STD(n, f): return _red("std", n, f)

    def PERCENTILE(n, f, q):
        ns = n if isinstance(n, tuple) else (n,)
        v = _N.np_percentile(_A.mkarr(ns, f, "float64"), q)
        return v.at() if isinstance(v, _A.Arr) else v

    def real(x):
        return T.toreal_s(x) if T.kind(x) != "f" else x
else:
    import math as _m
    TOL = [1e-5]

    def _py(x):
        return x.item() if hasattr(x, "item") and getattr(x, "ndim", 0) == 0 else x

    def ite(c, a, b): return a if c else b
    def land(*xs): return all(bool(x) for x in xs)
    def lor(*xs): return any(bool(x) for x in xs)
    def lnot(a): return not a
    def implies(a, b): return (not a) or bool(b)
    def floor(a): return int(_m.floor(a))
    def ceil(a): return int(_m.ceil(a))
    def rnd(a): return int(round(a))
    def trunc(a): return int(a)
    def imin(a, b): return min(a, b)
    def imax(a, b): return max(a, b)
    def absv(a): return abs(a)
    def fcos(x): return _m.cos(x)
    def fsin(x): return _m.sin(x)
    def ftan(x): return _m.tan(x)
    def fsqrt(x): return _m.sqrt(max(x, 0.0))
    def fexp(x): return _m.exp(min(x, 700.0))
    def flog(x): return _m.log(x) if x > 0 else 0.0
    def fpow(x, y): return float(x) ** y
    def fatan2(y, x): return _m.atan2(y, x)
    def fpi(): return _m.pi
    def div(a, b): return 0.0 if b == 0 else a / b
    def idiv(a, b): return a // b
    def mod(a, b): return a % b
    def real(x): return float(x)

    def at(a, *idx):
        for i, k in enumerate(idx):
            if hasattr(a, "shape") and hasattr(a, "dtype"):
                rest = idx[i:]
                if any(not (0 <= q < n) for q, n in zip(rest, a.shape)):
                    return 0.0
                v = a[tuple(int(q) for q in rest)]
                return _py(v)
            if not (0 <= k < len(a)):
                return 0.0
            a = a[int(k)]
        return _py(a)

    def view(a, *idx):
        return a[idx if len(idx) > 1 else idx[0]]

    def length(a): return len(a)
    def shape(a): return tuple(a.shape)

    def _isreal(x):
        return isinstance(x, float)

    def eq(a, b):
        a, b = _py(a), _py(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if _isreal(a) or _isreal(b):
            if a != a or b != b:
                return False
            return a == b or abs(a - b) <= TOL[0] * max(1.0, abs(a), abs(b))
        return a == b

    def le(a, b):
        a, b = _py(a), _py(b)
        if _isreal(a) or _isreal(b):
            return a <= b + TOL[0] * max(1.0, abs(a), abs(b))
        return a <= b

    def lt(a, b):
        a, b = _py(a), _py(b)
        if _isreal(a) or _isreal(b):
            return a < b + TOL[0] * max(1.0, abs(a), abs(b))
        return a < b

    def _vals(n, f):
        ns = n if isinstance(n, tuple) else (n,)
        return [f(*i) for i in itertools.product(*[range(int(k)) for k in ns])]

    def SUM(n, f): return sum(_vals(n, f))
    def MINR(n, f): return min(_vals(n, f))
    def MAXR(n, f): return max(_vals(n, f))
    MINI, MAXI = MINR, MAXR
    def MEAN(n, f):
        v = _vals(n, f)
        return sum(v) / len(v)

    def MEDIAN(n, f):
        import statistics
        return statistics.median(_vals(n, f))

    def VAR(n, f):
        v = _vals(n, f)
        m = sum(v) / len(v)
        return sum((x - m) ** 2 for x in v) / len(v)

    def SUMI(n, f):
        return SUM(n, f)

    def STD(n, f):
        return VAR(n, f) ** 0.5

    def PERCENTILE(n, f, q):
        import numpy
        return float(numpy.percentile(numpy.array(_vals(n, f), dtype="float64"), q))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def between(lo, x, hi):
    return land(le(lo, x), le(x, hi))


def clip(x, lo, hi):
    return imin(imax(x, lo), hi)


def iff(a, b):
    return land(implies(a, b), implies(b, a))


def bilinear(f, y, x, h, w):
    """Linear interpolation of f(row, column) at (y, x) inside [0, h-1] x [0, w-1]."""
    y0, x0 = floor(y), floor(x)
    fy, fx = y - y0, x - x0
    y1, x1 = ceil(y), ceil(x)
    return (1 - fy) * (1 - fx) * f(y0, x0) + (1 - fy) * fx * f(y0, x1) + fy * (1 - fx) * f(y1, x0) + fy * fx * f(y1, x1)
