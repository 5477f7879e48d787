"""Symbolic model of the NumPy operations used by the code under verification."""
from fractions import Fraction
import z3
from . import terms as T
from . import arrays as A
from . import binders
from .terms import Sym, PyExc, Unsupported, ite, s_and, s_or, s_not, mk, toz
from .arrays import Arr, Buf, mkarr, const_arr, cast, rtype, kind_of_dtype, same, Compress, ctx, wrap_int


# ------------------------------------------------------------------------------------------- basics
def dim_eq(a, b):
    if same(a, b):
        return True
    r = T.s_eq(a, b)
    return bool(r)


def broadcast_shapes(*shapes):
    nd = max([len(s) for s in shapes] or [0])
    out = []
    for ax in range(nd):
        cur = 1
        for s in shapes:
            k = ax - (nd - len(s))
            if k < 0:
                continue
            d = s[k]
            if same(cur, d):
                continue
            if not isinstance(d, Sym) and d == 1:
                continue
            if not isinstance(cur, Sym) and cur == 1:
                cur = d
                continue
            if dim_eq(cur, d):
                if not isinstance(d, Sym):
                    cur = d
                continue
            if isinstance(d, Sym) and dim_eq(d, 1):
                continue
            if isinstance(cur, Sym) and dim_eq(cur, 1):
                cur = d
                continue
            raise PyExc("ValueError", "operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bplan(shape, out):
    """For each axis of shape: True if the index is kept, False if it is a broadcast axis."""
    off = len(out) - len(shape)
    plan = []
    for k, d in enumerate(shape):
        o = out[off + k]
        if same(d, o):
            plan.append(True)
        elif not isinstance(d, Sym):
            if d != 1:
                plan.append(True)
            elif not isinstance(o, Sym):
                plan.append(o == 1)
            else:
                plan.append(False)
        else:
            if ctx().known(toz(T.s_eq(d, o))):
                plan.append(True)
            elif ctx().known(toz(T.s_eq(d, 1))):
                plan.append(False)
            else:
                plan.append(True)
    return off, plan


def papply(off, plan, idx):
    return tuple(idx[off + k] if keep else 0 for k, keep in enumerate(plan))


def bidx(idx, shape):
    off = len(idx) - len(shape)
    return tuple(0 if (not isinstance(d, Sym) and d == 1) or (isinstance(d, Sym) and is_one(d)) else idx[off + k]
                 for k, d in enumerate(shape))


def is_one(d):
    c = ctx()
    e = toz(T.s_eq(d, 1))
    return c is not None and c._static(e) is True


def bidx_store(vi, shape):
    shape = tuple(shape)
    n = len(vi)
    lead = 0
    if len(shape) > n:
        lead = len(shape) - n
    core = bidx(vi, shape[lead:])
    return (0,) * lead + core


def require_same_shape(a, b):
    if len(a) != len(b):
        raise PyExc("IndexError", "boolean index did not match")
    for x, y in zip(a, b):
        if not dim_eq(x, y):
            raise PyExc("IndexError", "boolean index did not match")


def merge_value(c, a, b):
    if a is b:
        return a
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            raise Unsupported("merge of arrays of different rank")
        shp = []
        for x, y in zip(a.shape, b.shape):
            shp.append(x if same(x, y) else ite(c, x, y))
        fa, fb = a.snap(), b.snap()
        return mkarr(tuple(shp), lambda *i: A.ite_val(c, fa(*i), fb(*i)), rtype(a.dtype, b.dtype))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(A.ite_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [A.ite_val(c, x, y) for x, y in zip(a, b)]
    if type(a) == type(b) and a == b:
        return a
    raise Unsupported("merge of %r and %r" % (type(a), type(b)))


def np_div(a, b):
    if not isinstance(b, Sym) and b == 0:
        return mk(T.toreal(T.toint_sort(toz(a))) / z3.RealVal(0))
    return T.s_truediv(a, b)


def np_floordiv(a, b):
    if not isinstance(b, Sym) and b == 0:
        return 0
    return T.s_floordiv(a, b)


def np_mod(a, b):
    if not isinstance(b, Sym) and b == 0:
        return 0
    return T.s_mod(a, b)


def b_and(a, b):
    if T.kind(a) == "b" and T.kind(b) == "b":
        return s_and(a, b)
    raise Unsupported("bitwise and")


def b_or(a, b):
    if T.kind(a) == "b" and T.kind(b) == "b":
        return s_or(a, b)
    raise Unsupported("bitwise or")


def b_mul(a, b):
    if T.kind(a) == "b" and T.kind(b) == "b":
        return s_and(a, b)
    return T.s_mul(a, b)


def b_add(a, b):
    if T.kind(a) == "b" and T.kind(b) == "b":
        return s_or(a, b)
    return T.s_add(a, b)


OPF = {"add": b_add, "sub": T.s_sub, "mul": b_mul, "truediv": np_div, "floordiv": np_floordiv,
       "mod": np_mod, "pow": T.s_pow, "lt": T.s_lt, "le": T.s_le, "gt": T.s_gt, "ge": T.s_ge, "eq": T.s_eq,
       "ne": lambda a, b: s_not(T.s_eq(a, b)), "and": b_and, "or": b_or, "min": T.s_min, "max": T.s_max}
CMP = ("lt", "le", "gt", "ge", "eq", "ne")


def scal_dtype(v):
    return None       # weak


def result_dtype(op, a, b):
    if op in CMP:
        return "bool"
    da = a.dtype if isinstance(a, Arr) else None
    db = b.dtype if isinstance(b, Arr) else None
    for d in (da, db):
        if d == "object":
            return "object"
    ks = []
    if da is not None and db is not None:
        d = rtype(da, db)
    else:
        d = da if da is not None else db
        s = b if da is not None else a
        sk = T.kind(s)
        dk = kind_of_dtype(d)
        order = "biufc"
        if sk == "f" and dk in "biu":
            d = "float64"
        elif sk == "i" and dk == "b":
            d = "int64"
        elif sk == "c":
            d = "complex128"
    if op == "truediv" and kind_of_dtype(d) in "biu":
        return "float64"
    if op in ("sub", "floordiv", "mod", "pow") and d == "bool":
        return "int8"
    return d


def flat_meta(*ops):
    """Common N-d origin of flattened operands, if any."""
    nd = None
    for o in ops:
        if isinstance(o, Arr):
            m = o.meta and o.meta.get("nd")
            if not m:
                return None
            if nd is None:
                nd = m[0]
            elif len(nd) != len(m[0]) or not all(same(x, y) for x, y in zip(nd, m[0])):
                return None
    return nd


def elementwise2(op, a, b, dtype=None):
    f = OPF[op] if isinstance(op, str) else op
    if not isinstance(a, Arr) and not T.is_num(a):
        a = asarray(a)
    if not isinstance(b, Arr) and not T.is_num(b):
        b = asarray(b)
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return f(a, b)
    d = dtype or result_dtype(op, a, b)
    sh = broadcast_shapes(*[x.shape for x in (a, b) if isinstance(x, Arr)])

    def part(x):
        if not isinstance(x, Arr):
            return None, x
        return x.snap(), bplan(x.shape, sh)
    fa, pa = part(a)
    fb, pb = part(b)
    kd = kind_of_dtype(d)

    def fn(*idx):
        va = pa if fa is None else fa(*papply(pa[0], pa[1], idx))
        vb = pb if fb is None else fb(*papply(pb[0], pb[1], idx))
        r = f(va, vb)
        return cast(r, d) if kd != "b" else r
    r = mkarr(sh, fn, d)
    nd = flat_meta(*[x for x in (a, b) if isinstance(x, Arr)])
    if nd is not None:
        ga = a.meta["nd"][1] if isinstance(a, Arr) else None
        gb = b.meta["nd"][1] if isinstance(b, Arr) else None
        r.meta = {"nd": (nd, A.Fn(lambda *i: cast(f(a if ga is None else ga(*i), b if gb is None else gb(*i)), d)))}
    # affine index arrays stay affine
    if op in ("add", "sub", "mul") and kd in "iu" and r.ndim == 1:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Arr) and not isinstance(y, Arr) and x.meta and x.meta.get("affine") and T.kind(y) == "i":
                st, k = x.meta["affine"]
                if op == "add":
                    r.meta = {"affine": (T.s_add(st, y), k)}
                elif op == "sub" and x is a:
                    r.meta = {"affine": (T.s_sub(st, y), k)}
                elif op == "mul":
                    r.meta = {"affine": (T.s_mul(st, y), T.s_mul(k, y))}
                if r.meta:
                    affine_range(r)
    return r


def affine_range(r):
    st, k = r.meta["affine"]
    n = r.shape[0]
    if not isinstance(k, Sym) and k > 0:
        r.meta["range"] = (st, T.s_add(T.s_add(st, T.s_mul(k, T.s_sub(n, 1))), 1))


def elementwise1(f, a, dtype=None):
    if isinstance(f, str):
        nm = f
        f = lambda v: T.fn_app(nm, v)     # noqa
        dtype = dtype or (a.dtype if kind_of_dtype(a.dtype) in "fc" else "float64")
    src = a.snap()
    d = dtype or a.dtype
    r = mkarr(a.shape, lambda *i: cast(f(src(*i)), d), d)
    if a.meta and a.meta.get("nd"):
        nd, g = a.meta["nd"]
        r.meta = {"nd": (nd, A.Fn(lambda *i: cast(f(g(*i)), d)))}
    return r


def inplace(op, a, v):
    """a op= v for an array a (writes through the view)."""
    res = elementwise2(op, a, v)
    if kind_of_dtype(res.dtype) == "f" and kind_of_dtype(a.dtype) in "iu" or \
            kind_of_dtype(res.dtype) == "c" and kind_of_dtype(a.dtype) != "c":
        raise PyExc("TypeError", "Cannot cast ufunc output")
    if len(res.shape) != a.ndim:
        raise PyExc("ValueError", "non-broadcastable output operand")
    f = res.snap()
    A.check_store_shape(res.shape, a.shape)
    A.write(a, None, lambda *vi: f(*vi))


def asarray(x, dtype=None):
    from .interp import SymList
    if isinstance(x, Arr):
        if dtype is None or dtype == x.dtype:
            return x
        return astype(x, dtype)
    if hasattr(x, "sym_array"):
        r = x.sym_array()
        return r if dtype is None else astype(r, dtype)
    if isinstance(x, Compress):
        return x
    if T.is_num(x) or isinstance(x, (bool, complex)):
        return const_arr((), x, dtype or A.dtype_of_scalar(x))
    if isinstance(x, SymList):
        n, elem = x.n, x.elem
        k = ctx().skolem("e")

        def probe():
            ctx().assume(s_and(k >= 0, k < n))
            v = elem(k)
            if isinstance(v, (tuple, list, SymList)):
                v = asarray(v)
            if isinstance(v, Arr):
                return ("arr", v.ndim, v.shape, v.dtype)
            return ("num", A.dtype_of_scalar(v))
        rs = ctx().explore_nested(probe)
        if not rs:
            return mkarr((n,), lambda i: Fraction(0), dtype or "float64")
        p = rs[0][1]
        if p[0] == "num":
            d = dtype or p[1]
            r = mkarr((n,), lambda i: cast(elem(i), d), d)
            if x.grid:
                n1, n2, el2 = x.grid
                r.meta = {"grid": (n1, n2, lambda i, j: cast(el2(i, j), d))}
            return r
        shp = p[2]
        if any(isinstance(s, Sym) and A_mentions(s, k) for s in shp):
            raise Unsupported("ragged symbolic list to array")
        d = dtype or p[3]

        def fn(i, *rest):
            v = elem(i)
            if isinstance(v, (tuple, list, SymList)):
                v = asarray(v)
            return cast(v.at(*rest), d)
        r = mkarr((n,) + tuple(shp), fn, d)
        if x.grid:
            n1, n2, el2 = x.grid

            def fn2(i, j, *rest):
                v = el2(i, j)
                if isinstance(v, (tuple, list)):
                    v = asarray(v)
                return cast(v.at(*rest), d)
            r.meta = {"grid": (n1, n2, fn2)}
        return r
    if isinstance(x, (list, tuple)):
        items = [asarray(v) if isinstance(v, (list, tuple, SymList)) else v for v in x]
        if not items:
            return mkarr((0,), lambda i: Fraction(0), dtype or "float64")
        if any(isinstance(v, str) or v is None for v in items):
            return mkarr((len(items),), lambda i: items[i], "object")
        if isinstance(items[0], Arr):
            arrs = [asarray(v) for v in items]
            nd = arrs[0].ndim
            for v in arrs[1:]:
                if v.ndim != nd:
                    raise PyExc("ValueError", "inhomogeneous shape")
                for p, q in zip(arrs[0].shape, v.shape):
                    if not dim_eq(p, q):
                        raise PyExc("ValueError", "inhomogeneous shape")
            d = dtype or rtype(*[v.dtype for v in arrs])
            snaps = [v.snap() for v in arrs]
            return mkarr((len(items),) + arrs[0].shape,
                         lambda i, *r: cast(pick([s(*r) for s in snaps] if isinstance(i, Sym) else None, i,
                                                 (lambda: snaps[i](*r))), d), d)
        vals = [v.at() if isinstance(v, Arr) else v for v in items]
        d = dtype or rtype(*[A.dtype_of_scalar(v) for v in vals])
        vals = [cast(v, d) for v in vals]
        return mkarr((len(vals),), lambda i: pick(vals, i, lambda: vals[i]), d)
    raise Unsupported("asarray of %r" % type(x))


def A_mentions(s, k):
    return binders._mentions(s.e, [k.e])


def pick(vals, i, conc):
    if not isinstance(i, Sym):
        return conc()
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = A.ite_val(T.s_eq(i, k), vals[k], r)
    return r


def astype(a, dtype):
    dtype = norm_dtype(dtype)
    src = a.snap()
    r = mkarr(a.shape, lambda *i: cast(src(*i), dtype), dtype)
    if a.meta:
        r.meta = {}
        if a.meta.get("nd"):
            nd, g = a.meta["nd"]
            r.meta["nd"] = (nd, A.Fn(lambda *i: cast(g(*i), dtype)))
        if kind_of_dtype(dtype) in "iu" and a.meta.get("affine"):
            for k in ("affine", "range"):
                if k in a.meta:
                    r.meta[k] = a.meta[k]
        if kind_of_dtype(dtype) in "iuf" and a.meta.get("where"):
            r.meta["where"] = a.meta["where"]
    return r


class DType(object):
    def __init__(self, name):
        self.name = name

    def __call__(self, x=0, *a, **k):
        if isinstance(x, Arr):
            if x.ndim == 0:
                return cast(x.at(), self.name)
            return astype(x, self.name)
        if isinstance(x, Compress):
            d = self.name
            f = x.f
            return Compress(lambda *i: cast(f(*i), d), x.mask, x.shape_full, d)
        if isinstance(x, (list, tuple)) or hasattr(x, "elem") or hasattr(x, "sym_array"):
            return astype(asarray(x), self.name)
        if x is None:
            raise PyExc("TypeError", "NoneType to number")
        if isinstance(x, str):
            raise Unsupported("number of a string")
        return cast(x, self.name)

    def sym_eq(self, o):
        try:
            return norm_dtype(o) == self.name
        except Unsupported:
            return False

    def sym_attr(self, n):
        if n == "name":
            return self.name
        if n == "kind":
            return kind_of_dtype(self.name)
        raise Unsupported("dtype." + n)

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


def norm_dtype(d):
    if isinstance(d, DType):
        return d.name
    if isinstance(d, str):
        return {"float": "float64", "int": "int64"}.get(d, d)
    from . import libs
    if d is libs.py_float:
        return "float64"
    if d is libs.py_int:
        return "int64"
    if d is libs.py_bool:
        return "bool"
    if d is None:
        return None
    raise Unsupported("dtype %r" % (d,))


# ------------------------------------------------------------------------------------------- attributes
def shape_total(shape):
    n = 1
    for s in shape:
        n = T.s_mul(n, s)
    return n


def arr_attr(a, name):
    if name == "shape":
        return a.shape
    if name == "ndim":
        return a.ndim
    if name == "size":
        return shape_total(a.shape)
    if name == "dtype":
        return DType(a.dtype)
    if name == "T":
        return A.transpose(a, tuple(range(a.ndim))[::-1])
    if name == "real":
        return np_real(a)
    if name == "imag":
        return np_imag(a)
    m = {"copy": lambda *x, **k: a.frozen(), "astype": lambda d, **k: astype(a, d),
         "flatten": lambda *x: flatten(a), "ravel": lambda *x: flatten(a),
         "reshape": lambda *s, **k: reshape(a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s),
         "mean": lambda *x, **k: np_mean(a, *x, **k), "sum": lambda *x, **k: np_sum(a, *x, **k),
         "min": lambda *x, **k: np_min(a, *x, **k), "max": lambda *x, **k: np_max(a, *x, **k),
         "std": lambda *x, **k: np_std(a, *x, **k),
         "argsort": lambda *x, **k: np_argsort(a, *x, **k),
         "argmax": lambda *x, **k: np_argmax(a, *x, **k), "argmin": lambda *x, **k: np_argmin(a, *x, **k),
         "any": lambda *x, **k: np_any(a, *x, **k), "all": lambda *x, **k: np_all(a, *x, **k),
         "transpose": lambda *x: A.transpose(a, x if x else tuple(range(a.ndim))[::-1]),
         "item": lambda *x: a.at(*[0] * a.ndim), "fill": lambda v: A.write(a, None, lambda *vi: v),
         "tolist": lambda: tolist(a), "clip": lambda lo, hi: np_clip(a, lo, hi),
         "squeeze": lambda *x, **k: np_squeeze(a, *x, **k),
         "__len__": lambda: a.shape[0]}.get(name)
    if m is None:
        raise Unsupported("array attribute " + name)
    return m


def tolist(a):
    if any(isinstance(s, Sym) for s in a.shape):
        from .interp import SymList
        return SymList(a.shape[0], lambda t: a.at(t))
    if a.ndim == 1:
        return [a.at(i) for i in range(a.shape[0])]
    raise Unsupported("tolist")


def flatten(a):
    if a.ndim == 1:
        return a.frozen()
    shp = a.shape
    src = A.Fn(a.snap())
    n = shape_total(shp)

    def fn(i):
        idx = []
        rem = i
        for s in reversed(shp[1:]):
            idx.append(T.s_mod(rem, s))
            rem = T.s_floordiv(rem, s)
        idx.append(rem)
        return src(*reversed(idx))
    r = mkarr((n,), fn, a.dtype)
    r.meta = {"nd": (shp, src)}
    return r


def reshape(a, newshape, order="C"):
    if T.is_num(newshape):
        newshape = (newshape,)
    newshape = [s.at() if isinstance(s, Arr) else s for s in newshape]
    tot = shape_total(a.shape)
    if any((not isinstance(s, Sym)) and s == -1 for s in newshape):
        k = [i for i, s in enumerate(newshape) if not isinstance(s, Sym) and s == -1][0]
        rest = shape_total([s for i, s in enumerate(newshape) if i != k])
        if not isinstance(rest, Sym) and rest == 1:
            newshape[k] = tot
        else:
            newshape[k] = T.s_floordiv(tot, rest)
    newshape = tuple(newshape)
    # identical shape
    if len(newshape) == a.ndim and all(same(x, y) for x, y in zip(newshape, a.shape)):
        return Arr(a.buf, a.shape, a.sel)
    nd = a.meta and a.meta.get("nd")
    core = [s for s in newshape if not (not isinstance(s, Sym) and s == 1)]
    if nd is not None:
        shp, g = nd
        if len(core) == len(shp) and len(core) == len(newshape) and all(
                same(x, y) or ctx().known(toz(T.s_eq(x, y))) for x, y in zip(core, shp)):
            return mkarr(newshape, lambda *i: g(*i), a.dtype)
    gr = a.meta and a.meta.get("grid")
    if gr and len(newshape) == a.ndim + 1 and all(same(x, y) or ctx().known(toz(T.s_eq(x, y))) for x, y in zip(
            newshape, (gr[0], gr[1]) + tuple(a.shape[1:]))):
        g = gr[2]
        return mkarr(newshape, lambda *i: g(*i), a.dtype)
    # adding / removing axes of length one
    acore = [k for k, s in enumerate(a.shape) if not (not isinstance(s, Sym) and s == 1)]
    if len(acore) == len(core) and all(same(a.shape[k], s) or ctx().known(toz(T.s_eq(a.shape[k], s)))
                                       for k, s in zip(acore, core)):
        src = a.snap()
        pos = [k for k, s in enumerate(newshape) if not (not isinstance(s, Sym) and s == 1)]
        ndim = a.ndim

        def fn(*i):
            full = [0] * ndim
            for k, p in zip(acore, pos):
                full[k] = i[p]
            return src(*full)
        r = mkarr(newshape, fn, a.dtype)
        r.buf.alias_of = a.buf
        if nd is not None:
            r.meta = {"nd": nd}
        return r
    if len(core) == 1 and len(acore) > 1:
        f = flatten(a)
        if len(newshape) == 1:
            if not dim_eq(newshape[0], f.shape[0]):
                raise PyExc("ValueError", "cannot reshape array")
            return f
        src, m = f.snap(), f.meta
        p = [k for k, s in enumerate(newshape) if not (not isinstance(s, Sym) and s == 1)][0]
        if not dim_eq(newshape[p], f.shape[0]):
            raise PyExc("ValueError", "cannot reshape array")
        r = mkarr(newshape, lambda *i: src(i[p]), a.dtype)
        r.meta = m
        return r
    # group axes: each original axis split into consecutive new axes (C order)
    src = a.snap()
    groups = []
    j = 0
    ok = True
    for k, s in enumerate(a.shape):
        prod = 1
        g = []
        while j < len(newshape):
            g.append(j)
            prod = T.s_mul(prod, newshape[j])
            j += 1
            if same(prod, s) or (T.is_num(prod) and ctx().known(toz(T.s_eq(prod, s)))):
                break
        else:
            ok = False
            break
        groups.append(g)
    if ok and j == len(newshape):
        def fn(*i):
            full = []
            for g in groups:
                v = i[g[0]]
                for q in g[1:]:
                    v = T.s_add(T.s_mul(v, newshape[q]), i[q])
                full.append(v)
            return src(*full)
        return mkarr(newshape, fn, a.dtype)
    if not dim_eq(tot, shape_total(newshape)):
        raise PyExc("ValueError", "cannot reshape array")
    # general: via the flat index
    fl = flatten(a).snap()

    def fng(*i):
        v = i[0]
        for q in range(1, len(newshape)):
            v = T.s_add(T.s_mul(v, newshape[q]), i[q])
        return fl(v)
    return mkarr(newshape, fng, a.dtype)


# ------------------------------------------------------------------------------------------- creation
def as_shape(s):
    if isinstance(s, Arr):
        return tuple(s.at(i) for i in range(s.shape[0]))
    if T.is_num(s):
        s = (s,)
    out = []
    for d in s:
        if isinstance(d, Arr):
            d = d.at()
        if T.kind(d) == "f":
            raise PyExc("TypeError", "shape must be integer")
        if isinstance(d, Sym):
            if d < 0:
                raise PyExc("ValueError", "negative dimensions are not allowed")
        elif d < 0:
            raise PyExc("ValueError", "negative dimensions are not allowed")
        out.append(d)
    return tuple(out)


def np_zeros(shape, dtype="float64", order=None):
    d = norm_dtype(dtype) or "float64"
    return const_arr(as_shape(shape), 0, d)


def np_ones(shape, dtype="float64", order=None):
    return const_arr(as_shape(shape), 1, norm_dtype(dtype) or "float64")


def np_full(shape, v, dtype=None):
    return const_arr(as_shape(shape), v, norm_dtype(dtype) or A.dtype_of_scalar(v))


def _like(a):
    return a if isinstance(a, Arr) else asarray(a)


def np_zeros_like(a, dtype=None):
    a = _like(a)
    return const_arr(a.shape, 0, norm_dtype(dtype) or a.dtype)


def np_ones_like(a, dtype=None):
    a = _like(a)
    return const_arr(a.shape, 1, norm_dtype(dtype) or a.dtype)


def np_arange(*args, **kw):
    dtype = norm_dtype(kw.get("dtype"))
    args = [x.at() if isinstance(x, Arr) else x for x in args]
    if len(args) == 1:
        st, sp, k = 0, args[0], 1
    elif len(args) == 2:
        st, sp, k = args[0], args[1], 1
    else:
        st, sp, k = args[:3]
        if len(args) > 3:
            dtype = norm_dtype(args[3])
    kinds = [T.kind(x) for x in (st, sp, k)]
    if all(x in "ib" for x in kinds):
        from .interp import RangeVal
        n = RangeVal(st, sp, k).length()
        d = dtype or "int64"
    else:
        if isinstance(k, Sym):
            if k == 0:
                raise PyExc("ZeroDivisionError", "Maximum allowed size exceeded")
        elif k == 0:
            raise PyExc("ZeroDivisionError", "Maximum allowed size exceeded")
        n = T.s_max(T.s_ceil(T.s_truediv(T.s_sub(sp, st), k)), 0)
        d = dtype or "float64"
    r = mkarr((n,), lambda i: cast(T.s_add(st, T.s_mul(k, i)), d), d)
    if all(x in "ib" for x in kinds) and kind_of_dtype(d) in "iu":
        r.meta = {"affine": (st, k)}
        affine_range(r)
    return r


def np_linspace(start, stop, num=50, endpoint=True, dtype=None):
    num = num.at() if isinstance(num, Arr) else num
    if T.kind(num) == "f":
        raise PyExc("TypeError", "integer expected")
    if isinstance(num, Sym):
        if num < 0:
            raise PyExc("ValueError", "Number of samples, must be non-negative")
    elif num < 0:
        raise PyExc("ValueError", "Number of samples, must be non-negative")
    div = T.s_sub(num, 1) if endpoint else num
    d = norm_dtype(dtype) or "float64"
    start, stop = T.toreal_s(start), T.toreal_s(stop)

    def fn(i):
        if not isinstance(div, Sym) and div <= 0:
            return start
        v = T.s_add(start, T.s_truediv(T.s_mul(i, T.s_sub(stop, start)), div))
        if isinstance(div, Sym):
            v = ite(div > 0, v, start)
        return cast(v, d)
    return mkarr((num,), fn, d)


def np_meshgrid(x, y, indexing="xy", sparse=False):
    x, y = asarray(x), asarray(y)
    fx, fy = x.snap(), y.snap()
    if indexing == "xy":
        return [mkarr((y.shape[0], x.shape[0]), lambda i, j: fx(j), x.dtype),
                mkarr((y.shape[0], x.shape[0]), lambda i, j: fy(i), y.dtype)]
    return [mkarr((x.shape[0], y.shape[0]), lambda i, j: fx(i), x.dtype),
            mkarr((x.shape[0], y.shape[0]), lambda i, j: fy(j), y.dtype)]


def np_tile(a, reps):
    a = asarray(a)
    if T.is_num(reps):
        reps = (reps,)
    reps = tuple(r.at() if isinstance(r, Arr) else r for r in reps)
    sh = a.shape
    nd = max(len(reps), len(sh))
    sh2 = (1,) * (nd - len(sh)) + sh
    reps = (1,) * (nd - len(reps)) + reps
    src = a.snap()
    drop = nd - len(sh)
    out = tuple(T.s_mul(s, r) for s, r in zip(sh2, reps))

    def fn(*i):
        idx = []
        for k in range(drop, nd):
            if not isinstance(reps[k], Sym) and reps[k] == 1:
                idx.append(i[k])
            elif not isinstance(sh2[k], Sym) and sh2[k] == 1:
                idx.append(0)
            else:
                idx.append(T.s_mod(i[k], sh2[k]))
        return src(*idx)
    return mkarr(out, fn, a.dtype)


def np_copy(a, *x, **k):
    return asarray(a).frozen()


def np_array(a, dtype=None, copy=True, **k):
    r = asarray(a, norm_dtype(dtype))
    return r.frozen() if isinstance(r, Arr) else r


def np_asarray(a, dtype=None, **k):
    return asarray(a, norm_dtype(dtype))


def np_ascontiguousarray(a, dtype=None):
    return asarray(a, norm_dtype(dtype))


# ------------------------------------------------------------------------------------------- movement
def np_transpose(a, axes=None):
    a = asarray(a)
    return A.transpose(a, tuple(axes) if axes is not None else tuple(range(a.ndim))[::-1])


def np_moveaxis(a, src, dst):
    a = asarray(a)
    if isinstance(src, (tuple, list)):
        src_, dst_ = list(src), list(dst)
    else:
        src_, dst_ = [src], [dst]
    nd = a.ndim
    for v in src_ + dst_:
        if not (-nd <= v < nd):
            raise PyExc("ValueError", "axis out of bounds")
    src_ = [s % nd for s in src_]
    dst_ = [d % nd for d in dst_]
    order = [n for n in range(nd) if n not in src_]
    for d, s in sorted(zip(dst_, src_)):
        order.insert(d, s)
    return A.transpose(a, tuple(order))


def np_swapaxes(a, p, q):
    o = list(range(a.ndim))
    o[p], o[q] = o[q], o[p]
    return A.transpose(a, tuple(o))


def np_expand_dims(a, axis):
    a = asarray(a)
    axis = axis % (a.ndim + 1)
    return A.basic_view(a, (slice(None),) * axis + (None,) + (slice(None),) * (a.ndim - axis))


def np_squeeze(a, axis=None):
    a = asarray(a)
    if axis is None:
        axes = []
        for k, s in enumerate(a.shape):
            if isinstance(s, Sym):
                if s == 1:
                    axes.append(k)
            elif s == 1:
                axes.append(k)
    else:
        axes = [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for k in axes:
            if not dim_eq(a.shape[k], 1):
                raise PyExc("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
    return A.basic_view(a, tuple(0 if k in axes else slice(None) for k in range(a.ndim)))


def np_flip(a, axis=None):
    a = asarray(a)
    axes = range(a.ndim) if axis is None else ([axis] if T.is_num(axis) else axis)
    axes = [x % a.ndim for x in axes]
    return A.basic_view(a, tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim)))


def np_roll(a, shift, axis=None):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll without axis")
        axis = 0
    axis = axis % a.ndim
    n = a.shape[axis]
    src = a.snap()

    def fn(*i):
        i = list(i)
        i[axis] = T.s_mod(T.s_sub(i[axis], shift), n)
        return src(*i)
    return mkarr(a.shape, fn, a.dtype)


def np_concatenate(arrs, axis=0):
    from .interp import SymList
    if isinstance(arrs, SymList):
        raise Unsupported("concatenate of a symbolic list")
    arrs = [asarray(x) for x in arrs]
    if not arrs:
        raise PyExc("ValueError", "need at least one array to concatenate")
    nd = arrs[0].ndim
    axis = axis % nd
    for b in arrs[1:]:
        if b.ndim != nd:
            raise PyExc("ValueError", "all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not dim_eq(arrs[0].shape[k], b.shape[k]):
                raise PyExc("ValueError", "all the input array dimensions except for the concatenation axis must match")
    d = rtype(*[x.dtype for x in arrs])
    offs = [0]
    for x in arrs:
        offs.append(T.s_add(offs[-1], x.shape[axis]))
    snaps = [x.snap() for x in arrs]
    sh = list(arrs[0].shape)
    sh[axis] = offs[-1]

    def fn(*i):
        def get(k):
            j = list(i)
            j[axis] = T.s_sub(i[axis], offs[k])
            return cast(snaps[k](*j), d)
        r = None
        for k in range(len(snaps) - 1, -1, -1):
            if r is None:
                r = get(k)
            else:
                c = T.s_lt(i[axis], offs[k + 1])
                if c is True:
                    r = get(k)
                elif c is False:
                    pass
                else:
                    r = A.ite_val(c, get(k), r)
        return r
    return mkarr(tuple(sh), fn, d)


def np_vstack(arrs):
    arrs = [asarray(x) for x in arrs]
    arrs = [A.basic_view(x, (None, slice(None))) if x.ndim == 1 else x for x in arrs]
    return np_concatenate(arrs, 0)


def np_hstack(arrs):
    arrs = [asarray(x) for x in arrs]
    return np_concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def np_dstack(arrs):
    out = []
    for x in arrs:
        x = asarray(x)
        if x.ndim == 2:
            x = A.basic_view(x, (slice(None), slice(None), None))
        elif x.ndim == 1:
            x = A.basic_view(x, (None, slice(None), None))
        out.append(x)
    return np_concatenate(out, 2)


def np_stack(arrs, axis=0):
    from .interp import SymList
    if isinstance(arrs, SymList):
        r = asarray(arrs)
    else:
        r = asarray([asarray(x) for x in arrs])
    return np_moveaxis(r, 0, axis) if axis != 0 else r


def _padw(pad, nd):
    if T.is_num(pad) or (isinstance(pad, Arr) and pad.ndim == 0):
        return [(pad, pad)] * nd
    pad = list(pad)
    if len(pad) == 2 and all(T.is_num(p) for p in pad) and nd >= 1:
        return [tuple(pad)] * nd
    if len(pad) == 1 and isinstance(pad[0], (tuple, list)):
        return [tuple(pad[0])] * nd
    out = []
    for p in pad:
        if T.is_num(p):
            out.append((p, p))
        else:
            p = list(p)
            out.append((p[0], p[-1]))
    return out


def np_pad(a, pad, mode="constant", **kw):
    a = asarray(a)
    nd = a.ndim
    pw = _padw(pad, nd)
    if len(pw) != nd:
        raise PyExc("ValueError", "operands could not be broadcast together with remapped shapes")
    for p, q in pw:
        for v in (p, q):
            if T.kind(v) == "f":
                raise PyExc("TypeError", "`pad_width` must be of integral type.")
            if isinstance(v, Sym):
                if v < 0:
                    raise PyExc("ValueError", "index can't contain negative values")
            elif v < 0:
                raise PyExc("ValueError", "index can't contain negative values")
    sh = tuple(T.s_add(T.s_add(s, p), q) for s, (p, q) in zip(a.shape, pw))
    src = a.snap()
    shp = a.shape
    d = a.dtype
    if callable(mode) or not isinstance(mode, str):
        raise Unsupported("pad with a callable mode")

    def nz(k):
        p, q = pw[k]
        return not ((not isinstance(p, Sym) and p == 0) and (not isinstance(q, Sym) and q == 0))
    if mode == "edge":
        def fn(*i):
            idx = []
            for k in range(nd):
                if not nz(k):
                    idx.append(i[k])
                    continue
                j = T.s_sub(i[k], pw[k][0])
                idx.append(T.s_min(T.s_max(j, 0), T.s_sub(shp[k], 1)))
            return src(*idx)
    elif mode in ("reflect", "symmetric"):
        def fn(*i):
            idx = []
            for k in range(nd):
                if not nz(k):
                    idx.append(i[k])
                    continue
                j = T.s_sub(i[k], pw[k][0])
                n = shp[k]
                if mode == "reflect":
                    per = T.s_mul(2, T.s_sub(n, 1))
                    # inside one period on each side (general periodic extension)
                    m = ite_conc(T.s_le(n, 1), lambda: 0,
                                 lambda: reflect_index(j, per, n))
                else:
                    per = T.s_mul(2, n)
                    r = T.s_mod(j, per)
                    m = ite(T.s_lt(r, n), r, T.s_sub(T.s_sub(per, 1), r))
                idx.append(m)
            return src(*idx)
    elif mode == "constant":
        cv = kw.get("constant_values", 0)
        if isinstance(cv, (tuple, list)):
            if len(cv) == 1 or all(not isinstance(x, (tuple, list)) and x == cv[0] for x in cv):
                cv = cv[0]
            else:
                raise Unsupported("pad constant_values per axis")
        cv = cast(cv, d)

        def fn(*i):
            idx, conds = [], []
            for k in range(nd):
                j = T.s_sub(i[k], pw[k][0])
                idx.append(j)
                if nz(k):
                    conds += [T.s_ge(j, 0), T.s_lt(j, shp[k])]
            c = s_and(*conds)
            if c is True:
                return src(*idx)
            if c is False:
                return cv
            return ite(c, src(*idx), cv)
    elif mode in ("mean", "linear_ramp", "maximum", "minimum", "median", "wrap"):
        f = opaque_array("pad_" + mode, [a], sh, [v for p in pw for v in p], d)
        fo = f.snap()

        def fn(*i):
            idx, conds = [], []
            for k in range(nd):
                j = T.s_sub(i[k], pw[k][0])
                idx.append(j)
                if nz(k):
                    conds += [T.s_ge(j, 0), T.s_lt(j, shp[k])]
            c = s_and(*conds)
            return src(*idx) if c is True else ite(c, src(*idx), fo(*i))
    else:
        raise PyExc("ValueError", "mode '%s' is not supported" % mode)
    return mkarr(sh, fn, d)


def ite_conc(c, a, b):
    if c is True:
        return a()
    if c is False:
        return b()
    if ctx().known(toz(s_not(c))):
        return b()
    return ite(c, a(), b())


def reflect_index(j, per, n):
    r = T.s_mod(j, per)
    return ite(T.s_lt(r, n), r, T.s_sub(per, r))


def np_broadcast_to(a, shape):
    a = asarray(a)
    sh = broadcast_shapes(a.shape, tuple(shape))
    off, plan = bplan(a.shape, sh)
    src = a.snap()
    return mkarr(sh, lambda *i: src(*papply(off, plan, i)), a.dtype)


# ------------------------------------------------------------------------------------------- elementwise functions
def lift1(f, dtype=None, force_real=False):
    def g(a, *rest, **kw):
        if isinstance(a, Compress):
            d = dtype(a.dtype) if callable(dtype) else (dtype or a.dtype)
            s = a.f
            return Compress(lambda *i: f(s(*i)), a.mask, a.shape_full, d)
        if not isinstance(a, Arr) and not T.is_num(a):
            a = asarray(a)
        if isinstance(a, Arr):
            d = dtype(a.dtype) if callable(dtype) else (dtype or a.dtype)
            if a.ndim == 0:
                return cast(f(a.at()), d)
            return elementwise1(f, a, d)
        v = f(a)
        return T.toreal_s(v) if force_real and T.kind(v) == "i" else v
    return g


def float_dtype(d):
    k = kind_of_dtype(d)
    return d if k in "fc" else "float64"


def mathfn(nm):
    return lift1(lambda v: T.fn_app(nm, v), float_dtype, True)


def np_deg2rad(a):
    return elementwise_any(lambda v: T.s_truediv(T.s_mul(v, PI()), 180), a, float_dtype)


def np_rad2deg(a):
    return elementwise_any(lambda v: T.s_truediv(T.s_mul(v, 180), PI()), a, float_dtype)


def elementwise_any(f, a, dt=None):
    return lift1(f, dt)(a)


_PI = [None]


def PI():
    return Sym(z3.Real("PI"))


def real_of(f):
    return lambda v: T.toreal_s(f(v))


np_floor = lift1(real_of(T.s_floor), float_dtype, True)
np_ceil = lift1(real_of(T.s_ceil), float_dtype, True)
np_trunc = lift1(real_of(T.s_trunc), float_dtype, True)


def np_round(a, decimals=0):
    if not isinstance(decimals, Sym) and decimals == 0:
        return lift1(lambda v: v if T.kind(v) in "ib" else T.toreal_s(T.s_round(v)))(a)
    raise Unsupported("round with decimals")


np_abs = lift1(T.s_abs)


def np_sign(a):
    return lift1(lambda v: ite(T.s_gt(v, 0), 1, ite(T.s_lt(v, 0), -1, 0)))(a)


def np_square(a):
    return lift1(lambda v: T.s_mul(v, v))(a)


def np_clip(a, lo, hi, **kw):
    if isinstance(lo, Arr) or isinstance(hi, Arr):
        r = elementwise2("max", asarray(a), lo) if lo is not None else a
        return elementwise2("min", r, hi) if hi is not None else r

    def f(v):
        if lo is not None:
            v = T.s_max(v, lo)
        if hi is not None:
            v = T.s_min(v, hi)
        return v

    def dt(d):
        if kind_of_dtype(d) in "iu" and any(x is not None and T.kind(x) == "f" for x in (lo, hi)):
            return "float64"
        return d
    return lift1(f, dt)(a)


def np_minimum(a, b):
    return elementwise2("min", a, b)


def np_maximum(a, b):
    return elementwise2("max", a, b)


def np_power(a, b):
    return elementwise2("pow", a, b)


def np_arctan2(a, b):
    return elementwise2(lambda x, y: T.fn_app("arctan2", x, y), a, b, "float64")


def np_real(a):
    if isinstance(a, Arr):
        if kind_of_dtype(a.dtype) == "c":
            m = a.meta and a.meta.get("cplx")
            if m:
                return m[0]
            raise Unsupported("real part of an unstructured complex array")
        return a
    return a


def np_imag(a):
    if isinstance(a, Arr) and kind_of_dtype(a.dtype) == "c":
        m = a.meta and a.meta.get("cplx")
        if m:
            return m[1]
    raise Unsupported("imag")


def np_where(c, x=None, y=None):
    if x is None:
        return where_n(asarray(c))
    c = asarray(c)
    d = None
    if isinstance(x, Arr) or isinstance(y, Arr):
        d = result_dtype("add", x, y)
    else:
        d = rtype(A.dtype_of_scalar(x), A.dtype_of_scalar(y))
    arrs = [v for v in (c, x, y) if isinstance(v, Arr)]
    sh = broadcast_shapes(*[v.shape for v in arrs])

    def part(v):
        if isinstance(v, Arr):
            f, (off, pl) = v.snap(), bplan(v.shape, sh)
            return lambda i: f(*papply(off, pl, i))
        return lambda i: v
    fc, fx, fy = part(c), part(x), part(y)
    return mkarr(sh, lambda *i: cast(ite(T.as_bool(fc(i)), fx(i), fy(i)), d), d)


# ------------------------------------------------------------------------------------------- where / compress
def where1(mask):
    """Indices where a 1-D mask holds: strictly increasing enumeration."""
    n = mask.shape[0]
    mf = mask.snap()
    c = ctx()
    cond = A.Fn(lambda i: T.as_bool(mf(i)))
    if not isinstance(n, Sym) and n <= 64:
        vals = [cond(i) for i in range(n)]
        if not any(isinstance(v, Sym) for v in vals):
            ids = [i for i, v in enumerate(vals) if v]
            r = asarray(ids, "int64") if ids else mkarr((0,), lambda i: 0, "int64")
            pos = {v: k for k, v in enumerate(ids)}
            r.meta = {"where": {"n": n, "cond": cond, "rank": lambda i: pick([pos.get(k, 0) for k in range(n)], i, lambda: pos.get(i, 0)),
                                "conc": ids}}
            return (r,)
    iv = interval_mask(cond, n)
    if iv is not None:
        inside, a, b = iv
        gap = T.s_sub(b, a)
        if inside:
            W, el = gap, lambda t: T.s_add(a, t)
            cnt = lambda v: T.s_sub(T.s_min(T.s_max(v, a), b), a)
        else:
            W, el = T.s_sub(n, gap), lambda t: ite(T.s_lt(t, a), t, T.s_add(t, gap))
            cnt = lambda v: ite(T.s_le(v, a), v, ite(T.s_ge(v, b), T.s_sub(v, gap), a))
        r = mkarr((W,), el, "int64")
        r.meta = {"where": {"n": n, "cond": cond, "rank": cnt, "el": el, "count": W, "interval": iv}, "range": (0, n)}
        if inside:
            r.meta["affine"] = (a, 1)
        return (r,)
    # count(i) = number of true positions below i (binder sum over [0, i))
    cnt = binders_count(cond, n)
    W = cnt(n)

    el, nm = c.fresh_fun("where", 1, "i")
    lv = len(c.loop_vars)

    def facts(app):
        r = Sym(app.arg(lv))
        v = Sym(app)
        ok = s_and(r >= 0, r < W)
        return [z3.Implies(toz(ok), toz(s_and(v >= 0, v < n, cond(v), T.s_eq(cnt(v), r), v >= r)))]
    c.set_facts(el(0).e.decl(), facts, lv)

    def ufact(cand):
        out = []
        for x in cand:
            xs = Sym(x)
            out.append(z3.Implies(toz(s_and(xs >= 0, xs < n, cond(xs))), toz(s_and(T.s_eq(el(cnt(xs)), xs), cnt(xs) >= 0, cnt(xs) < W))))
        return out
    add_universal(c, ufact)
    # mark(p): the rank of a position known to be selected; el(mark(p)) is p itself.  (For positions which are not
    # selected mark(p) may be any number outside the ranks, so the rewriting below is consistent.)
    mark, mname = c.fresh_fun("rank", 1, "i")

    def mfacts(app):
        p = Sym(app.arg(lv))
        return [z3.Implies(toz(s_and(p >= 0, p < n, cond(p))), toz(s_and(T.s_eq(Sym(app), cnt(p)), Sym(app) >= 0, Sym(app) < W)))]
    c.set_facts(mark(0).e.decl(), mfacts, lv)
    mdecl = mark(0).e.decl()

    def el2(t):
        if isinstance(t, Sym) and z3.is_app(t.e) and t.e.decl().eq(mdecl) and all(
                x.eq(y) for x, y in zip(t.e.children()[:lv], c.loop_vars[:lv])):
            return Sym(t.e.arg(lv))
        return el(t)
    r = mkarr((W,), lambda i: el2(i), "int64")
    r.meta = {"where": {"n": n, "cond": cond, "rank": cnt, "el": el2, "count": W, "mark": mark}, "range": (0, n)}
    return (r,)


def interval_mask(cond, n):
    """(inside, a, b) when the mask is exactly [a, b) or exactly its complement in [0, n); None when not shown."""
    from . import loops
    c = ctx()
    k = c.skolem("iv")

    def phi_thunk():
        c.assume(s_and(k >= 0, k < n))
        return cond(k)
    phi = loops.merge_paths(c.explore_nested(phi_thunk))
    if not isinstance(phi, Sym):
        return (True, 0, n) if phi else (True, 0, 0)
    cands = {}
    bad = [False]
    seen = set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if not binders._mentions(e, [k.e]):
            return
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) \
                and z3.is_int(e.arg(0)):
            d = e.arg(0) - e.arg(1)
            d0 = z3.simplify(z3.substitute(d, (k.e, z3.IntVal(0))))
            d1 = z3.simplify(z3.substitute(d, (k.e, z3.IntVal(1))) - d0)
            if z3.is_int_value(d1) and abs(d1.as_long()) == 1:
                t = z3.simplify(-d0 if d1.as_long() == 1 else d0)
                if not binders._mentions(t, [k.e]):
                    for x in (t, z3.simplify(t + 1)):
                        cands[x.get_id()] = x
                    return
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            bad[0] = True
            return
        for ch in e.children():
            walk(ch)
    walk(phi.e)
    if bad[0] or len(cands) > 8:
        return None
    cl = [mk(x) for x in cands.values()]
    dom = [toz(s_and(k >= 0, k < n))]
    for a in [0] + cl:
        for b in cl + [n]:
            if a is b:
                continue
            rng = s_and(T.s_ge(k, a), T.s_lt(k, b))
            for inside in (False, True):
                if loops.entails(c, dom, toz(T.s_eq(phi, rng if inside else s_not(rng))), 1000):
                    a2 = T.s_min(T.s_max(a, 0), n)
                    b2 = T.s_max(T.s_min(T.s_max(b, 0), n), a2)
                    for x, y in ((a, a2), (b, b2)):
                        pass
                    if c.known(toz(s_and(T.s_ge(a, 0), T.s_le(a, b), T.s_le(b, n)))):
                        a2, b2 = a, b
                    return inside, a2, b2
    return None


def add_universal(c, f):
    c.universals.append((list(c.loop_vars), f))


def binders_count(cond, n):
    c = ctx()
    k = c.skolem("hi")
    app = binders.make(c, "sum", [((k,), lambda i: ite(cond(i), 1, 0) if isinstance(cond(i), Sym) else int(cond(i)))], sort="int")()

    def cnt(i):
        return mk(z3.substitute(toz(app), (k.e, toz(i))))
    return cnt


def where_n(mask):
    if mask.ndim == 1:
        return where1(mask)
    raise Unsupported("np.where of a %d-d mask" % mask.ndim)


def compress(a, mask):
    require_same_shape(mask.shape, a.shape)
    return Compress(a.snap(), A.Fn(lambda *i, _m=mask.snap(): T.as_bool(_m(*i))), a.shape, a.dtype)


def compress_op(op, a, b):
    if isinstance(a, Compress) and isinstance(b, Compress):
        if not A.same_mask(a.mask, b.mask, a.shape_full):
            raise Unsupported("operation on arrays compressed by different masks")
        f, g = a.f, b.f
        fn = OPF[op]
        return Compress(lambda *i: fn(f(*i), g(*i)), a.mask, a.shape_full, rtype(a.dtype, b.dtype))
    fn = OPF[op]
    if isinstance(a, Compress):
        if not T.is_num(b):
            raise Unsupported("compressed array with %r" % type(b))
        f = a.f
        d = "bool" if op in CMP else ("float64" if op == "truediv" or T.kind(b) == "f" and kind_of_dtype(a.dtype) in "iub" else a.dtype)
        return Compress(lambda *i: fn(f(*i), b), a.mask, a.shape_full, d)
    f = b.f
    d = "bool" if op in CMP else ("float64" if op == "truediv" or T.kind(a) == "f" and kind_of_dtype(b.dtype) in "iub" else b.dtype)
    return Compress(lambda *i: fn(a, f(*i)), b.mask, b.shape_full, d)


def compress_count(c_):
    return reduce_binder("sum", c_.shape_full, lambda *i: ite_num(c_.mask(*i)), "int")


def ite_num(b):
    return ite(b, 1, 0) if isinstance(b, Sym) else int(bool(b))


def compress_attr(c_, name):
    if name == "size":
        return compress_count(c_)
    if name == "shape":
        return (compress_count(c_),)
    if name == "dtype":
        return DType(c_.dtype)
    if name == "ndim":
        return 1
    if name == "astype":
        return lambda d: DType(norm_dtype(d))(c_)
    if name == "copy":
        return lambda: c_
    raise Unsupported("compressed array attribute " + name)


def compress_get(c_, idx):
    raise Unsupported("index into a compressed array")


# ------------------------------------------------------------------------------------------- reductions
def reduce_binder(kind, sizes, fn, sort="real", scal=(), key=()):
    return binders.make(ctx(), kind, [(tuple(sizes), fn)], scal, 0, sort, key)()


class LazyApp(object):
    """Element function built from a binder at generic outer indices, instantiated by substitution."""

    def __init__(self, shape, build):
        self.shape, self.build = shape, build
        self.tpl = None

    def __call__(self, *idx):
        c = ctx()
        if not idx:
            return self.build()
        if self.tpl is None or self.tpl[0] not in c.scopes:
            ks = [c.skolem("o") for _ in idx]

            def thunk():
                for k, n in zip(ks, self.shape):
                    c.assume(s_and(k >= 0, k < n))
                return self.build(*ks)
            rs = c.explore_nested(thunk)
            if not rs:
                v = Fraction(0)
            else:
                v = rs[-1][1]
                for pc, w in reversed(rs[:-1]):
                    v = A.ite_val(Sym(z3.And(*pc)) if pc else True, w, v)
            self.tpl = (c.scopes[-1], ks, v)
        _, ks, v = self.tpl
        if isinstance(v, Sym):
            return mk(z3.substitute(v.e, *[(k.e, toz(i)) for k, i in zip(ks, idx)]))
        return v


def reduce_general(a, axis, keepdims, core, conc, dtype):
    """core(sizes, fn) -> scalar for the reduced axes; conc(list of values) -> scalar for small concrete."""
    a = asarray(a) if not isinstance(a, (Arr, Compress)) else a
    if isinstance(a, Compress):
        raise Unsupported("reduction of a compressed array")
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [x % a.ndim for x in axis]
    else:
        if not (-a.ndim <= axis < a.ndim):
            raise PyExc("ValueError", "axis out of bounds")
        axes = [axis % a.ndim]
    src = a.snap()
    sizes = [T.mk(z3.simplify(a.shape[k].e)) if isinstance(a.shape[k], Sym) else a.shape[k] for k in axes]
    keep = [k for k in range(a.ndim) if k not in axes]
    nd = a.ndim
    small = all(not isinstance(s, Sym) for s in sizes)
    tot = 1
    if small:
        for s in sizes:
            tot *= s
    small = small and tot <= 64

    def at(outer):
        def full(inner):
            idx = [None] * nd
            for k, v in zip(keep, outer):
                idx[k] = v
            for k, v in zip(axes, inner):
                idx[k] = v
            return src(*idx)
        if small:
            vals = []

            def rec(pre, rest):
                if not rest:
                    vals.append(full(pre))
                    return
                for i in range(rest[0]):
                    rec(pre + [i], rest[1:])
            rec([], sizes)
            return conc(vals)
        return core(sizes, lambda *inner: full(inner))
    if small and tot == 0:
        at0 = at
    if not keep:
        v = at(())
        if keepdims:
            return const_arr((1,) * nd, v, dtype)
        return v
    oshape = tuple(a.shape[k] for k in keep)
    if small:
        fn = lambda *o: cast(at(o), dtype)       # noqa
    else:
        la = LazyApp(oshape, lambda *o: at(o))
        fn = lambda *o: cast(la(*o), dtype)      # noqa
    r = mkarr(oshape, fn, dtype)
    if keepdims:
        r = A.basic_view(r, tuple(slice(None) if k in keep else None for k in range(nd)))
    return r


def sum_dtype(d):
    return "int64" if kind_of_dtype(d) in "biu" else d


def fold_sum(vals):
    r = 0
    for v in vals:
        r = T.s_add(r, ite_num(v) if T.kind(v) == "b" else v)
    return r


def np_sum(a, axis=None, dtype=None, keepdims=False, **kw):
    from .interp import SymList
    if isinstance(a, (list, tuple, SymList)) and not isinstance(a, Arr):
        a = asarray(a)
    if isinstance(a, Compress):
        m, f = a.mask, a.f
        k = kind_of_dtype(a.dtype)
        return reduce_binder("sum", a.shape_full, lambda *i: ite(m(*i), ite_num(f(*i)) if k == "b" else f(*i), 0),
                             "int" if k in "biu" else "real")
    a = asarray(a)
    k = kind_of_dtype(a.dtype)
    sort = "int" if k in "biu" else "real"
    return reduce_general(a, axis, keepdims,
                          lambda sz, fn: reduce_binder("sum", sz, (lambda *i: ite_num(fn(*i))) if k == "b" else fn, sort),
                          fold_sum, sum_dtype(a.dtype))


def np_mean(a, axis=None, dtype=None, keepdims=False, **kw):
    if isinstance(a, Compress):
        return T.s_truediv(T.toreal_s(np_sum(a)), compress_count(a))
    if T.is_num(a):
        return a
    a = asarray(a)
    if kind_of_dtype(a.dtype) in "biu":
        a = astype(a, "float64")

    def core(sz, fn):
        return np_div(reduce_binder("sum", sz, fn, "real"), T.toreal_s(shape_total(sz)))
    return reduce_general(a, axis, keepdims, core,
                          lambda vals: np_div(T.toreal_s(fold_sum(vals)), len(vals)), a.dtype)


def minmax(kind):
    def g(a, axis=None, keepdims=False, **kw):
        if isinstance(a, Compress):
            m, f = a.mask, a.f
            return binders.make(ctx(), kind + "c", [(a.shape_full, f), (a.shape_full, lambda *i: as_sym_bool(m(*i)))], (), 0,
                                "real")()
        if T.is_num(a):
            return a
        a = asarray(a)
        sort = "int" if kind_of_dtype(a.dtype) in "iu" else "real"

        def conc(vals):
            if not vals:
                raise PyExc("ValueError", "zero-size array to reduction operation")
            r = vals[0]
            for v in vals[1:]:
                r = T.s_min(r, v) if kind == "min" else T.s_max(r, v)
            return r

        def core(sz, fn):
            return reduce_binder(kind, sz, fn, sort)
        tot = [a.shape[k] for k in range(a.ndim)] if axis is None else [a.shape[axis]] if T.is_num(axis) else [a.shape[k] for k in axis]
        for s in tot:
            if isinstance(s, Sym):
                if s == 0:
                    raise PyExc("ValueError", "zero-size array to reduction operation")
        return reduce_general(a, axis, keepdims, core, conc, a.dtype)
    return g


def as_sym_bool(v):
    return v


np_min = minmax("min")
np_max = minmax("max")


def np_any(a, axis=None, **kw):
    a = asarray(a)
    return reduce_general(a, axis, False,
                          lambda sz, fn: reduce_binder("any", sz, lambda *i: boolz(fn(*i)), "bool"),
                          lambda vals: s_or(*[T.as_bool(v) for v in vals]), "bool")


def boolz(v):
    v = T.as_bool(v)
    return v if isinstance(v, Sym) else bool(v)


def np_all(a, axis=None, **kw):
    a = asarray(a)
    return reduce_general(a, axis, False,
                          lambda sz, fn: reduce_binder("all", sz, lambda *i: boolz(fn(*i)), "bool"),
                          lambda vals: s_and(*[T.as_bool(v) for v in vals]), "bool")


def opaque_reduce(kind):
    def g(a, axis=None, keepdims=False, **kw):
        a = asarray(a)
        if isinstance(a, Compress):
            m, f = a.mask, a.f
            return binders.make(ctx(), kind + "c", [(a.shape_full, f), (a.shape_full, lambda *i: m(*i))], (), 0, "real")()
        return reduce_general(a, axis, keepdims, lambda sz, fn: reduce_binder(kind, sz, lambda *i: T.toreal_s(fn(*i))),
                              lambda vals: reduce_binder(kind, (len(vals),), lambda i: T.toreal_s(pick(vals, i, lambda: vals[i]))),
                              "float64" if kind_of_dtype(a.dtype) in "biu" else a.dtype)
    return g


np_median = opaque_reduce("median")
np_std = opaque_reduce("std")
np_var = opaque_reduce("std2")


def np_percentile(a, q, axis=None, **kw):
    a = asarray(a)
    return reduce_general(a, axis, False, lambda sz, fn: reduce_binder("percentile", sz, fn, "real", (T.toreal_s(q),)),
                          lambda vals: reduce_binder("percentile", (len(vals),), lambda i: pick(vals, i, lambda: vals[i]), "real", (T.toreal_s(q),)),
                          "float64")


class FlatIndex(object):
    """Position of the first extremum of a 2-D array, as a flat index; np.unravel_index gives the position back."""

    def __init__(self, pos, shape):
        self.pos, self.shape = pos, shape
        self.value = T.s_add(T.s_mul(pos[0], shape[1]), pos[1])


def flat_arg(a, kind):
    for s in a.shape:
        if s == 0 if isinstance(s, Sym) else s == 0:
            raise PyExc("ValueError", "attempt to get %s of an empty sequence" % kind)
    f = binders.make(ctx(), kind + "2", [(tuple(a.shape), a.snap())], (), 1, "int")
    pos = (f(0), f(1))
    for p, n in zip(pos, a.shape):
        ctx().assume(toz(T.s_and(T.s_ge(p, 0), T.s_lt(p, n))))
    return FlatIndex(pos, a.shape)


def np_unravel_index(p, shape):
    shape = as_shape(shape)
    if isinstance(p, FlatIndex):
        if not all(same(x, y) or ctx().known(toz(T.s_eq(x, y))) for x, y in zip(p.shape, shape)):
            raise Unsupported("unravel_index with another shape")
        return p.pos
    if isinstance(p, Arr) and p.ndim:
        raise Unsupported("unravel_index of an array")
    out = []
    for s in reversed(shape[1:]):
        out.append(T.s_mod(p, s))
        p = T.s_floordiv(p, s)
    return tuple([p] + out[::-1])


def argm(kind):
    def g(a, axis=None, **kw):
        a = asarray(a)
        if axis is None and a.ndim == 2:
            return flat_arg(a, kind)
        if axis is None and a.ndim != 1:
            raise Unsupported("flat %s of an n-d array" % kind)
        if isinstance(a.shape[axis or 0], Sym):
            if a.shape[axis or 0] == 0:
                raise PyExc("ValueError", "attempt to get %s of an empty sequence" % kind)
        elif a.shape[axis or 0] == 0:
            raise PyExc("ValueError", "attempt to get %s of an empty sequence" % kind)

        def conc(vals):
            best, bi = vals[0], 0
            for i, v in enumerate(vals[1:], 1):
                c = T.s_lt(v, best) if kind == "argmin" else T.s_gt(v, best)
                best, bi = ite(c, v, best), ite(c, i, bi)
            return bi
        return reduce_general(a, axis, False, lambda sz, fn: reduce_binder(kind, sz, fn, "int"), conc, "int64")
    return g


np_argmin = argm("argmin")
np_argmax = argm("argmax")


def argsort_line(n, line):
    """numpy.argsort of one line: a permutation of range(n) (see binders.local_facts for its axioms)."""
    return binders.make(ctx(), "argsort", [((n,), line)], (), 1, "int")


def np_argsort(a, axis=-1, **kw):
    """Permutations ordering each line; nothing is said about ties except that equal data give equal indices."""
    a = asarray(a)
    axis = axis % a.ndim
    n = a.shape[axis]
    src = a.snap()
    if a.ndim == 1:
        f = argsort_line(n, src)
        r = mkarr((n,), lambda i: f(i), "int64")
    else:
        def build(*o):
            def line(t):
                j = list(o)
                j[axis] = t
                return src(*j)
            return argsort_line(n, line)(o[axis])
        la = LazyApp(a.shape, build)
        r = mkarr(a.shape, lambda *i: la(*i), "int64")
    r.meta = {"range": (0, n), "perm": a.ndim == 1}
    return r


def np_sort(a, axis=-1, **kw):
    a = asarray(a)
    ax = axis % a.ndim
    n = a.shape[ax]
    if isinstance(n, int) and 1 <= n <= 3:          # a comparison network says it all
        src = a.snap()

        def one(*o):
            v = [src(*(o[:ax] + (t,) + o[ax + 1:])) for t in range(n)]
            for p, q in ((0, 1), (1, 2), (0, 1)):
                if q < n:
                    v[p], v[q] = T.s_min(v[p], v[q]), T.s_max(v[p], v[q])
            r = v[n - 1]
            for t in range(n - 2, -1, -1):
                r = A.ite_val(T.s_eq(o[ax], t), v[t], r)
            return r
        return mkarr(a.shape, one, a.dtype)
    return opaque_axis("sort", a, axis)


def opaque_axis(kind, a, axis, scal=(), sort="real", key=()):
    """Opaque transformation of each 1-D line along an axis (same length), congruent in the line."""
    axis = axis % a.ndim
    src = a.snap()
    n = a.shape[axis]
    keep = [k for k in range(a.ndim) if k != axis]

    def build(*o):
        # o: all indices (outer + position along axis)
        def line(t):
            j = list(o)
            j[axis] = t
            return src(*j)
        return binders.make(ctx(), kind, [((n,), line)], scal, 1, sort, key)(o[axis])
    la = LazyApp(a.shape, build)
    return mkarr(a.shape, lambda *i: la(*i), a.dtype)


def opaque_array(kind, operands, shape, scal=(), dtype="float64", key=()):
    """Opaque function of whole arrays: result element = UF(kind; arrays, scalars, idx), congruent."""
    ops = [(o.shape, o.snap()) for o in operands]
    box = {}
    nd = len(shape)
    sc = [T.toreal_s(s) if T.kind(s) != "b" else s for s in scal]
    k = kind_of_dtype(dtype)

    def fn(*i):
        c = ctx()
        t = box.get("f")
        if t is None or t[0] not in c.scopes:
            f = binders.make(c, "opq:" + kind, ops, sc, nd, {"b": "bool", "i": "int", "u": "int"}.get(k, "real"), key)
            box["f"] = t = (c.scopes[-1], f)
        return t[1](*i)
    return mkarr(tuple(shape), fn, dtype)


def np_diff(a, n=1, axis=-1):
    a = asarray(a)
    if isinstance(n, int) and n > 1:
        return np_diff(np_diff(a, n - 1, axis), 1, axis)
    if n != 1:
        raise Unsupported("diff order")
    axis = axis % a.ndim
    src = a.snap()
    sh = list(a.shape)
    sh[axis] = T.s_max(T.s_sub(sh[axis], 1), 0)

    def fn(*i):
        j = list(i)
        j[axis] = T.s_add(i[axis], 1)
        return T.s_sub(src(*j), src(*i))
    return mkarr(tuple(sh), fn, a.dtype)


def np_shape(a):
    return asarray(a).shape


def np_size(a, axis=None):
    a = asarray(a)
    return shape_total(a.shape) if axis is None else a.shape[axis]


def np_linalg_norm(a):
    return T.fn_app("sqrt", np_sum(elementwise2("mul", asarray(a), asarray(a))))


SPLIT_START = z3.Function("split_start", *([z3.IntSort()] * 4))
SPLIT_OWNER = z3.Function("split_owner", *([z3.IntSort()] * 4))


def np_array_split(a, n):
    a = asarray(a)
    L = a.shape[0]
    if isinstance(n, Arr):
        n = n.at()
    q, r = T.s_floordiv(L, n), T.s_mod(L, n)
    symbolic = isinstance(n, Sym) or n > 16
    if symbolic and n <= 0:
        raise PyExc("ValueError", "number sections must be larger than 0.")
    if symbolic:
        # names for the length and the number of parts: the boundaries are recognised by their arguments
        L0, n0 = L, n
        if isinstance(L, Sym) and L.e.num_args():
            L = ctx().fresh_int("split_len", lambda app: [app == toz(L0)])
        if isinstance(n, Sym) and n.e.num_args():
            n = ctx().fresh_int("split_num", lambda app: [app == toz(n0)])

    def start(i):
        if symbolic:
            # parts of a contiguous partition, not empty unless there are more parts than elements: see engine.split_facts
            return mk(SPLIT_START(toz(L), toz(n), toz(i)))
        return T.s_add(T.s_mul(i, q), T.s_min(i, r))

    def elem(i):
        return A.basic_view(a, (A.ASlice(start(i), start(T.s_add(i, 1))),) + (slice(None),) * (a.ndim - 1))
    if not symbolic:
        if n <= 0:
            raise PyExc("ValueError", "number sections must be larger than 0.")
        return [elem(i) for i in range(n)]
    from .interp import SymList
    return SymList(n, elem)


def list_concat(a, b):
    from .interp import SymList

    def n_of(x):
        return x.n if isinstance(x, SymList) else len(x)

    def el(x, t):
        if isinstance(x, SymList):
            return x.elem(t)
        return pick(x, t, lambda: x[t])
    if isinstance(a, list) and not a:
        return b
    if isinstance(b, list) and not b:
        return a
    na, nb = n_of(a), n_of(b)

    def elem(t):
        c = T.s_lt(t, na)
        if c is True:
            return el(a, t)
        if c is False:
            return el(b, T.s_sub(t, na))
        return A.ite_val(c, el(a, t), el(b, T.s_sub(t, na)))
    return SymList(T.s_add(na, nb), elem)


def symlist_contains(sl, x):
    c = ctx()
    return binders.make(c, "any", [((sl.n,), lambda i: boolz(T.s_eq(sl.elem(i), x)))], (), 0, "bool")()
