"""Models of builtins and imported libraries."""
import os
from fractions import Fraction
import z3
from . import terms as T
from . import arrays as A
from . import npmodel as N
from . import binders
from .terms import Sym, PyExc, Unsupported, ite, s_and, s_or, s_not, mk, toz
from .arrays import Arr, mkarr, Compress, kind_of_dtype
from . import interp as I

LOCALS_MARK = object()


# ------------------------------------------------------------------------------------------ strings
class SStr(object):
    """Concatenation of literal pieces and decimal renderings of symbolic values."""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def sym_binop(self, op, o, rev):
        if op != "add":
            raise Unsupported("string operator " + op)
        return str_concat([o, self] if rev else [self, o])

    def sym_eq(self, o):
        return str_eq(self, o)

    def sym_getitem(self, idx):
        if I.__name__ and isinstance(idx, A.ASlice) and idx.stop is None and idx.step is None and \
                isinstance(idx.start, int) and idx.start < 0:
            k = -idx.start
            if len(self.parts) == 2 and isinstance(self.parts[0], str) and isinstance(self.parts[1], tuple) and \
                    self.parts[1][0] == "dec" and set(self.parts[0]) <= {"0"} and len(self.parts[0]) >= k - 1:
                v = self.parts[1][1]
                if v >= 0:
                    return SStr([("pad", k, T.s_mod(v, 10 ** k))])
        raise Unsupported("slice of a symbolic string")

    def sym_attr(self, name):
        if name == "split":
            return lambda *a: [SymOpaqueStr(), SymOpaqueStr(), SymOpaqueStr()]
        raise Unsupported("method %s of a symbolic string" % name)

    def sym_truth(self):
        return True

    def __repr__(self):
        return "SStr%r" % (self.parts,)


class SymOpaqueStr(object):
    def sym_binop(self, op, o, rev):
        return self

    def sym_truth(self):
        return True


def str_concat(parts):
    out = []
    for p in parts:
        if isinstance(p, SymOpaqueStr):
            return p
        ps = p.parts if isinstance(p, SStr) else (p,)
        for q in ps:
            if q == "":
                continue
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            else:
                out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def str_eq(a, b):
    pa = a.parts if isinstance(a, SStr) else ((a,) if isinstance(a, str) else None)
    pb = b.parts if isinstance(b, SStr) else ((b,) if isinstance(b, str) else None)
    if pa is None or pb is None:
        return False
    if len(pa) == len(pb):
        conds = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    break
            elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                if x[0] == "dec":
                    conds.append(T.s_eq(x[1], y[1]))
                elif x[1] == y[1]:
                    conds.append(T.s_eq(x[2], y[2]))
                else:
                    break
            else:
                break
        else:
            return s_and(*conds)
    raise Unsupported("comparison of symbolic strings")


def fmt_value(v, spec=""):
    if isinstance(v, (SStr, SymOpaqueStr)):
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, Sym):
        if v.k == "i":
            if spec in ("", "d"):
                return SStr([("dec", v)])
            if spec.startswith("0") and spec.rstrip("d")[1:].isdigit():
                return SStr([("padmin", int(spec.rstrip("d")), v)])
        return SymOpaqueStr()
    if isinstance(v, (int, bool)) and spec == "":
        return str(v)
    if isinstance(v, int) and spec:
        try:
            return format(v, spec)
        except ValueError:
            pass
    if isinstance(v, Fraction):
        return str(float(v))
    if v is None:
        return "None"
    return SymOpaqueStr()


def py_str(v=""):
    return fmt_value(v)


# ------------------------------------------------------------------------------------------ builtins
def py_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise PyExc("TypeError", "len() of unsized object")
        return x.shape[0]
    if isinstance(x, Compress):
        return N.compress_count(x)
    if isinstance(x, I.SymList):
        return x.n
    if isinstance(x, I.RangeVal):
        return x.length()
    if isinstance(x, (list, tuple, dict, str, set)):
        return len(x)
    if hasattr(x, "sym_len"):
        return x.sym_len()
    if x is None or T.is_num(x):
        raise PyExc("TypeError", "object has no len()")
    if isinstance(x, I.UserObj) and "__len__" in x.cls.attrs:
        return I.call(x.cls.attrs["__len__"], (x,))
    raise Unsupported("len of %r" % type(x))


def py_range(*a):
    a = [x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in a]
    for x in a:
        if not T.is_num(x) or T.kind(x) == "f":
            raise PyExc("TypeError", "object cannot be interpreted as an integer")
    if len(a) == 1:
        return I.RangeVal(0, a[0], 1)
    if len(a) == 2:
        return I.RangeVal(a[0], a[1], 1)
    return I.RangeVal(*a)


def py_prange(*a):
    r = py_range(*a)
    r.parallel = True
    return r


def scalar(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            return x.at()
        tot = N.shape_total(x.shape)
        if not isinstance(tot, Sym) and tot == 1:
            return x.at(*[0] * x.ndim)
        raise PyExc("TypeError", "only length-1 arrays can be converted to Python scalars")
    return x


def py_int(x=0, *a):
    x = scalar(x)
    if isinstance(x, str):
        try:
            return int(x, *a)
        except ValueError:
            raise PyExc("ValueError", "invalid literal for int()")
    if x is None or isinstance(x, (list, tuple)):
        raise PyExc("TypeError", "int() argument")
    if isinstance(x, float):
        raise PyExc("ValueError", "cannot convert float to integer")
    return T.s_trunc(x)


def py_float(x=0):
    x = scalar(x)
    if isinstance(x, str):
        try:
            return T.norm_conc(float(x))
        except ValueError:
            raise PyExc("ValueError", "could not convert string to float")
    if x is None or isinstance(x, (list, tuple)):
        raise PyExc("TypeError", "float() argument")
    return T.toreal_s(x)


def py_bool(x=False):
    if isinstance(x, Sym):
        return T.as_bool(x)
    return I.truth(x)


def py_abs(x):
    if isinstance(x, Arr):
        return N.np_abs(x)
    return T.s_abs(x)


def py_round(x, nd=None):
    x = scalar(x)
    if nd is not None and not (not isinstance(nd, Sym) and nd == 0):
        if not isinstance(x, Sym):
            return T.norm_conc(round(x, nd))
        raise Unsupported("round with digits")
    return T.s_round(x)


def py_minmax(mx):
    def g(*a, **kw):
        if kw:
            raise Unsupported("min/max with options")
        if len(a) == 1:
            if isinstance(a[0], Arr):
                return (N.np_max if mx else N.np_min)(a[0])
            if isinstance(a[0], I.SymList):
                return (N.np_max if mx else N.np_min)(N.asarray(a[0]))
            a = list(a[0])
            if not a:
                raise PyExc("ValueError", "min()/max() arg is an empty sequence")
        a = [scalar(x) for x in a]
        r = a[0]
        for v in a[1:]:
            r = (T.s_max if mx else T.s_min)(r, v)
        return r
    return g


def py_sum(x, start=0):
    if isinstance(x, (Arr, I.SymList)):
        return T.s_add(N.np_sum(N.asarray(x)), start)
    r = start
    for v in x:
        r = I.binop("add", r, v)
    return r


def py_enumerate(x, start=0):
    it = I.Interp(None).iter_of(x)
    if isinstance(it, I.SymIter):
        return I.SymIter(it.n, lambda t: (T.s_add(t, start), it.elem(t)))
    return [(i + start, v) for i, v in enumerate(it)]


def py_zip(*xs):
    its = [I.Interp(None).iter_of(x) for x in xs]
    if any(isinstance(i, I.SymIter) for i in its):
        if not all(isinstance(i, I.SymIter) for i in its):
            raise Unsupported("zip of symbolic and concrete sequences")
        n = its[0].n
        for i in its[1:]:
            n = T.s_min(n, i.n)
        return I.SymIter(n, lambda t: tuple(i.elem(t) for i in its))
    return [tuple(t) for t in zip(*its)]


def py_list(x=()):
    if isinstance(x, list):
        return list(x)
    return I.Interp(None).to_list(x)


def py_tuple(x=()):
    r = I.Interp(None).to_list(x)
    return tuple(r) if isinstance(r, list) else r


def py_isinstance(x, t):
    if isinstance(t, tuple):
        return any(py_isinstance(x, q) for q in t)
    if isinstance(t, N.DType):
        if t.name == "ndarray":
            return isinstance(x, Arr)
        return False
    if t is py_str:
        return isinstance(x, (str, SStr, SymOpaqueStr))
    if t is py_int:
        return T.is_num(x) and T.kind(x) in "ib"
    if t is py_float:
        return T.is_num(x) and T.kind(x) == "f"
    if t is py_bool:
        return T.is_num(x) and T.kind(x) == "b"
    if t is py_list:
        return isinstance(x, (list, I.SymList))
    if t is py_tuple:
        return isinstance(x, tuple)
    if t is py_dict:
        return isinstance(x, dict)
    if t is py_slice:
        return isinstance(x, (slice, A.ASlice))
    if isinstance(t, TypeMark):
        return t.test(x)
    if isinstance(t, I.UserClass):
        return isinstance(x, I.UserObj) and x.cls is t
    raise Unsupported("isinstance with %r" % (t,))


class TypeMark(object):
    def __init__(self, name, test, make=None):
        self.name, self.test, self.make = name, test, make

    def __call__(self, *a, **k):
        if self.make is None:
            raise Unsupported("constructor " + self.name)
        return self.make(*a, **k)

    def sym_attr(self, n):
        if self.name == "ndarray":
            f = {"flatten": lambda a, *x: N.flatten(a), "copy": lambda a: a.frozen(), "shape": None,
                 "astype": lambda a, d: N.astype(a, d)}.get(n)
            if f is not None:
                return f
        raise Unsupported("%s.%s" % (self.name, n))


def py_dict(*a, **k):
    return dict(*a, **k)


def py_slice(*a):
    if len(a) == 1:
        return A.ASlice(None, a[0])
    return A.ASlice(*a)


def py_sorted(x, reverse=False, key=None):
    x = py_list(x)
    if isinstance(x, I.SymList):
        raise Unsupported("sorted of a symbolic list")
    if any(isinstance(v, Sym) for v in x) or key is not None:
        if len(x) <= 1:
            return x
        if key is None and len(x) == 2:
            lo, hi = T.s_min(*x), T.s_max(*x)
            return [hi, lo] if reverse else [lo, hi]
        raise Unsupported("sorted of symbolic values")
    return sorted(x, reverse=reverse)


def py_any(x):
    if isinstance(x, (Arr, I.SymList)):
        return N.np_any(N.asarray(x))
    return s_or(*[T.as_bool(v) if T.is_num(v) else I.truth(v) for v in x])


def py_all(x):
    if isinstance(x, (Arr, I.SymList)):
        return N.np_all(N.asarray(x))
    return s_and(*[T.as_bool(v) if T.is_num(v) else I.truth(v) for v in x])


def py_map(f, *xs):
    its = [I.Interp(None).iter_of(x) for x in xs]
    if any(isinstance(i, I.SymIter) for i in its):
        if len(its) == 1:
            return I.SymIter(its[0].n, lambda t: I.call(f, (its[0].elem(t),)))
        raise Unsupported("map")
    return [I.call(f, v) for v in zip(*its)]


def py_print(*a, **k):
    return None


def py_type(x):
    return x.__class__ if not isinstance(x, (Sym, Arr)) else TypeMark("type", lambda y: True)


def py_hasattr(x, n):
    if isinstance(x, Arr):
        try:
            N.arr_attr(x, n)
            return True
        except Unsupported:
            return False
    raise Unsupported("hasattr")


def py_getattr(x, n, *d):
    if isinstance(x, I.RepoMod) and isinstance(n, str):
        return I.Interp(None).getattr(x, n)
    if isinstance(x, LibMod) and isinstance(n, str):
        return x.sym_attr(n)
    raise Unsupported("getattr")


def py_dir(x):
    if isinstance(x, I.RepoMod):
        return sorted(I.repo_module(x.name).env.vars)
    if isinstance(x, LibMod):
        import importlib
        return dir(importlib.import_module(x.name))
    raise Unsupported("dir")


def py_reversed(x):
    x = I.Interp(None).iter_of(x)
    if isinstance(x, I.SymIter):
        return I.SymIter(x.n, lambda t: x.elem(T.s_sub(T.s_sub(x.n, 1), t)))
    return x[::-1]


def py_set(x=()):
    return set(py_list(x))


def py_divmod(a, b):
    return (T.s_floordiv(a, b), T.s_mod(a, b))


def py_pow(a, b):
    return T.s_pow(a, b)


BUILTINS = {
    "len": py_len, "range": py_range, "int": py_int, "float": py_float, "bool": py_bool, "abs": py_abs,
    "round": py_round, "min": py_minmax(False), "max": py_minmax(True), "sum": py_sum, "enumerate": py_enumerate,
    "zip": py_zip, "list": py_list, "tuple": py_tuple, "dict": py_dict, "isinstance": py_isinstance, "str": py_str,
    "sorted": py_sorted, "any": py_any, "all": py_all, "map": py_map, "print": py_print, "type": py_type,
    "hasattr": py_hasattr, "getattr": py_getattr, "dir": py_dir, "reversed": py_reversed, "set": py_set,
    "slice": py_slice, "divmod": py_divmod, "pow": py_pow, "Ellipsis": Ellipsis, "locals": LOCALS_MARK,
    "True": True, "False": False, "None": None,
}
for _e in list(T.EXC_PARENTS):
    BUILTINS[_e] = I.ExcClass(_e)


# ------------------------------------------------------------------------------------------ native attributes
def native_attr(obj, name):
    if isinstance(obj, str):
        if name == "format":
            def fmt(*a, **k):
                return SymOpaqueStr() if any(not isinstance(x, (str, int)) for x in list(a) + list(k.values())) else obj.format(*a, **k)
            return fmt
        if name == "join":
            def jn(x):
                x = list(x)
                out = []
                for i, p in enumerate(x):
                    if i:
                        out.append(obj)
                    out.append(p)
                return str_concat(out)
            return jn
        m = getattr(obj, name, None)
        if m is None:
            raise PyExc("AttributeError", name)

        def call_(*a, **k):
            if any(isinstance(x, (Sym, SStr, SymOpaqueStr)) for x in a):
                raise Unsupported("string method with symbolic arguments")
            return m(*a, **k)
        return call_
    if isinstance(obj, list):
        if name == "append":
            def app(v):
                A.ctx().journal_obj(obj)
                obj.append(v)
            return app
        if name == "extend":
            def ext(v):
                A.ctx().journal_obj(obj)
                obj.extend(I.Interp(None).iter_of(v))
            return ext
        if name == "insert":
            def ins(i, v):
                A.ctx().journal_obj(obj)
                obj.insert(i, v)
            return ins
        if name == "copy":
            return lambda: list(obj)
        if name == "index":
            def idx(v):
                for i, x in enumerate(obj):
                    if I.truth(I.py_eq(x, v)):
                        return i
                raise PyExc("ValueError", "not in list")
            return idx
        if name == "pop":
            def pop(*a):
                A.ctx().journal_obj(obj)
                try:
                    return obj.pop(*a)
                except IndexError:
                    raise PyExc("IndexError", "pop from empty list")
            return pop
        if name == "reverse":
            def rev():
                A.ctx().journal_obj(obj)
                obj.reverse()
            return rev
        if name == "count":
            return lambda v: sum(1 for x in obj if I.truth(I.py_eq(x, v)))
        raise Unsupported("list." + name)
    if isinstance(obj, I.SymList):
        raise Unsupported("method %s of a symbolic list" % name)
    if isinstance(obj, dict):
        if name == "keys":
            return lambda: list(obj.keys())
        if name == "values":
            return lambda: list(obj.values())
        if name == "items":
            return lambda: list(obj.items())
        if name == "get":
            return lambda k, d=None: obj.get(k, d)
        if name == "copy":
            return lambda: dict(obj)
        if name == "pop":
            def dpop(k, *d):
                A.ctx().journal_obj(obj)
                return obj.pop(k, *d)
            return dpop
        raise Unsupported("dict." + name)
    if isinstance(obj, tuple):
        if name == "index":
            return lambda v: obj.index(v)
        raise Unsupported("tuple." + name)
    if isinstance(obj, set):
        raise Unsupported("set." + name)
    if T.is_num(obj):
        # numpy scalar methods
        if name in ("item", "copy"):
            return lambda *a: obj
        if name == "astype":
            return lambda d: A.cast(obj, N.norm_dtype(d))
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "is_integer":
            return lambda: T.s_eq(T.toreal_s(T.s_floor(obj)), obj)
        if name == "real":
            return obj
        raise PyExc("AttributeError", "'%s' object has no attribute '%s'" % (T.kind(obj), name))
    raise Unsupported("attribute " + name)


# ------------------------------------------------------------------------------------------ modules
class LibMod(object):
    def __init__(self, name, members):
        self.name, self.members = name, members

    def sym_attr(self, n):
        if n in self.members:
            v = self.members[n]
            return v() if isinstance(v, Thunk) else v
        return Unmodelled(self.name + "." + n)

    def __repr__(self):
        return "<lib %s>" % self.name


class Thunk(object):
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


class Unmodelled(object):
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        raise Unsupported("unmodelled library function " + self.name)

    def sym_attr(self, n):
        return Unmodelled(self.name + "." + n)


def dt(n):
    return N.DType(n)


NP = LibMod("numpy", {
    "float32": dt("float32"), "float64": dt("float64"), "float16": dt("float16"), "int16": dt("int16"),
    "int32": dt("int32"), "int64": dt("int64"), "int8": dt("int8"), "uint8": dt("uint8"), "uint16": dt("uint16"), "uint32": dt("uint32"),
    "complex64": dt("complex64"), "complex128": dt("complex128"), "bool_": dt("bool"), "double": dt("float64"),
    "ndarray": TypeMark("ndarray", lambda x: isinstance(x, Arr)),
    "integer": TypeMark("integer", lambda x: isinstance(x, Sym) and x.k == "i"),
    "floating": TypeMark("floating", lambda x: isinstance(x, Sym) and x.k == "f"),
    "pi": Thunk(N.PI), "newaxis": None, "inf": float("inf"), "nan": float("nan"),
    "zeros": N.np_zeros, "ones": N.np_ones, "empty": None, "full": N.np_full,
    "zeros_like": N.np_zeros_like, "ones_like": N.np_ones_like, "arange": N.np_arange, "linspace": N.np_linspace,
    "meshgrid": N.np_meshgrid, "tile": N.np_tile, "copy": N.np_copy, "array": N.np_array, "asarray": N.np_asarray,
    "ascontiguousarray": N.np_ascontiguousarray, "transpose": N.np_transpose, "moveaxis": N.np_moveaxis,
    "swapaxes": N.np_swapaxes, "expand_dims": N.np_expand_dims, "squeeze": N.np_squeeze, "flip": N.np_flip,
    "flipud": lambda a: N.np_flip(a, 0), "fliplr": lambda a: N.np_flip(a, 1), "roll": N.np_roll,
    "concatenate": N.np_concatenate, "vstack": N.np_vstack, "hstack": N.np_hstack, "dstack": N.np_dstack,
    "stack": N.np_stack, "pad": N.np_pad, "broadcast_to": N.np_broadcast_to, "reshape": lambda a, s, **k: N.reshape(N.asarray(a), s),
    "ravel": lambda a: N.flatten(N.asarray(a)),
    "log": N.mathfn("log"), "exp": N.mathfn("exp"), "sqrt": N.mathfn("sqrt"), "sin": N.mathfn("sin"),
    "cos": N.mathfn("cos"), "tan": N.mathfn("tan"), "sinh": N.mathfn("sinh"), "cosh": N.mathfn("cosh"),
    "tanh": N.mathfn("tanh"), "arctan": N.mathfn("arctan"), "arcsinh": N.mathfn("arcsinh"), "log2": N.mathfn("log2"),
    "arctan2": N.np_arctan2, "deg2rad": N.np_deg2rad, "rad2deg": N.np_rad2deg, "radians": N.np_deg2rad,
    "floor": N.np_floor, "ceil": N.np_ceil, "trunc": N.np_trunc, "round": N.np_round, "rint": N.np_round,
    "around": N.np_round, "abs": N.np_abs, "absolute": N.np_abs, "fabs": N.np_abs,
    "sign": N.np_sign, "square": N.np_square, "clip": N.np_clip, "minimum": N.np_minimum, "maximum": N.np_maximum,
    "power": N.np_power, "real": N.np_real, "imag": N.np_imag, "where": N.np_where,
    "sum": N.np_sum, "mean": N.np_mean, "min": N.np_min, "max": N.np_max, "amin": N.np_min, "amax": N.np_max,
    "any": N.np_any, "all": N.np_all, "median": N.np_median, "std": N.np_std, "var": N.np_var,
    "percentile": N.np_percentile, "argmin": N.np_argmin, "argmax": N.np_argmax, "argsort": N.np_argsort,
    "sort": N.np_sort, "diff": N.np_diff, "shape": N.np_shape, "size": N.np_size, "ndim": lambda a: N.asarray(a).ndim,
    "array_split": N.np_array_split, "unravel_index": N.np_unravel_index,
    "add": lambda a, b: N.elementwise2("add", a, b), "subtract": lambda a, b: N.elementwise2("sub", a, b),
    "multiply": lambda a, b: N.elementwise2("mul", a, b), "divide": lambda a, b: N.elementwise2("truediv", a, b),
    "logical_and": lambda a, b: N.elementwise2("and", a, b), "logical_or": lambda a, b: N.elementwise2("or", a, b),
    "logical_not": lambda a: N.elementwise1(lambda v: s_not(T.as_bool(v)), a, "bool"),
    "isscalar": lambda x: T.is_num(x), "float_": dt("float64"), "seterr": lambda **k: None,
    "less": lambda a, b: N.elementwise2("lt", a, b), "greater": lambda a, b: N.elementwise2("gt", a, b),
})


def np_empty(shape, dtype="float64", order=None):
    sh = N.as_shape(shape)
    d = N.norm_dtype(dtype) or "float64"
    f, _ = A.ctx().fresh_fun("empty", len(sh), kind_of_dtype(d))
    return mkarr(sh, f, d)


NP.members["empty"] = np_empty


def np_lstsq(a, b, rcond=None):
    """numpy.linalg.lstsq: its solution is an unspecified function of its arguments (the other results are not modelled)."""
    a, b = N.asarray(a), N.asarray(b)
    A.ctx().assumptions.add("numpy.linalg.lstsq is a deterministic function of its arguments")
    if b.ndim != 1 or a.ndim != 2:
        raise Unsupported("lstsq with several right-hand sides")
    return (N.opaque_array("lstsq", [a, b], (a.shape[1],), (), "float64"), None, None, None)


def np_svd(a, full_matrices=True, **kw):
    """numpy.linalg.svd: unspecified functions of the matrix."""
    a = N.asarray(a)
    if a.ndim != 2:
        raise Unsupported("svd of a stack")
    A.ctx().assumptions.add("numpy.linalg.svd is a deterministic function of its argument")
    m, n = a.shape
    k = T.s_min(m, n)
    f = (m, n) if full_matrices else (k, k)
    key = (str(full_matrices),)
    return tuple(N.opaque_array("svd." + nm, [a], sh, (), "float64", key) for nm, sh in (("u", (m, f[0])), ("s", (k,)), ("vh", (f[1], n))))


NP.members["linalg"] = LibMod("numpy.linalg", {"lstsq": np_lstsq, "svd": np_svd, "norm": N.np_linalg_norm})
NP.members["empty_like"] = lambda a, dtype=None: np_empty(a.shape, dtype or a.dtype)
del NP.members["newaxis"]
NP.members["newaxis"] = None

class OGrid(object):
    """np.ogrid / np.mgrid with integer slices."""

    def __init__(self, dense):
        self.dense = dense

    def sym_getitem(self, idx):
        idx = idx if isinstance(idx, tuple) else (idx,)
        axes, dt = [], "int64"
        for i in idx:
            if not isinstance(i, A.ASlice):
                raise Unsupported("ogrid index")
            st, k = 0 if i.start is None else i.start, 1 if i.step is None else i.step
            if any(T.kind(x) == "f" for x in (st, i.stop, k)):
                if not (isinstance(k, int) and k == 1):
                    raise Unsupported("ogrid of a step in floats")
                axes.append((st, k, T.s_max(T.s_ceil(T.s_sub(i.stop, st)), 0)))
                dt = "float64"
                continue
            axes.append((st, k, I.RangeVal(st, i.stop, k).length()))
        out = []
        nd = len(axes)
        for q, (st, k, n) in enumerate(axes):
            sh = tuple(m for _, _, m in axes) if self.dense else tuple(n if r == q else 1 for r in range(nd))
            out.append(mkarr(sh, lambda *ix, q=q, st=st, k=k: T.s_add(st, T.s_mul(k, ix[q])), dt))
        return out[0] if nd == 1 else tuple(out) if not self.dense else N.np_stack(out)


NP.members["ogrid"] = OGrid(False)
NP.members["mgrid"] = OGrid(True)


# -- scipy.signal.windows (symmetric form), by their documented formulas
def win_model(f):
    def w(M, *a, **k):
        if k.pop("sym", True) is not True:
            raise Unsupported("periodic window")
        return mkarr((T.s_max(M, 0),), lambda n: A.ite_val(T.s_le(M, 1), 1, f(M, n, *a, **k)), "float64")
    return w


def cos_window(coef):
    def f(M, n):
        u = T.s_sub(T.s_truediv(T.s_mul(2, n), T.s_sub(M, 1)), 1)
        v = coef[0]
        for k, a in enumerate(coef[1:]):
            v = T.s_add(v, T.s_mul(a, T.fn_app("cos", T.s_mul(T.s_mul(k + 1, u), N.PI()))))
        return v
    return win_model(f)


def _bartlett(M, n):
    h = T.s_truediv(T.s_mul(2, n), T.s_sub(M, 1))
    return A.ite_val(T.s_le(n, T.s_truediv(T.s_sub(M, 1), 2)), h, T.s_sub(2, h))


def _triang(M, n):
    m = T.s_min(n, T.s_sub(T.s_sub(M, 1), n))
    even = T.s_eq(T.s_mod(M, 2), 0)
    return A.ite_val(even, T.s_truediv(T.s_add(T.s_mul(2, m), 1), M), T.s_truediv(T.s_add(T.s_mul(2, m), 2), T.s_add(M, 1)))


def _parzen(M, n):
    x = T.s_abs(T.s_sub(n, T.s_truediv(T.s_sub(M, 1), 2)))
    q = T.s_truediv(x, T.s_truediv(M, 2))
    wa = T.s_mul(2, T.s_mul(T.s_mul(T.s_sub(1, q), T.s_sub(1, q)), T.s_sub(1, q)))
    wb = T.s_add(T.s_sub(1, T.s_mul(6, T.s_mul(q, q))), T.s_mul(6, T.s_mul(q, T.s_mul(q, q))))
    return A.ite_val(T.s_le(x, T.s_truediv(T.s_sub(M, 1), 4)), wb, wa)


def _gauss(M, n, std):
    x = T.s_sub(n, T.s_truediv(T.s_sub(M, 1), 2))
    return T.fn_app("exp", T.s_truediv(T.s_neg(T.s_mul(x, x)), T.s_mul(2, T.s_mul(std, std))))


F_ = Fraction
WINDOWS = LibMod("scipy.signal.windows", {
    "hann": cos_window([F_(1, 2), F_(1, 2)]), "hamming": cos_window([F_(54, 100), F_(46, 100)]),
    "blackman": cos_window([F_(42, 100), F_(1, 2), F_(8, 100)]),
    "nuttall": cos_window([F_(3635819, 10 ** 7), F_(4891775, 10 ** 7), F_(1365995, 10 ** 7), F_(106411, 10 ** 7)]),
    "bartlett": win_model(_bartlett), "triang": win_model(_triang), "parzen": win_model(_parzen),
    "boxcar": win_model(lambda M, n: 1), "gaussian": win_model(_gauss)})


MATH = LibMod("math", {"pi": Thunk(N.PI), "sqrt": N.mathfn("sqrt"), "sin": N.mathfn("sin"), "cos": N.mathfn("cos"),
                       "tan": N.mathfn("tan"), "exp": N.mathfn("exp"), "log": N.mathfn("log"),
                       "atan2": lambda a, b: T.fn_app("arctan2", a, b),
                       "floor": lambda x: T.s_floor(scalar(x)), "ceil": lambda x: T.s_ceil(scalar(x)), "fabs": py_abs,
                       "radians": N.np_deg2rad})


# -- scipy.ndimage
def bilinear(a, coords, order, mode, kw):
    """map_coordinates order=1: bilinear interpolation; exact inside the image."""
    src = a.snap()
    sh = a.shape
    nd = a.ndim
    cs = [N.asarray(c) for c in (coords if isinstance(coords, (list, tuple)) else
                                 [A.basic_view(coords, (k,) + (slice(None),) * (coords.ndim - 1)) for k in range(coords.shape[0])])]
    osh = N.broadcast_shapes(*[c.shape for c in cs])
    plans = [N.bplan(c.shape, osh) for c in cs]
    snaps = [c.snap() for c in cs]
    ndm = N.flat_meta(*cs)
    okey = (mode, str(order))
    outside = {}

    def interp(vals):
        """vals: coordinate values -> interpolated value (inside the range of every axis)"""
        fl = [T.s_floor(v) for v in vals]
        fr = [T.s_sub(v, f) for v, f in zip(vals, fl)]
        tot = Fraction(0)
        for corner in range(1 << nd):
            w = Fraction(1)
            idx = []
            skip = False
            for k in range(nd):
                if corner >> k & 1:
                    w = T.s_mul(w, fr[k])
                    if not isinstance(fr[k], Sym) and fr[k] == 0:
                        skip = True
                    idx.append(T.s_ceil(vals[k]))
                else:
                    w = T.s_mul(w, T.s_sub(1, fr[k]))
                    idx.append(fl[k])
            if not skip:
                tot = T.s_add(tot, T.s_mul(w, src(*idx)))
        inr = s_and(*[s_and(T.s_ge(v, 0), T.s_le(v, T.s_sub(n, 1))) for v, n in zip(vals, sh)])
        if inr is True:
            return tot
        c = A.ctx()
        if c.known(toz(inr)):
            return tot
        t = outside.get("f")
        if t is None or t[0] not in c.scopes:
            ks = [c.skolem("mc", z3.RealSort()) for _ in vals]
            f = binders.make(c, "opq:mapcoord", [(sh, src)], [k for k in ks], 0, "real", okey)()
            outside["f"] = t = (c.scopes[-1], ks, f)
        _, ks, f = t
        o = mk(z3.substitute(f.e, *[(k.e, T.toreal(toz(v))) for k, v in zip(ks, vals)]))
        return ite(inr, tot, o)
    d = a.dtype if kind_of_dtype(a.dtype) == "f" else a.dtype

    def fn(*i):
        return A.cast(interp([s(*N.papply(p[0], p[1], i)) for s, p in zip(snaps, plans)]), d)
    r = mkarr(osh, fn, d)
    if ndm is not None:
        gs = [c.meta["nd"][1] for c in cs]
        r.meta = {"nd": (ndm, A.Fn(lambda *i: A.cast(interp([g(*i) for g in gs]), d)))}
    return r


def map_coordinates(a, coords, output=None, order=3, mode="constant", cval=0, prefilter=True):
    a = N.asarray(a)
    n = len(coords) if isinstance(coords, (list, tuple)) else coords.shape[0]
    if n != a.ndim:
        raise PyExc("RuntimeError", "invalid shape for coordinate array")
    if order == 1:
        return bilinear(a, coords, order, mode, {})
    cs = [N.asarray(c) for c in (coords if isinstance(coords, (list, tuple)) else
                                 [A.basic_view(coords, (k,) + (slice(None),) * (coords.ndim - 1)) for k in range(n)])]
    osh = N.broadcast_shapes(*[c.shape for c in cs])
    plans = [N.bplan(c.shape, osh) for c in cs]
    snaps = [c.snap() for c in cs]
    box = {}
    src, sh = a.snap(), a.shape

    def val(vals):
        c = A.ctx()
        t = box.get("f")
        if t is None or t[0] not in c.scopes:
            ks = [c.skolem("mc", z3.RealSort()) for _ in vals]
            f = binders.make(c, "opq:mapcoord", [(sh, src)], [k for k in ks], 0, "real", (mode, str(order)))()
            box["f"] = t = (c.scopes[-1], ks, f)
        _, ks, f = t
        return mk(z3.substitute(f.e, *[(k.e, T.toreal(toz(v))) for k, v in zip(ks, vals)]))
    r = mkarr(osh, lambda *i: A.cast(val([s(*N.papply(p[0], p[1], i)) for s, p in zip(snaps, plans)]), a.dtype), a.dtype)
    ndm = N.flat_meta(*cs)
    if ndm is not None:
        gs = [c.meta["nd"][1] for c in cs]
        r.meta = {"nd": (ndm, A.Fn(lambda *i: A.cast(val([g(*i) for g in gs]), a.dtype)))}
    return r


def keyparts(*vals, **kw):
    """Split option values into static key parts and scalar terms."""
    key, sc = [], []
    for v in list(vals) + [kw[k] for k in sorted(kw)]:
        if isinstance(v, (tuple, list)):
            k2, s2 = keyparts(*v)
            key.append(("t", k2))
            sc += s2
        elif T.is_num(v) and not isinstance(v, bool):
            key.append("n")
            sc.append(v)
        else:
            key.append(repr(v))
    return tuple(key), sc


def opaque_same_shape(name, npos=1):
    """Library filter: same shape, congruent in the array and the parameters."""
    def f(a, *args, **kw):
        a = N.asarray(a)
        kw.pop("output", None)
        arrs = [a] + [x for x in args if isinstance(x, Arr)] + [kw[k] for k in sorted(kw) if isinstance(kw[k], Arr)]
        rest = ["arr" if isinstance(x, Arr) else x for x in args]
        kws = {k: ("arr" if isinstance(v, Arr) else v) for k, v in kw.items()}
        key, sc = keyparts(*rest, **kws)
        return N.opaque_array(name, arrs, a.shape, sc, a.dtype, (key, tuple(sorted(kws))))
    return f


def is_integral(x):
    if not isinstance(x, Sym):
        return T.norm_conc(x) == int(x)
    if x.k != "f":
        return True
    return A.ctx().known(z3.IsInt(x.e))


def ndi_shift(a, shift, output=None, order=3, mode="constant", cval=0.0, prefilter=True):
    a = N.asarray(a)
    if isinstance(shift, Arr):
        shift = N.tolist(shift)
    if T.is_num(shift):
        shift = [shift] * a.ndim
    if mode == "nearest" and all(is_integral(x) for x in shift):
        # a spline evaluated at its own samples: an exact translation with the edge replicated
        A.ctx().assumptions.add("scipy.ndimage.shift by whole pixels, mode nearest, is an exact translation")
        src, sh = a.snap(), a.shape
        off = [T.s_floor(x) for x in shift]
        return mkarr(sh, lambda *i: src(*[T.s_min(T.s_max(T.s_sub(k, o), 0), T.s_sub(n, 1)) for k, o, n in zip(i, off, sh)]), a.dtype)
    key, sc = keyparts(order, mode)
    return N.opaque_array("shift", [a], a.shape, list(shift) + sc, a.dtype, (key, len(shift)))


NDI = LibMod("scipy.ndimage", {
    "map_coordinates": map_coordinates, "shift": ndi_shift,
    "gaussian_filter": opaque_same_shape("gaussian_filter"), "median_filter": opaque_same_shape("median_filter"),
    "gaussian_filter1d": opaque_same_shape("gaussian_filter1d"), "uniform_filter1d": opaque_same_shape("uniform_filter1d"),
    "uniform_filter": opaque_same_shape("uniform_filter"), "convolve": opaque_same_shape("convolve"),
    "binary_dilation": None, "rotate": None,
})


def binary_dilation(a, structure=None, iterations=1, **kw):
    """Exact for the default cross-shaped structuring element with one iteration, 1-D/2-D; opaque otherwise."""
    a = N.asarray(a)
    src = a.snap()
    sh = a.shape
    if structure is not None or kw:
        arrs = [a] + ([structure] if isinstance(structure, Arr) else [])
        r = N.opaque_array("binary_dilation", arrs, sh, [iterations], "bool", (repr(type(structure)), tuple(sorted(kw))))
        s2 = r.snap()
        # dilation is extensive when the structuring element contains its centre (the NumPy constants used here do)
        return mkarr(sh, lambda *i: s2(*i), "bool")

    def one(f):
        def g(*i):
            c = [T.as_bool(f(*i))]
            for k in range(len(sh)):
                for dlt in (-1, 1):
                    j = list(i)
                    j[k] = T.s_add(i[k], dlt)
                    inr = s_and(T.s_ge(j[k], 0), T.s_lt(j[k], sh[k]))
                    if inr is not False:
                        jj = list(j)
                        c.append(s_and(inr, T.as_bool(f(*jj))))
            return s_or(*c)
        return A.Fn(g)
    if isinstance(iterations, Sym):
        if a.ndim == 1:
            # positions within distance `iterations` of a true element
            def fn(i):
                w = binders.make(A.ctx(), "any", [((sh[0],), lambda t: s_and(T.as_bool(src(t)), T.s_le(T.s_abs(T.s_sub(t, i)), iterations)))],
                                 (), 0, "bool")()
                return w
            return mkarr(sh, fn, "bool")
        return N.opaque_array("binary_dilation", [a], sh, [iterations], "bool")
    if iterations < 1 or iterations > 3:
        return N.opaque_array("binary_dilation", [a], sh, [iterations], "bool")
    f = src
    for _ in range(iterations):
        f = one(f)
    return mkarr(sh, f, "bool")


NDI.members["binary_dilation"] = binary_dilation
NDI.members["rotate"] = Unmodelled("scipy.ndimage.rotate")


class WarnCtx(object):
    def enter(self):
        return self

    def exit(self):
        pass


WARNINGS = LibMod("warnings", {"warn": lambda *a, **k: None, "catch_warnings": lambda *a, **k: WarnCtx(),
                               "simplefilter": lambda *a, **k: None, "filterwarnings": lambda *a, **k: None})
MP = LibMod("multiprocessing", {"cpu_count": lambda: A.ctx().fresh_int("ncpu", lambda app: [app >= 1])})


class ParallelObj(object):
    """joblib.Parallel: the results are those of the calls, in order (assumed contract)."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, calls):
        if isinstance(calls, I.SymList):
            el = calls.elem
            r = I.SymList(calls.n, lambda t: run_delayed(el(t)))
            if calls.grid:
                n1, n2, el2 = calls.grid
                r.grid = (n1, n2, lambda i, j: run_delayed(el2(i, j)))
            return r
        it = I.Interp(None).iter_of(calls)
        if isinstance(it, I.SymIter):
            return I.SymList(it.n, lambda t: run_delayed(it.elem(t)))
        return [run_delayed(c) for c in it]


class Delayed(object):
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k


def run_delayed(d):
    if not isinstance(d, Delayed):
        raise Unsupported("Parallel over something else than delayed calls")
    return I.call(d.f, d.a, d.k)


JOBLIB = LibMod("joblib", {"Parallel": ParallelObj, "delayed": lambda f: (lambda *a, **k: Delayed(f, a, k))})


# -- scipy.interpolate
class RBS(object):
    """RectBivariateSpline with kx = ky = 1: bilinear between neighbouring grid lines, clamped to the grid range."""

    def __init__(self, x, y, z, kx=3, ky=3, **kw):
        self.x, self.y, self.z = N.asarray(x), N.asarray(y), N.asarray(z)
        self.kx, self.ky = kx, ky
        for ax in (self.x, self.y):
            if (ax.meta or {}).get("where"):
                end_hints(ax.meta["where"]["n"])
        if not N.dim_eq(self.x.shape[0], self.z.shape[0]):
            raise PyExc("ValueError", "x dimension of z must have same number of elements as x")
        if not N.dim_eq(self.y.shape[0], self.z.shape[1]):
            raise PyExc("ValueError", "y dimension of z must have same number of elements as y")
        if not (self.x.shape[0] > kx) or not (self.y.shape[0] > ky):
            raise PyExc("ValueError", "too few grid lines for the spline degree")

    def sym_attr(self, n):
        if n == "ev":
            return self.ev
        raise Unsupported("RectBivariateSpline." + n)

    def ev(self, xi, yi):
        xi, yi = N.asarray(xi), N.asarray(yi)
        if self.kx != 1 or self.ky != 1:
            raise Unsupported("spline of degree other than 1")
        lx, ly = locator(self.x), locator(self.y)
        z = grid_access(self.z, (self.x, self.y))
        osh = N.broadcast_shapes(xi.shape, yi.shape)
        fx, fy = xi.snap(), yi.snap()

        def val(a, b):
            (i0, i1, u), (j0, j1, v) = lx(a), ly(b)
            return mix(lambda: mix(lambda: z(i0, j0), lambda: z(i0, j1), v), lambda: mix(lambda: z(i1, j0), lambda: z(i1, j1), v), u)
        r = mkarr(osh, lambda *i: val(fx(*i), fy(*i)), "float64")
        nd = N.flat_meta(xi, yi)
        if nd is not None:
            gx, gy = xi.meta["nd"][1], yi.meta["nd"][1]
            r.meta = {"nd": (nd, A.Fn(lambda *i: val(gx(*i), gy(*i))))}
        return r


def mix(p, q, w):
    if not isinstance(w, Sym) and w == 0:
        return p()
    return T.s_add(T.s_mul(T.s_sub(1, w), p()), T.s_mul(w, q()))


class GridPos(object):
    """A grid line of a selection of positions, named by its position (kept) instead of its rank."""

    def __init__(self, pos, w):
        self.pos, self.w = pos, w


def grid_access(z, axes):
    """Element access by grid line; the grid lines of a selection are named by position."""
    src = z.snap()
    g = (z.meta or {}).get("gather")

    def acc(*ix):
        if g is not None and isinstance(ix[g[0]], GridPos) and ix[g[0]].w is g[1]:
            j = list(ix)
            j[g[0]] = ix[g[0]].pos
            ix = [k.w["rank"](k.pos) if isinstance(k, GridPos) else k for k in j]
            return g[2](*ix)
        return src(*[k.w["rank"](k.pos) if isinstance(k, GridPos) else k for k in ix])
    return acc


def known(x):
    return A.ctx().known(x.e) if isinstance(x, Sym) else bool(x)


def end_hints(n):
    A.ctx().hints += [x for x in (T.toz(0), T.toz(T.s_sub(n, 1))) if not any(x.eq(h) for h in A.ctx().hints)]


def kept_neighbours(w, v):
    """Nearest kept positions at or below and at or above v (-1 and n when there is none)."""
    n, cond = w["n"], w["cond"]
    end_hints(n)
    lo = N.np_max(mkarr((n,), lambda k: ite(s_and(T.s_le(k, v), T.as_bool(cond(k))), k, -1), "int64"))
    hi = N.np_min(mkarr((n,), lambda k: ite(s_and(T.s_ge(k, v), T.as_bool(cond(k))), k, n), "int64"))
    return scalar(lo), scalar(hi)


def locator(ax, strict=False):
    """coordinate -> (lower grid line, upper grid line, weight of the upper one)"""
    m = ax.meta or {}
    n = ax.shape[0]
    if m.get("affine"):
        st, k = m["affine"]

        def loc(v):
            if k == 1 and T.kind(v) in "ib" and T.kind(st) in "ib":       # on a grid line
                u = T.s_sub(v, st)
                if not (known(T.s_ge(u, 0)) and known(T.s_lt(u, n))):
                    u = T.s_min(T.s_max(u, 0), T.s_sub(n, 1))
                return u, u, 0
            u = T.s_truediv(T.s_sub(v, st), k)
            u = T.s_min(T.s_max(u, 0), T.s_sub(n, 1))
            lo = T.s_floor(u)
            return lo, T.s_min(T.s_add(lo, 1), T.s_sub(n, 1)), T.s_sub(u, lo)
        return loc
    if m.get("where"):
        w = m["where"]
        N_ = w["n"]

        def loc(v):
            a, b = kept_neighbours(w, v)
            if not strict and not (known(w["cond"](0)) and known(T.s_ge(v, 0))
                                   and known(w["cond"](T.s_sub(N_, 1))) and known(T.s_lt(v, N_))):
                a, b = ite(a < 0, b, a), ite(T.s_ge(b, N_), a, b)
            wt = ite(T.s_eq(a, b), Fraction(0), T.s_truediv(T.s_sub(v, a), T.s_sub(b, a)))
            return GridPos(a, w), GridPos(b, w), wt
        return loc
    if not isinstance(n, Sym):
        raise Unsupported("spline on a concrete irregular grid")
    raise Unsupported("spline on an unstructured grid")


class Interp1d(object):
    """interp1d (linear): between the neighbouring abscissae; ValueError outside their range."""

    def __init__(self, x, y, kind="linear", axis=-1, **kw):
        self.x, self.y = N.asarray(x), N.asarray(y)
        if kind != "linear" or kw or self.y.ndim != 1:
            raise Unsupported("interp1d other than linear in one dimension")
        if not N.dim_eq(self.x.shape[0], self.y.shape[0]):
            raise PyExc("ValueError", "x and y arrays must be equal in length along interpolation axis.")

    def __call__(self, q):
        q = N.asarray(q)
        loc, z = locator(self.x, True), grid_access(self.y, (self.x,))
        m = self.x.meta or {}
        n = self.x.shape[0]
        qf = q.snap()
        c = A.ctx()
        wq = (q.meta or {}).get("where")
        if wq is not None:
            p = c.fresh_int("q")
            dom, v = s_and(p >= 0, p < wq["n"], T.as_bool(wq["cond"](p))), p
        else:
            ks = [c.fresh_int("q") for _ in q.shape]
            dom, v = s_and(*[s_and(k >= 0, k < s) for k, s in zip(ks, q.shape)]), qf(*ks)
        if m.get("where"):
            w = m["where"]
            ends = [w["cond"](0), w["cond"](T.s_sub(w["n"], 1))]
            inr = s_or(s_not(dom), s_and(T.s_ge(v, 0), T.s_lt(v, w["n"])))
            a = b = None
            if all(x is True or isinstance(x, Sym) and c.known(x.e) for x in ends) and (inr is True or isinstance(inr, Sym) and c.known(inr.e)):
                ok = True                   # both ends are kept
            else:
                a, b = kept_neighbours(w, v)
                ok = s_and(T.s_ge(a, 0), T.s_lt(b, w["n"]))
        else:
            st, k = m["affine"]
            ok = s_and(T.s_ge(T.s_truediv(T.s_sub(v, st), k), 0), T.s_le(T.s_truediv(T.s_sub(v, st), k), T.s_sub(n, 1)))
        good = s_or(s_not(dom), ok)
        if isinstance(good, Sym):
            if not c.known(good.e):
                if not Sym(c.fresh_bool("interp_ok").e):
                    c.assume(T.toz(s_and(dom, s_not(ok))))
                    raise PyExc("ValueError", "A value in x_new is outside the interpolation range.")
        elif not good:
            raise PyExc("ValueError", "A value in x_new is outside the interpolation range.")

        def val(v):
            i, j, w = loc(v)
            return mix(lambda: z(i), lambda: z(j), w)
        r = mkarr(q.shape, lambda *i: val(qf(*i)), "float64")
        r.meta = {"of_where": (wq, A.Fn(val))} if wq is not None else None
        return r


INTERP = LibMod("scipy.interpolate", {"RectBivariateSpline": RBS, "interp1d": Interp1d})
SIGNAL = LibMod("scipy.signal", {"windows": WINDOWS, "savgol_filter": opaque_same_shape("savgol_filter")})
FFT = LibMod("numpy.fft", {})
SCIPY = LibMod("scipy", {"ndimage": NDI, "interpolate": INTERP, "signal": SIGNAL})
OSPATH = LibMod("os.path", {})
OS = LibMod("os", {"path": OSPATH})


def jit_dec(*a, **k):
    return a[0] if a and callable(a[0]) else (lambda f: f)


def cuda_grid(n):
    c = A.ctx()
    ids = getattr(c, "cuda_ids", None)
    if ids is None:
        raise Unsupported("cuda.grid outside a kernel contract")
    return tuple(ids[:n]) if n > 1 else ids[0]


CUDA = LibMod("numba.cuda", {"grid": cuda_grid, "jit": jit_dec, "is_available": lambda: A.ctx().fresh_bool("gpu")})
NUMBA = LibMod("numba", {"jit": jit_dec, "njit": jit_dec, "prange": py_prange, "cuda": CUDA, "float32": dt("float32"),
                         "int32": dt("int32")})

MODULES = {"numpy": NP, "math": MATH, "scipy": SCIPY, "scipy.ndimage": NDI, "scipy.interpolate": INTERP,
           "scipy.signal": SIGNAL, "scipy.signal.windows": WINDOWS, "warnings": WARNINGS, "multiprocessing": MP, "joblib": JOBLIB, "numba": NUMBA,
           "numba.cuda": CUDA, "numpy.fft": FFT, "scipy.fft": LibMod("scipy.fft", {}), "os": OS, "os.path": OSPATH,
           "time": LibMod("time", {}), "timeit": LibMod("timeit", {}), "sys": LibMod("sys", {"stdout": None}),
           "platform": LibMod("platform", {})}
NP.members["fft"] = FFT


def get_module(name, interp):
    if name.startswith("algotom"):
        return I.RepoMod(name)
    m = MODULES.get(name)
    return m if m is not None else LibMod(name, {})


def get_member(mod, name, interp):
    full = mod + "." + name
    if full in MODULES:
        return MODULES[full]
    m = MODULES.get(mod)
    if m is None and "." in mod and mod.rsplit(".", 1)[0] in MODULES:
        m = MODULES[mod.rsplit(".", 1)[0]].sym_attr(mod.rsplit(".", 1)[1])
    if m is None or not hasattr(m, "sym_attr"):
        return Unmodelled(full)
    return m.sym_attr(name)


def opaque_to_shape(name, shape, arrs, scal=(), key=(), dtype="float64"):
    return N.opaque_array(name, arrs, shape, scal, dtype, key)


from . import cplx   # noqa
cplx.install(__import__("sys").modules[__name__])
NP.members["polyfit"] = cplx.polyfit
NP.members["errstate"] = lambda **k: WarnCtx()


def pearsonr(x, y):
    x, y = N.asarray(x), N.asarray(y)
    A.ctx().assumptions.add("scipy.stats.pearsonr is a deterministic function of its arguments")
    return (N.opaque_array("pearsonr", [x, y], (), (), "float64").at(), A.ctx().fresh_real("pvalue"))


MODULES["scipy.stats"] = SCIPY.members["stats"] = LibMod("scipy.stats", {"pearsonr": pearsonr})
