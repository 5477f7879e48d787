"""Symbolic n-dimensional arrays: element functions over symbolic shapes, buffers with ownership, views."""
import numpy as _np
from fractions import Fraction
import z3
from . import terms as T
from .terms import Sym, PyExc, Unsupported, ite, s_and, s_or, s_not, mk, toz


def ctx():
    return T.CTX


class Fn(object):
    """Memoised element function (index tuple -> scalar)."""
    __slots__ = ("f", "cache")

    def __init__(self, f):
        self.f = f
        self.cache = {}

    def __call__(self, *idx):
        key = tuple(i if not isinstance(i, Sym) else ("s", i.e.get_id()) for i in idx)
        hit = self.cache.get(key)
        c = T.CTX
        if hit is not None and (c is None or hit[2] in c.scopes):
            return hit[0]
        v = self.f(*idx)
        self.cache[key] = (v, idx, c.scopes[-1] if c is not None else 0)
        return v


class Buf(object):
    __slots__ = ("fn", "shape", "dtype", "owner", "log", "uid", "name", "alias_of", "fn0")
    _n = [0]

    def __init__(self, shape, fn, dtype, owner=None, name=None):
        self.shape = tuple(shape)
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.fn0 = self.fn
        self.dtype = dtype
        self.owner = owner
        self.log = []
        Buf._n[0] += 1
        self.uid = Buf._n[0]
        self.name = name
        self.alias_of = None


def rtype(*ds):
    ds = [d for d in ds if d is not None]
    if "object" in ds:
        return "object"
    return str(_np.result_type(*[_np.dtype(d) for d in ds]))


def kind_of_dtype(d):
    if d == "object":
        return "O"
    return _np.dtype(d).kind     # b i u f c


def dtype_of_scalar(v):
    k = T.kind(v)
    return {"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}[k]


_WRAP = {"uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "int8": (8, True),
         "int16": (16, True), "int32": (32, True)}


def wrap_int(v, dtype):
    if dtype not in _WRAP:
        return v
    bits, signed = _WRAP[dtype]
    m = 1 << bits
    lo = -(m >> 1) if signed else 0
    hi = lo + m - 1
    if not isinstance(v, Sym):
        return (v - lo) % m + lo
    inr = s_and(v >= lo, v <= hi)
    if ctx().known(toz(inr)):
        return v
    return ite(inr, v, T.s_mod(v - lo, m) + lo)


def cast(v, dtype):
    """Value of scalar v stored with the given dtype."""
    if dtype is None or dtype == "object":
        return v
    k = kind_of_dtype(dtype)
    if isinstance(v, complex) or not T.is_num(v):
        if k == "c":
            return v
        raise Unsupported("cast of %r to %s" % (type(v), dtype))
    vk = T.kind(v)
    if k == "b":
        return T.as_bool(v)
    if k in "iu":
        if vk == "b":
            return ite(v, 1, 0) if isinstance(v, Sym) else int(v)
        if vk == "f":
            v = T.s_trunc(v)
        return wrap_int(v, dtype)
    if k == "f":
        if vk == "b":
            return ite(v, Fraction(1), Fraction(0)) if isinstance(v, Sym) else Fraction(int(v))
        if vk == "i":
            return T.toreal_s(v)
        return T.norm_conc(v)
    return v


class Arr(object):
    """View of a buffer.  sel[axis of buffer] = ('fix', i) | ('aff', view_axis, start, step)."""
    __array_priority__ = 2000

    def __init__(self, buf, shape=None, sel=None):
        self.buf = buf
        if shape is None:
            shape = buf.shape
            sel = None
        self._shape = tuple(shape)
        self.sel = sel          # None = identity
        self.meta = None        # optional structural information (e.g. WhereIdx)

    # -- basic attributes
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def _vm(self, idx):
        if self.sel is None:
            return idx
        out = []
        for s in self.sel:
            if s[0] == "fix":
                out.append(s[1])
            else:
                _, ax, st, step = s
                if not isinstance(st, Sym) and st == 0 and not isinstance(step, Sym) and step == 1:
                    out.append(idx[ax])
                elif not isinstance(step, Sym) and step == 1:
                    out.append(T.s_add(st, idx[ax]))
                else:
                    out.append(T.s_add(st, T.s_mul(step, idx[ax])))
        return tuple(out)

    def at(self, *idx):
        if len(idx) != len(self._shape):
            raise Unsupported("at: rank %d given %d" % (len(self._shape), len(idx)))
        return self.buf.fn(*self._vm(idx))

    def snap(self):
        """Element function frozen at this moment."""
        fn = self.buf.fn
        if self.sel is None:
            return fn
        return lambda *idx: fn(*self._vm(idx))

    def frozen(self):
        """Independent immutable copy (used by specifications)."""
        a = mkarr(self._shape, self.snap(), self.dtype)
        a.meta = self.meta
        return a

    def __repr__(self):
        return "Arr(shape=%r,%s)" % (self._shape, self.dtype)

    def __len__(self):
        if not self._shape:
            raise PyExc("TypeError", "len() of unsized object")
        n = self._shape[0]
        if isinstance(n, Sym):
            raise Unsupported("native len of symbolic array")
        return n

    def __bool__(self):
        raise PyExc("ValueError", "truth value of an array is ambiguous")

    __hash__ = object.__hash__

    def _bin(self, op, o, rev=False):
        from . import npmodel
        return npmodel.elementwise2(op, o, self) if rev else npmodel.elementwise2(op, self, o)

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("sub", o)
    def __rsub__(self, o): return self._bin("sub", o, True)
    def __mul__(self, o): return self._bin("mul", o)
    def __rmul__(self, o): return self._bin("mul", o, True)
    def __truediv__(self, o): return self._bin("truediv", o)
    def __rtruediv__(self, o): return self._bin("truediv", o, True)
    def __floordiv__(self, o): return self._bin("floordiv", o)
    def __rfloordiv__(self, o): return self._bin("floordiv", o, True)
    def __mod__(self, o): return self._bin("mod", o)
    def __rmod__(self, o): return self._bin("mod", o, True)
    def __pow__(self, o): return self._bin("pow", o)
    def __rpow__(self, o): return self._bin("pow", o, True)
    def __lt__(self, o): return self._bin("lt", o)
    def __le__(self, o): return self._bin("le", o)
    def __gt__(self, o): return self._bin("gt", o)
    def __ge__(self, o): return self._bin("ge", o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin("eq", o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin("ne", o)

    def __and__(self, o): return self._bin("and", o)
    def __rand__(self, o): return self._bin("and", o, True)
    def __or__(self, o): return self._bin("or", o)
    def __ror__(self, o): return self._bin("or", o, True)

    def __neg__(self):
        from . import npmodel
        return npmodel.elementwise1(T.s_neg, self, self.dtype if kind_of_dtype(self.dtype) != "b" else "int64")

    def __pos__(self):
        return self.frozen()

    def __invert__(self):
        from . import npmodel
        return npmodel.elementwise1(lambda v: s_not(v), self, "bool")

    def __abs__(self):
        from . import npmodel
        return npmodel.elementwise1(T.s_abs, self, self.dtype)


def mkarr(shape, fn, dtype="float64", owner=None, name=None):
    return Arr(Buf(shape, fn, dtype, owner, name))


def const_arr(shape, v, dtype):
    v = cast(v, dtype)
    return mkarr(shape, lambda *idx: v, dtype)


def is_arr(x):
    return isinstance(x, Arr)


# ------------------------------------------------------------------ index normalisation (eager: may fork)
def norm_int(i, n):
    """Python/NumPy scalar index -> non-negative index; raises IndexError on the paths where it is out."""
    if isinstance(i, bool):
        i = int(i)
    if T.kind(i) == "f":
        raise PyExc("IndexError", "only integers, slices ... are valid indices")
    if not isinstance(i, Sym):
        if i >= 0:
            if i < n:
                return i
            raise PyExc("IndexError", "index out of bounds")
        if T.s_add(n, i) >= 0:
            return T.s_add(n, i)
        raise PyExc("IndexError", "index out of bounds")
    if i >= 0:
        if i < n:
            return i
        raise PyExc("IndexError", "index out of bounds")
    j = T.s_add(i, n)
    if j >= 0:
        return j
    raise PyExc("IndexError", "index out of bounds")


def _bound(v, n, default):
    if v is None:
        return default
    if T.kind(v) == "f":
        raise PyExc("TypeError", "slice indices must be integers")
    if isinstance(v, bool):
        v = int(v)
    if v >= 0:
        return v if v <= n else n
    w = T.s_add(v, n)
    return w if w >= 0 else 0


def norm_slice(sl, n):
    """-> (start, length, step); step is concrete or a symbolic positive integer."""
    start, stop, step = sl.start, sl.stop, sl.step
    if step is None:
        step = 1
    if isinstance(step, Sym):
        if not (step > 0):
            raise Unsupported("symbolic non-positive step")
    elif step == 0:
        raise PyExc("ValueError", "slice step cannot be zero")
    if isinstance(step, Sym) or step > 0:
        a = _bound(start, n, 0)
        b = _bound(stop, n, n)
        if not (b > a):
            return a, 0, step
        d = T.s_sub(b, a)
        if not isinstance(step, Sym) and step == 1:
            return a, d, 1
        return a, T.s_floordiv(T.s_add(T.s_sub(d, 1), step), step), step
    # negative step
    if start is None:
        a = T.s_sub(n, 1)
    else:
        if start >= 0:
            a = start if start < n else T.s_sub(n, 1)
        else:
            a = T.s_add(start, n)
            if not (a >= 0):
                a = -1
    if stop is None:
        b = -1
    else:
        if stop >= 0:
            b = stop if stop < n else T.s_sub(n, 1)
        else:
            b = T.s_add(stop, n)
            if not (b >= 0):
                b = -1
    if not (a > b):
        return 0, 0, step
    d = T.s_sub(a, b)
    if step == -1:
        return a, d, -1
    return a, T.s_floordiv(T.s_add(T.s_sub(d, 1), -step), -step), step


class ASlice(object):
    """Slice with symbolic bounds (native slice objects also accepted)."""
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step


def is_slice(x):
    return isinstance(x, (slice, ASlice))


def expand_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis and
                 not (is_arr(i) and i.dtype == "bool"))
    n_real += sum(i.ndim for i in idx if is_arr(i) and i.dtype == "bool")
    if any(i is Ellipsis for i in idx):
        k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
        idx = idx[:k] + (slice(None),) * (a.ndim - n_real) + idx[k + 1:]
    elif n_real < a.ndim:
        idx = idx + (slice(None),) * (a.ndim - n_real)
    if n_real > a.ndim:
        raise PyExc("IndexError", "too many indices for array")
    return idx


def basic_view(a, idx):
    """Basic indexing: idx already expanded, contains ints / slices / None."""
    base = a.sel
    if base is None:
        base = [("aff", k, 0, 1) for k in range(a.ndim)]
    new_shape = []
    # per old view axis: ('fix', i) or ('aff', newaxis, start, step)
    m = {}
    old = 0
    for it in idx:
        if it is None:
            new_shape.append(1)
            continue
        n = a.shape[old]
        if is_slice(it):
            st, ln, step = norm_slice(it, n)
            m[old] = ("aff", len(new_shape), st, step)
            new_shape.append(ln)
        else:
            m[old] = ("fix", norm_int(it, n))
        old += 1
    sel = []
    for s in base:
        if s[0] == "fix":
            sel.append(s)
            continue
        _, ax, st, step = s
        t = m[ax]
        if t[0] == "fix":
            sel.append(("fix", T.s_add(st, T.s_mul(step, t[1]))))
        else:
            _, nax, st2, step2 = t
            sel.append(("aff", nax, T.s_add(st, T.s_mul(step, st2)), T.s_mul(step, step2)))
    return Arr(a.buf, tuple(new_shape), sel)


def transpose(a, axes):
    base = a.sel
    if base is None:
        base = [("aff", k, 0, 1) for k in range(a.ndim)]
    inv = {old: new for new, old in enumerate(axes)}
    sel = [s if s[0] == "fix" else ("aff", inv[s[1]], s[2], s[3]) for s in base]
    return Arr(a.buf, tuple(a.shape[k] for k in axes), sel)


def full_idx(a, idx):
    return all(is_slice(i) and i.start is None and i.stop is None and i.step is None for i in idx)


class Compress(object):
    """a[mask] for a boolean mask of the same shape: kept symbolic (order-preserving selection)."""

    def __init__(self, arr_snap, mask_snap, shape, dtype):
        self.f, self.mask, self.shape_full, self.dtype = arr_snap, mask_snap, shape, dtype


def getitem(a, idx):
    from . import npmodel
    if isinstance(idx, list):
        idx = npmodel.asarray(idx)
    if isinstance(idx, tuple):
        idx = tuple(npmodel.asarray(i) if isinstance(i, list) else i for i in idx)
    idx = expand_index(a, idx)
    if not any(is_arr(i) for i in idx):
        if len(idx) == a.ndim and all(T.is_num(i) for i in idx):
            j = tuple(norm_int(i, n) for i, n in zip(idx, a.shape))
            return a.at(*j)
        return basic_view(a, idx)
    # zero-dimensional arrays act as scalars
    idx = tuple(i.at() if is_arr(i) and i.ndim == 0 else i for i in idx)
    if not any(is_arr(i) for i in idx):
        return getitem(a, idx)
    if len(idx) == 1 and idx[0].dtype == "bool" and idx[0].ndim == a.ndim:
        return npmodel.compress(a, idx[0])
    # advanced indexing: integer arrays, possibly mixed with slices/ints (arrays adjacent)
    pos = [k for k, i in enumerate(idx) if is_arr(i)]
    new_idx = []
    for i in idx:
        if is_arr(i) and i.dtype == "bool":
            if i.ndim != 1:
                raise Unsupported("boolean index inside a tuple")
            i = npmodel.where1(i)[0]
        new_idx.append(i)
    idx = tuple(new_idx)
    ints = [k for k, i in enumerate(idx) if T.is_num(i)]
    adv = sorted(pos + ints)
    if any(i is None for i in idx):
        raise Unsupported("newaxis with advanced indexing")
    contiguous = adv == list(range(adv[0], adv[0] + len(adv)))
    shp = npmodel.broadcast_shapes(*[idx[k].shape for k in pos])
    out_shape, plan = [], []
    placed = False
    for k, i in enumerate(idx):
        if k in adv:
            if not placed and contiguous:
                out_shape += list(shp)
                placed = True
        else:
            st, ln, step = norm_slice(i, a.shape[k])
            plan.append((k, st, step))
            out_shape.append(ln)
    if not contiguous:
        out_shape = list(shp) + [s for s in out_shape]
    first = adv[0] if contiguous else 0
    nb = len(shp)
    snaps = {}
    for k in adv:
        if k in pos:
            rg = (idx[k].meta or {}).get("range")
            snaps[k] = (idx[k].snap(), idx[k].shape, bool(rg is not None and nonneg(rg[0])))
            check_gather(idx[k], a.shape[k])
        else:
            snaps[k] = norm_int(idx[k], a.shape[k])
    src = a.snap()
    nd = a.ndim
    shape_a = a.shape

    def fn(*o):
        bidx = o[first:first + nb]
        rest = o[:first] + o[first + nb:]
        full = [None] * nd
        for (k, st, step), r in zip(plan, rest):
            full[k] = T.s_add(st, T.s_mul(step, r))
        for k in adv:
            s = snaps[k]
            if isinstance(s, tuple):
                f, sh, pos_ = s
                v = f(*npmodel.bidx(bidx, sh))
                n = shape_a[k]
                if pos_:
                    pass
                elif isinstance(v, Sym):
                    if not nonneg(v):
                        v = ite(v < 0, v + n, v)
                elif v < 0:
                    v = T.s_add(v, n)
                full[k] = v
            else:
                full[k] = s
        return src(*full)
    r = mkarr(tuple(out_shape), fn, a.dtype)
    if len(pos) == 1 and len(adv) == 1 and (idx[pos[0]].meta or {}).get("where"):
        # element of the selection by its position in the source instead of by its rank
        kk = pos[0]

        def by_position(*o):
            rest = o[:first] + o[first + nb:]
            full = [None] * nd
            for (k, st, step), q in zip(plan, rest):
                full[k] = T.s_add(st, T.s_mul(step, q))
            full[kk] = o[first]
            return src(*full)
        r.meta = {"gather": (first, idx[kk].meta["where"], Fn(by_position))}
    return r


def nonneg(v):
    return ctx().known(toz(v >= 0)) if isinstance(v >= 0, Sym) else (v >= 0)


def check_gather(ix, n):
    """Index array in range?  Known structures are accepted; otherwise forks an IndexError path."""
    if ix.meta is not None and ix.meta.get("range") is not None:
        lo, hi = ix.meta["range"]      # lo <= v < hi
        if lo >= 0 and hi <= n:
            return
    c = ctx()
    ks = [c.fresh_int("gi") for _ in ix.shape]
    dom = s_and(*[s_and(k >= 0, k < m) for k, m in zip(ks, ix.shape)])
    v = ix.snap()(*ks)
    ok = s_and(v >= T.s_neg(n), v < n)
    good = T.s_or(s_not(dom), ok)
    if isinstance(good, Sym):
        if c.known(good.e):
            return
        b = Sym(c.fresh_bool("gather_ok").e)
        if b:
            return
        c.assume(toz(s_and(dom, s_not(ok))))
        raise PyExc("IndexError", "index out of bounds (advanced indexing)")
    if not good:
        raise PyExc("IndexError", "index out of bounds (advanced indexing)")


def region(view):
    """(cond(buffer idx), view idx(buffer idx)) of a basic view."""
    buf = view.buf
    nb = len(buf.shape)
    sel = view.sel
    if sel is None:
        sel = [("aff", k, 0, 1) for k in range(nb)]

    def inv(b):
        conds = []
        vi = [0] * view.ndim
        for ax in range(nb):
            s = sel[ax]
            if s[0] == "fix":
                conds.append(T.s_eq(b[ax], s[1]))
                continue
            _, vax, st, step = s
            n = view.shape[vax]
            if not isinstance(step, Sym) and step == 1:
                if not isinstance(st, Sym) and st == 0 and same(n, buf.shape[ax]):
                    vi[vax] = b[ax]
                    continue
                vi[vax] = T.s_sub(b[ax], st)
                conds.append(T.s_ge(b[ax], st))
                conds.append(T.s_lt(b[ax], T.s_add(st, n)))
            elif not isinstance(step, Sym) and step == -1:
                vi[vax] = T.s_sub(st, b[ax])
                conds.append(T.s_ge(vi[vax], 0))
                conds.append(T.s_lt(vi[vax], n))
            else:
                d = T.s_sub(b[ax], st)
                if not isinstance(step, Sym) and step < 0:
                    d, step_ = T.s_neg(d), -step
                else:
                    step_ = step
                q = T.s_floordiv(d, step_)
                vi[vax] = q
                conds.append(T.s_eq(T.s_mod(d, step_), 0))
                conds.append(T.s_ge(d, 0))
                conds.append(T.s_lt(q, n))
        return s_and(*conds), tuple(vi)
    return inv


def same(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e):
        return True
    return False


def same_mask(m1, m2, shape):
    """Are two masks provably equal elementwise (under the current path)?"""
    if m1 is m2:
        return True
    c = ctx()
    ks = [c.fresh_int("mk") for _ in shape]
    g = T.s_eq(T.as_bool(m1(*ks)), T.as_bool(m2(*ks)))
    if not isinstance(g, Sym):
        return bool(g)
    dom = s_and(*[s_and(k >= 0, k < n) for k, n in zip(ks, shape)])
    return c.known(z3.Implies(toz(dom), g.e))


def write(view, condfn, valfn, desc=None):
    """Store valfn(view idx) where condfn(view idx); both element-level functions."""
    buf = view.buf
    c = ctx()
    if buf.alias_of is not None:
        raise Unsupported("write through a reshaped/unknown alias")
    old = buf.fn
    inv = region(view)
    dt = buf.dtype

    def fn(*b):
        reg, vi = inv(b)
        if reg is False:
            return old(*b)
        if condfn is not None:
            reg = s_and(reg, condfn(*vi))
            if reg is False:
                return old(*b)
        return ite_any(reg, cast(valfn(*vi), dt), lambda: old(*b))

    def wcond(*b):
        reg, vi = inv(b)
        if condfn is not None and reg is not False:
            reg = s_and(reg, condfn(*vi))
        return reg
    c.journal_write(buf)
    buf.log.append((wcond, view, desc))
    c.note_write(buf, wcond, view)
    buf.fn = Fn(fn)


def ite_any(cond, a, bthunk):
    if cond is True or (not isinstance(cond, Sym) and cond):
        return a
    return ite_val(cond, a, bthunk())


def ite_val(c, a, b):
    if a is b:
        return a
    if T.is_num(a) and T.is_num(b):
        return ite(c, a, b)
    from . import npmodel
    return npmodel.merge_value(c, a, b)


def setitem(a, idx, val):
    from . import npmodel
    if not is_arr(a):
        raise Unsupported("setitem on %r" % type(a))
    if isinstance(idx, list):
        idx = npmodel.asarray(idx)
    if isinstance(idx, tuple):
        idx = tuple(npmodel.asarray(i) if isinstance(i, list) else i for i in idx)
    idx = expand_index(a, idx)
    idx = tuple(i.at() if is_arr(i) and i.ndim == 0 else i for i in idx)
    if not any(is_arr(i) for i in idx):
        view = basic_view(a, idx)
        if isinstance(val, Compress):
            raise Unsupported("assigning a compressed array to a slice")
        if is_arr(val) or isinstance(val, (list, tuple)):
            v = npmodel.asarray(val)
            vs = v.snap()
            check_store_shape(v.shape, view.shape)
            vsh = v.shape
            write(view, None, lambda *vi: vs(*npmodel.bidx_store(vi, vsh)))
        else:
            write(view, None, lambda *vi: val)
        return
    arrs = [k for k, i in enumerate(idx) if is_arr(i)]
    if len(idx) == 1 and idx[0].dtype == "bool" and idx[0].ndim == a.ndim:
        m = idx[0]
        npmodel.require_same_shape(m.shape, a.shape)
        ms = m.snap()
        if isinstance(val, Compress):
            if not same_mask(val.mask, ms, a.shape):
                raise Unsupported("masked store with a different mask")
            f = val.f
            write(a, ms, lambda *vi: f(*vi))
            return
        if is_arr(val):
            if val.meta and val.meta.get("compress") is not None:
                cp = val.meta["compress"]
                if not same_mask(cp.mask, ms, a.shape):
                    raise Unsupported("masked store with a different mask")
                f = cp.f
                write(a, ms, lambda *vi: f(*vi))
                return
            if val.ndim == 0:
                val = val.at()
            else:
                raise Unsupported("masked store of an array")
        write(a, ms, lambda *vi: val)
        return
    if len(arrs) == 1:
        k = arrs[0]
        ix = idx[k]
        if ix.dtype == "bool":
            ix = npmodel.where1(ix)[0]
        w = ix.meta.get("where") if ix.meta else None
        view = basic_view(a, idx[:k] + (slice(None),) + idx[k + 1:])
        # axis of the view which corresponds to array axis k
        vax = sum(1 for j in range(k) if is_slice(idx[j]))
        if w is not None:
            if not same(w["n"], a.shape[k]):
                if not (w["n"] <= a.shape[k]):
                    raise Unsupported("where-index larger than the axis")
            condf = w["cond"]
            rank = w.get("mark") or w["rank"]
            if is_arr(val) and val.meta and val.meta.get("of_where") and val.meta["of_where"][0] is w and val.ndim == 1 and view.ndim == 1:
                by_pos = val.meta["of_where"][1]

                def valfn(*vi):
                    return by_pos(vi[0])
            elif is_arr(val):
                vs, vsh = val.snap(), val.shape

                def valfn(*vi):
                    vi = list(vi)
                    vi[vax] = rank(vi[vax])
                    return vs(*npmodel.bidx_store(tuple(vi), vsh))
            else:
                def valfn(*vi):
                    return val
            n = w["n"]
            write(view, lambda *vi: s_and(vi[vax] < n, condf(vi[vax])), valfn)
            return
        if ix.meta and ix.meta.get("affine") is not None:
            st, step = ix.meta["affine"]
            sl = ASlice(st, T.s_add(st, T.s_mul(step, ix.shape[0])), step)
            return setitem(a, idx[:k] + (sl,) + idx[k + 1:], val)
    raise Unsupported("advanced-index store")


def check_store_shape(vs, ts):
    from . import npmodel
    vs = list(vs)
    while len(vs) > len(ts):
        if not npmodel.dim_eq(vs[0], 1):
            raise PyExc("ValueError", "could not broadcast input array")
        vs = vs[1:]
    for v, t in zip(vs[::-1], list(ts)[::-1]):
        if same(v, t):
            continue
        if npmodel.dim_eq(v, t):
            continue
        if npmodel.dim_eq(v, 1):
            continue
        raise PyExc("ValueError", "could not broadcast input array from shape into shape")
