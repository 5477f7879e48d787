"""Symbolic scalars with Python semantics over mathematical integers/reals (z3 terms).

Concrete scalars stay native Python values: int, bool, Fraction (for every non-integer number: a float
literal is read as the decimal it denotes).  `Sym` wraps a z3 term of sort Int, Real or Bool.
"""
import z3
from fractions import Fraction

CTX = None          # current engine context (set by engine.Ctx)


class Unsupported(Exception):
    """The engine cannot express this construct: the obligation is undecided (never a violation)."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, etype, msg="", value=None):
        Exception.__init__(self, "%s: %s" % (etype, msg))
        self.etype = etype
        self.msg = msg
        self.value = value


EXC_PARENTS = {
    "ValueError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "LookupError": "Exception", "TypeError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "RuntimeWarning": "Warning", "Warning": "Exception",
    "FileNotFoundError": "OSError", "OSError": "Exception", "AttributeError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ImportError": "Exception",
    "UserWarning": "Warning", "Exception": "BaseException", "AssertionError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "OverflowError": "ArithmeticError",
}


def exc_is(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENTS.get(name)
    return False


def is_sym(x):
    return isinstance(x, Sym)


def is_num(x):
    return isinstance(x, (int, float, Fraction, Sym))


def kind(x):
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (float, Fraction)):
        return "f"
    if isinstance(x, Sym):
        return x.k
    if isinstance(x, complex):
        return "c"
    raise Unsupported("kind of %r" % (type(x),))


_int_cache = {}


def toz(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        v = _int_cache.get(x)
        if v is None:
            v = z3.IntVal(x)
            if -1000 < x < 1000:
                _int_cache[x] = v
        return v
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return z3.RealVal(str(Fraction(repr(x))))
    raise Unsupported("not a scalar: %r" % (type(x),))


def zb(x):
    """z3 form of a fact: z3 terms pass through."""
    return x if isinstance(x, z3.ExprRef) else toz(x)


def mk(e):
    """z3 term -> native value or Sym."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Sym(e)


def toreal(e):
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    return e


def toint_sort(e):
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def coerce2(a, b):
    ea, eb = toint_sort(toz(a)), toint_sort(toz(b))
    if z3.is_real(ea) or z3.is_real(eb):
        return toreal(ea), toreal(eb), True
    return ea, eb, False


def _conc(x):
    return not isinstance(x, Sym)


def norm_conc(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return x
        return Fraction(repr(x))
    return x


def s_add(a, b):
    if _conc(a) and _conc(b):
        return a + b
    if _conc(a) and a == 0 and kind(a) != "f":
        return b if kind(b) != "b" else mk(toint_sort(toz(b)))
    if _conc(b) and b == 0 and kind(b) != "f":
        return a if kind(a) != "b" else mk(toint_sort(toz(a)))
    x, y, r = coerce2(a, b)
    if _conc(a) and a == 0:
        return mk(y)
    if _conc(b) and b == 0:
        return mk(x)
    return mk(x + y)


def s_sub(a, b):
    if _conc(a) and _conc(b):
        return a - b
    x, y, r = coerce2(a, b)
    if _conc(b) and b == 0:
        return mk(x)
    if x.eq(y):
        return Fraction(0) if r else 0
    # (x + y) - y  and  x - (x - y): keep lengths of slices syntactically small
    if z3.is_add(x) and x.num_args() == 2:
        if x.arg(1).eq(y):
            return mk(x.arg(0))
        if x.arg(0).eq(y):
            return mk(x.arg(1))
    if z3.is_sub(y) and y.num_args() == 2 and y.arg(0).eq(x):
        return mk(y.arg(1))
    return mk(x - y)


def s_mul(a, b):
    if _conc(a) and _conc(b):
        return a * b
    x, y, r = coerce2(a, b)
    for p, q, z in ((a, y, x), (b, x, y)):
        if _conc(p):
            if p == 1:
                return mk(q)
            if p == 0:
                return Fraction(0) if r else 0
    return mk(x * y)


def s_neg(a):
    if _conc(a):
        return -a
    return mk(-toint_sort(toz(a)))


def s_truediv(a, b):
    if _conc(a) and _conc(b):
        if b == 0:
            raise PyExc("ZeroDivisionError", "division by zero")
        return Fraction(a) / Fraction(b)
    x, y = toreal(toint_sort(toz(a))), toreal(toint_sort(toz(b)))
    if _conc(b):
        if b == 1:
            return mk(x)
        if b != 0:
            return mk(x * z3.RealVal(str(1 / Fraction(b))))
    if z3.is_rational_value(x) and x.numerator_as_long() == 1 and x.denominator_as_long() == 1:
        return mk(x / y)
    return mk(x * (z3.RealVal(1) / y))


def s_floor(a):
    """floor as an integer."""
    if _conc(a):
        if isinstance(a, bool):
            return int(a)
        if isinstance(a, int):
            return a
        return Fraction(a).__floor__()
    e = toint_sort(a.e)
    if z3.is_int(e):
        return mk(e)
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return mk(e.arg(0))
    ip, rest = _split_int(e, 0)
    if rest is not None and rest.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and _small(rest, 120):
        i2, rest = _split_int(z3.simplify(rest, som=True), 0)
        ip = ip + i2
    if rest is None:
        return s_add_all(ip)
    if not ip:
        return mk(z3.ToInt(e))
    if z3.is_rational_value(rest):
        return s_add_all(ip + [Fraction(rest.numerator_as_long(), rest.denominator_as_long()).__floor__()])
    f = _const_floor(rest)
    if f is None:
        f = mk(z3.ToInt(rest))
    for x in ip:
        f = f + x
    return f


def _leaves(e, lim=4):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 25:
            return None
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
            if len(out) > lim:
                return None
        elif z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED):
            return None
        st.extend(x.children())
    return out


def _scalar_inputs(e):
    """Is e made of the contract's scalar inputs only?"""
    if CTX is None:
        return False
    ids = getattr(CTX, "scalar_ids", None)
    if not ids:
        return False
    l = _leaves(e)
    return bool(l) and all(x.get_id() in ids for x in l)


def _const_floor(rest):
    """The floor of an expression over scalar inputs when the path condition leaves one value for it."""
    if not _scalar_inputs(rest):
        return None
    for v in (0, 1, -1):
        if CTX.known(z3.And(rest >= v, rest < v + 1)):
            return v
    return None


def s_add_all(xs):
    f = 0
    for x in xs:
        f = f + x
    return f


def _small(e, lim):
    """At most lim distinct subterms, none of them an if-then-else."""
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if len(seen) > lim or z3.is_app_of(t, z3.Z3_OP_ITE):
            return False
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL) or z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED):
            continue
        st.extend(t.children())
    return True


def _split_int(e, depth):
    """e = sum(int parts) + rest (None when there is no rest): floor commutes with adding integers."""
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return [mk(e.arg(0))], None
    if z3.is_rational_value(e):
        if e.denominator_as_long() == 1:
            return [e.numerator_as_long()], None
        return [], e
    if depth > 12:
        return [], e
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_MUL and e.num_args() == 2:
        a, b = e.children()
        if z3.is_rational_value(b):
            a, b = b, a
        if z3.is_rational_value(a) and a.denominator_as_long() == 1:
            i, r = _split_int(b, depth + 1)
            if i and r is None:
                return [s_mul(a.numerator_as_long(), x) for x in i], None
        return [], e
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        ints, rest, hit = [], None, False
        for j, a in enumerate(e.children()):
            i, r = _split_int(a, depth + 1)
            neg = k == z3.Z3_OP_SUB and j > 0
            ints += [s_neg(x) if neg else x for x in i]
            hit = hit or bool(i)
            if r is not None:
                rest = r if rest is None and not neg else (-r if rest is None else (rest - r if neg else rest + r))
        if not hit:
            return [], e
        return ints, rest
    if k == z3.Z3_OP_UMINUS:
        i, r = _split_int(e.arg(0), depth + 1)
        if not i:
            return [], e
        return [s_neg(x) for x in i], (None if r is None else -r)
    return [], e


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    if _conc(a):
        return int(a)
    if a.k in "ib":
        return mk(toint_sort(a.e))
    if z3.is_app_of(a.e, z3.Z3_OP_TO_REAL):
        return mk(a.e.arg(0))
    return ite(a >= 0, s_floor(a), s_ceil(a))


def s_round(a):
    """Round half to even (Python round / np.round)."""
    if _conc(a):
        return round(a)
    if a.k in "ib":
        return mk(toint_sort(a.e))
    f = s_floor(a + Fraction(1, 2))
    tie = s_eq(toreal_s(f), a + Fraction(1, 2))
    if isinstance(tie, Sym) and _scalar_inputs(tie.e) and CTX.known(z3.Not(tie.e)):
        return f
    odd = s_eq(s_mod(f, 2), 1)
    return ite(s_and(tie, odd), f - 1, f)


def toreal_s(a):
    if _conc(a):
        return Fraction(a)
    return mk(toreal(toint_sort(a.e)))


def s_floordiv(a, b):
    if _conc(a) and _conc(b):
        if b == 0:
            raise PyExc("ZeroDivisionError", "integer division or modulo by zero")
        if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
            return Fraction((Fraction(a) / Fraction(b)).__floor__())
        return a // b
    x, y, r = coerce2(a, b)
    if r:
        return toreal_s(s_floor(mk(x / y)))
    if _conc(b):
        if b > 0:
            if b == 1:
                return mk(x)
            return mk(x / y)
        if b == 0:
            raise PyExc("ZeroDivisionError", "integer division or modulo by zero")
        return mk((-x) / (-y))
    if _known(y > 0):
        q = _exact_div(x, y)
        if q is not None:
            return q[0]
        return mk(x / y)
    return mk(z3.If(y > 0, x / y, (-x) / (-y)))


def _summands(e, sign, out):
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        for c in e.children():
            _summands(c, sign, out)
    elif k == z3.Z3_OP_SUB:
        for j, c in enumerate(e.children()):
            _summands(c, sign if j == 0 else -sign, out)
    elif k == z3.Z3_OP_UMINUS:
        _summands(e.arg(0), -sign, out)
    else:
        out.append((sign, e))


def _factors(e, out):
    if e.decl().kind() == z3.Z3_OP_MUL:
        for c in e.children():
            _factors(c, out)
    else:
        out.append(e)


def _exact_div(x, y):
    """x = q*y + r with every summand of q*y syntactically a multiple of y, and 0 <= r < y known."""
    sm, fy = [], []
    _summands(x, 1, sm)
    _factors(y, fy)
    q, r, hit = [], [], False
    for sg, t in sm:
        ft = []
        _factors(t, ft)
        for f in fy:
            for n, g in enumerate(ft):
                if g.eq(f):
                    del ft[n]
                    break
            else:
                ft = None
                break
        if ft is None:
            r.append((sg, t))
        else:
            hit = True
            v = z3.IntVal(1)
            for n, g in enumerate(ft):
                v = g if n == 0 else v * g
            q.append((sg, v))
    if not hit:
        return None

    def tot(lst):
        v = 0
        for sg, t in lst:
            v = s_add(v, mk(t)) if sg > 0 else s_sub(v, mk(t))
        return v
    rr = tot(r)
    ok = s_and(s_ge(rr, 0), s_lt(rr, mk(y)))
    if ok is True or (isinstance(ok, Sym) and _known(ok.e)):
        return tot(q), rr
    return None


def s_mod(a, b):
    if _conc(a) and _conc(b):
        if b == 0:
            raise PyExc("ZeroDivisionError", "integer division or modulo by zero")
        return a % b
    x, y, r = coerce2(a, b)
    if not r and ((_conc(b) and b > 0) or _known(y > 0)):
        if not _conc(b):
            q = _exact_div(x, y)
            if q is not None:
                return q[1]
        return mk(x % y)
    return s_sub(a, s_mul(b, s_floordiv(a, b)))


def _known(zcond):
    return CTX is not None and CTX.known(zcond)


def s_pow(a, b):
    if _conc(a) and _conc(b):
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int) and (b >= 0 or a != 0):
            return a ** b if b >= 0 else Fraction(a) ** b
        if a in (0, 1) and b > 0:
            return Fraction(a)
    if _conc(b):
        bb = Fraction(b)
        if bb.denominator == 1 and 0 <= bb <= 8:
            n = int(bb)
            r = 1 if kind(a) in "ib" and kind(b) != "f" else Fraction(1)
            for _ in range(n):
                r = s_mul(r, a)
            return r
        if bb.denominator == 1 and -4 <= bb < 0:
            return s_truediv(1, s_pow(a, int(-bb)))
        if bb == Fraction(1, 2):
            return fn_app("sqrt", a)
    if CTX is None:
        raise Unsupported("pow")
    return fn_app("pow", a, b)


def s_abs(a):
    if _conc(a):
        return abs(a)
    e = toint_sort(a.e)
    return mk(z3.If(e >= 0, e, -e))


def ite(c, a, b):
    """Value-level conditional (never forks)."""
    if _conc(c):
        return a if c else b
    if a is b:
        return a
    if _conc(a) and _conc(b) and type(a) == type(b) and a == b:
        return a
    if CTX is not None:
        k = CTX.settled(c.e)
        if k is not None:
            return a if k else b
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        return mk(z3.If(c.e, toz(a), toz(b)))
    x, y, r = coerce2(a, b)
    if x.eq(y):
        return mk(x)
    return mk(z3.If(c.e, x, y))


def _cmp(op, a, b):
    x, y, _ = coerce2(a, b)
    if op == "<":
        if x.eq(y):
            return False
        r = x < y
    elif op == "<=":
        if x.eq(y):
            return True
        r = x <= y
    elif op == ">":
        if x.eq(y):
            return False
        r = x > y
    else:
        if x.eq(y):
            return True
        r = x >= y
    return mk(z3.simplify(r)) if (x.num_args() + y.num_args()) == 0 else mk(r)


def s_lt(a, b):
    if _conc(a) and _conc(b):
        return a < b
    return _cmp("<", a, b)


def s_le(a, b):
    if _conc(a) and _conc(b):
        return a <= b
    return _cmp("<=", a, b)


def s_gt(a, b):
    return s_lt(b, a)


def s_ge(a, b):
    return s_le(b, a)


def s_eq(a, b):
    if a is None or b is None:
        return a is b
    if _conc(a) and _conc(b):
        return a == b
    if not is_num(a) or not is_num(b):
        return False
    if kind(a) == "b" and kind(b) == "b":
        x, y = toz(a), toz(b)
        if x.eq(y):
            return True
        if _conc(a):
            return mk(y if a else z3.Not(y))
        if _conc(b):
            return mk(x if b else z3.Not(x))
        return mk(x == y)
    x, y, _ = coerce2(a, b)
    if x.eq(y):
        return True
    return mk(x == y)


def s_not(a):
    if _conc(a):
        return not a
    e = a.e
    if z3.is_not(e):
        return mk(e.arg(0))
    if not z3.is_bool(e):
        return s_eq(a, 0)
    return mk(z3.Not(e))


def as_bool(a):
    if isinstance(a, Sym):
        if a.k == "b":
            return a
        return s_not(s_eq(a, 0))
    return bool(a)


def s_and(*xs):
    out = []
    for x in xs:
        x = as_bool(x)
        if _conc(x):
            if not x:
                return False
        else:
            out.append(x.e)
    if not out:
        return True
    if len(out) == 1:
        return Sym(out[0])
    return Sym(z3.And(*out))


def s_or(*xs):
    out = []
    for x in xs:
        x = as_bool(x)
        if _conc(x):
            if x:
                return True
        else:
            out.append(x.e)
    if not out:
        return False
    if len(out) == 1:
        return Sym(out[0])
    return Sym(z3.Or(*out))


def s_min(a, b):
    if _conc(a) and _conc(b):
        return min(a, b)
    return ite(s_le(a, b), a, b)


def s_max(a, b):
    if _conc(a) and _conc(b):
        return max(a, b)
    return ite(s_ge(a, b), a, b)


# ---------------------------------------------------------------- transcendental functions
_FN = {}


def fn_decl(name, arity):
    d = _FN.get((name, arity))
    if d is None:
        d = z3.Function("f_" + name, *([z3.RealSort()] * (arity + 1)))
        _FN[(name, arity)] = d
    return d


PI = None


def fn_app(name, *args):
    """Application of an uninterpreted real function with (on-demand) axioms, see prove.MATH_AXIOMS."""
    if all(_conc(a) for a in args):
        v = [Fraction(a) for a in args]
        x = v[0]
        if name in ("cos", "exp", "cosh") and x == 0:
            return Fraction(1)
        if name in ("sin", "tan", "sqrt", "sinh", "tanh", "arcsin", "arctan", "arcsinh") and x == 0:
            return Fraction(0)
        if name == "log" and x == 1:
            return Fraction(0)
        if name == "sqrt" and x > 0:
            import math
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
        if name == "log2" and x > 0 and x.denominator == 1 and (x.numerator & (x.numerator - 1)) == 0:
            return Fraction(x.numerator.bit_length() - 1)
    return mk(fn_decl(name, len(args))(*[toreal(toint_sort(toz(a))) for a in args]))


class Sym(object):
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @property
    def k(self):
        e = self.e
        if z3.is_bool(e):
            return "b"
        if z3.is_int(e):
            return "i"
        return "f"

    def __add__(self, o): return s_add(self, o) if is_num(o) else NotImplemented
    def __radd__(self, o): return s_add(o, self) if is_num(o) else NotImplemented
    def __sub__(self, o): return s_sub(self, o) if is_num(o) else NotImplemented
    def __rsub__(self, o): return s_sub(o, self) if is_num(o) else NotImplemented
    def __mul__(self, o): return s_mul(self, o) if is_num(o) else NotImplemented
    def __rmul__(self, o): return s_mul(o, self) if is_num(o) else NotImplemented
    def __truediv__(self, o): return s_truediv(self, o) if is_num(o) else NotImplemented
    def __rtruediv__(self, o): return s_truediv(o, self) if is_num(o) else NotImplemented
    def __floordiv__(self, o): return s_floordiv(self, o) if is_num(o) else NotImplemented
    def __rfloordiv__(self, o): return s_floordiv(o, self) if is_num(o) else NotImplemented
    def __mod__(self, o): return s_mod(self, o) if is_num(o) else NotImplemented
    def __rmod__(self, o): return s_mod(o, self) if is_num(o) else NotImplemented
    def __pow__(self, o): return s_pow(self, o) if is_num(o) else NotImplemented
    def __rpow__(self, o): return s_pow(o, self) if is_num(o) else NotImplemented
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __lt__(self, o): return s_lt(self, o) if is_num(o) else NotImplemented
    def __le__(self, o): return s_le(self, o) if is_num(o) else NotImplemented
    def __gt__(self, o): return s_gt(self, o) if is_num(o) else NotImplemented
    def __ge__(self, o): return s_ge(self, o) if is_num(o) else NotImplemented
    def __eq__(self, o): return s_eq(self, o) if (o is None or is_num(o) or isinstance(o, str)) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else s_not(r)

    def __and__(self, o): return s_and(self, o) if is_num(o) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return s_or(self, o) if is_num(o) else NotImplemented
    __ror__ = __or__
    def __invert__(self): return s_not(self) if self.k == "b" else s_sub(s_neg(self), 1)
    def __hash__(self): return self.e.hash()

    def __bool__(self):
        c = as_bool(self)
        if not isinstance(c, Sym):
            return c
        if CTX is None:
            raise Unsupported("symbolic truth value outside an execution")
        return CTX.decide(c.e)

    def __index__(self):
        raise Unsupported("symbolic value used as a native index")

    def __int__(self):
        raise Unsupported("symbolic value converted natively")

    def __float__(self):
        raise Unsupported("symbolic value converted natively")

    def __repr__(self):
        s = str(self.e).replace("\n", " ")
        return "<%s>" % (s if len(s) < 300 else s[:300] + "...")

    def __format__(self, spec):
        return "{" + repr(self) + (":" + spec if spec else "") + "}"
