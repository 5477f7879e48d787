"""AST interpreter for the Python subset used in /repo, over symbolic values (terms.py, arrays.py)."""
import ast
import os
from fractions import Fraction
from . import terms as T
from . import arrays as A
from .terms import Sym, PyExc, Unsupported, s_and, s_or, s_not, ite, toz
from .arrays import Arr

REPO = os.environ.get("VERIF_REPO", "/repo")
CALL_DEPTH = [0]


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class ExcClass(object):
    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        return ExcInst(self.name, args)

    def __repr__(self):
        return "<exc %s>" % self.name


class ExcInst(object):
    def __init__(self, name, args):
        self.name = name
        self.args = args


class UserFn(object):
    def __init__(self, node, env, module, name):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults = None
        self.kwdefaults = None

    def __repr__(self):
        return "<fn %s.%s>" % (self.module.name, self.name)


class BoundMethod(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class UserClass(object):
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class UserObj(object):
    def __init__(self, cls):
        self.cls = cls


class Env(object):
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent=None):
        self.vars = vars
        self.parent = parent

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)


class RangeVal(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        st, sp, k = self.start, self.stop, self.step
        if isinstance(k, Sym):
            if k == 0:
                raise PyExc("ValueError", "range() arg 3 must not be zero")
            if not (k > 0):
                raise Unsupported("range with symbolic negative step")
            n = T.s_floordiv(T.s_add(T.s_sub(T.s_sub(sp, st), 1), k), k)
        elif k == 0:
            raise PyExc("ValueError", "range() arg 3 must not be zero")
        elif k == 1:
            n = T.s_sub(sp, st)
        elif k > 0:
            n = T.s_floordiv(T.s_add(T.s_sub(sp, st), k - 1), k)
        else:
            n = T.s_floordiv(T.s_add(T.s_sub(st, sp), -k - 1), -k)
        if isinstance(n, Sym) and T.CTX is not None and T.CTX.known(toz(T.s_ge(n, 0))):
            return n
        return T.s_max(n, 0)


class SymIter(object):
    """Iteration space of symbolic length: elem(t) is the value of iteration t."""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


def pick_py(it, t):
    from . import npmodel
    vals = list(it)
    return npmodel.pick(vals, t, lambda: vals[t])


class SymList(object):
    """Immutable list of symbolic length."""
    grid = None          # (n1, n2, elem2) for a list over two nested ranges

    def __init__(self, n, elem, tag=None):
        self.n, self.elem, self.tag = n, elem, tag

    def __repr__(self):
        return "SymList(%r)" % (self.n,)


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.env = Env({})
        self.funcs = {}


_MODULES = {}


def repo_module(dotted):
    m = _MODULES.get(dotted)
    if m is None:
        path = os.path.join(REPO, *dotted.split(".")) + ".py"
        m = Module(dotted, path)
        _MODULES[dotted] = m
        load_module(m)
    return m


def load_module(m):
    it = Interp(m)
    for st in m.tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            it.exec_import(st, m.env)
        elif isinstance(st, ast.FunctionDef):
            f = UserFn(st, m.env, m, st.name)
            m.env.vars[st.name] = f
            m.funcs[st.name] = f
        elif isinstance(st, ast.ClassDef):
            attrs = {}
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    attrs[s.name] = UserFn(s, m.env, m, st.name + "." + s.name)
            m.env.vars[st.name] = UserClass(st.name, attrs)
        elif isinstance(st, ast.Assign):
            try:
                it.exec_stmt(st, m.env)
            except (Unsupported, PyExc):
                pass


def norm_const(v):
    return T.norm_conc(v)


def truth(v):
    """Python truth value (may fork)."""
    if isinstance(v, Arr):
        if v.ndim == 0:
            return truth(v.at())
        n = 1
        if all(not isinstance(s, Sym) for s in v.shape):
            for s in v.shape:
                n *= s
            if n == 1:
                return truth(v.at(*[0] * v.ndim))
        raise PyExc("ValueError", "The truth value of an array is ambiguous")
    if isinstance(v, Sym):
        return bool(v)
    if isinstance(v, SymList):
        return truth(T.s_gt(v.n, 0))
    if isinstance(v, (UserFn, Closure, UserObj)):
        return True
    if hasattr(v, "sym_truth"):
        return truth(v.sym_truth())
    return bool(v)


class Closure(object):
    def __init__(self, node, env, module, name="<lambda>"):
        self.node, self.env, self.module, self.name = node, env, module, name


CONTRACT_HOOK = [None]     # function(userfn, args, kwargs) -> (handled, value)


def bind_args(a, args, kwargs, defaults, kwdefaults, name):
    params = [p.arg for p in a.posonlyargs + a.args]
    vals = {}
    if len(args) > len(params) and a.vararg is None:
        raise PyExc("TypeError", "%s() takes %d positional arguments but %d were given" % (name, len(params), len(args)))
    for p, v in zip(params, args):
        vals[p] = v
    if a.vararg is not None:
        vals[a.vararg.arg] = tuple(args[len(params):])
    extra = {}
    for k, v in kwargs.items():
        if k in params or k in [p.arg for p in a.kwonlyargs]:
            if k in vals:
                raise PyExc("TypeError", "%s() got multiple values for argument '%s'" % (name, k))
            vals[k] = v
        elif a.kwarg is not None:
            extra[k] = v
        else:
            raise PyExc("TypeError", "%s() got an unexpected keyword argument '%s'" % (name, k))
    if a.kwarg is not None:
        vals[a.kwarg.arg] = extra
    nd = len(defaults)
    for i, p in enumerate(params):
        if p not in vals:
            j = i - (len(params) - nd)
            if j < 0:
                raise PyExc("TypeError", "%s() missing required argument '%s'" % (name, p))
            vals[p] = defaults[j]
    for p, d in zip(a.kwonlyargs, kwdefaults):
        if p.arg not in vals:
            if d is MISSING:
                raise PyExc("TypeError", "missing keyword-only argument")
            vals[p.arg] = d
    return vals


MISSING = object()


def call(f, args=(), kwargs=None):
    kwargs = kwargs or {}
    if isinstance(f, UserFn):
        h = CONTRACT_HOOK[0]
        if h is not None:
            ok, v = h(f, args, kwargs)
            if ok:
                return v
        return call_user(f, args, kwargs)
    if isinstance(f, Closure):
        it = Interp(f.module)
        if isinstance(f.node, ast.Lambda):
            defaults = [it.eval(d, f.env) for d in f.node.args.defaults]
            vals = bind_args(f.node.args, args, kwargs, defaults, [], "<lambda>")
            return it.eval(f.node.body, Env(vals, f.env))
        return call_user(f, args, kwargs)
    if isinstance(f, BoundMethod):
        return call(f.fn, (f.self_,) + tuple(args), kwargs)
    if isinstance(f, UserClass):
        o = UserObj(f)
        if "__init__" in f.attrs:
            call(f.attrs["__init__"], (o,) + tuple(args), kwargs)
        return o
    if isinstance(f, ExcClass):
        return ExcInst(f.name, args)
    if isinstance(f, UserObj) and "__call__" in f.cls.attrs:
        return call(f.cls.attrs["__call__"], (f,) + tuple(args), kwargs)
    if callable(f):
        try:
            return f(*args, **kwargs)
        except (PyExc, Unsupported, ReturnX, BreakX, ContinueX):
            raise
        except T_ENGINE_EXC:
            raise
        except (TypeError, AttributeError, ValueError, IndexError, KeyError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Unsupported("model call %s failed: %s: %s (%s:%d)" % (getattr(f, "__name__", f), type(e).__name__, e,
                                                                       os.path.basename(tb.filename), tb.lineno))
    raise Unsupported("call of %r" % (f,))


from .engine import Infeasible as _Inf           # noqa
T_ENGINE_EXC = (_Inf,)


ENTERED = {}
_HASH = {}


def source_hash(node):
    """Digest of a function's syntax tree, without comments, layout and docstrings."""
    h = _HASH.get(id(node))
    if h is None:
        import copy
        import hashlib
        n = copy.deepcopy(node)
        for x in ast.walk(n):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.body and isinstance(x.body[0], ast.Expr) \
                    and isinstance(x.body[0].value, ast.Constant) and isinstance(x.body[0].value.value, str):
                x.body = x.body[1:] or [ast.Pass()]
        h = (hashlib.sha1(ast.dump(n).encode()).hexdigest()[:16], node)
        _HASH[id(node)] = h
    return h[0]


def call_user(f, args, kwargs):
    it = Interp(f.module)
    node = f.node
    if id(node) not in ENTERED:
        ENTERED[id(node)] = ("%s.%s" % (f.module.name, f.name), source_hash(node))
    defaults = [it.eval(d, f.env) for d in node.args.defaults]
    kwdefaults = [MISSING if d is None else it.eval(d, f.env) for d in node.args.kw_defaults]
    vals = bind_args(node.args, args, kwargs, defaults, kwdefaults, f.name)
    env = Env(vals, f.env)
    CALL_DEPTH[0] += 1
    try:
        if CALL_DEPTH[0] > 60:
            raise Unsupported("recursion too deep")
        it.local_names = assigned_names(node.body) | set(vals)
        try:
            it.exec_block(node.body, env)
        except ReturnX as r:
            return r.value
        return None
    finally:
        CALL_DEPTH[0] -= 1


def assigned_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)
    v = V()
    for s in body:
        v.visit(s)
    return out


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
          ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
          ast.LShift: "shl", ast.RShift: "shr", ast.MatMult: "matmul"}


def native(x):
    return not isinstance(x, (Sym, Arr))


def binop(op, a, b):
    from . import cplx
    if cplx.has(a, b):
        return cplx.binop(op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, A.Compress) or isinstance(b, A.Compress):
            raise Unsupported("operator on a compressed array")
        from . import npmodel
        if not isinstance(a, Arr) and isinstance(a, (list, tuple)):
            a = npmodel.asarray(a)
        if not isinstance(b, Arr) and isinstance(b, (list, tuple)):
            b = npmodel.asarray(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyExc("TypeError", "unsupported operand types")
        return npmodel.elementwise2(op, a, b)
    if hasattr(a, "sym_binop"):
        return a.sym_binop(op, b, False)
    if hasattr(b, "sym_binop"):
        return b.sym_binop(op, a, True)
    if T.is_num(a) and T.is_num(b):
        return scalar_binop(op, a, b)
    if isinstance(a, A.Compress) or isinstance(b, A.Compress):
        from . import npmodel
        return npmodel.compress_op(op, a, b)
    if op == "add" and type(a) == type(b) and isinstance(a, (str, list, tuple)):
        return a + b
    if op == "mul" and isinstance(a, (str, list, tuple)) and isinstance(b, int):
        return a * b
    if op == "mul" and isinstance(b, (str, list, tuple)) and isinstance(a, int):
        return a * b
    if op == "mod" and isinstance(a, str):
        return "%fmt"
    if op == "add" and (isinstance(a, SymList) or isinstance(b, SymList)):
        from . import npmodel
        return npmodel.list_concat(a, b)
    if isinstance(a, (set,)) and isinstance(b, set):
        return {"sub": a - b, "or": a | b, "and": a & b}[op]
    if a is None or b is None:
        raise PyExc("TypeError", "unsupported operand type(s)")
    if isinstance(a, (str, list, tuple, dict)) or isinstance(b, (str, list, tuple, dict)):
        raise PyExc("TypeError", "unsupported operand type(s)")
    raise Unsupported("operator %s on %r, %r" % (op, type(a), type(b)))


def check_div(b):
    if isinstance(b, Sym):
        if b.k == "f":
            # Python floats would raise, numpy floats give inf: the quotient is left unspecified
            return
        if b == 0:
            raise PyExc("ZeroDivisionError", "division by zero")
    elif b == 0:
        raise PyExc("ZeroDivisionError", "division by zero")


NP_SCALAR_DIV = [False]


def scalar_binop(op, a, b):
    if op == "add":
        return T.s_add(a, b)
    if op == "sub":
        return T.s_sub(a, b)
    if op == "mul":
        return T.s_mul(a, b)
    if op == "truediv":
        if not NP_SCALAR_DIV[0]:
            check_div(b)
        return T.s_truediv(a, b)
    if op == "floordiv":
        check_div(b)
        return T.s_floordiv(a, b)
    if op == "mod":
        check_div(b)
        return T.s_mod(a, b)
    if op == "pow":
        return T.s_pow(a, b)
    if op == "and":
        if T.kind(a) == "b" and T.kind(b) == "b":
            return s_and(a, b)
        if native(a) and native(b):
            return a & b
    if op == "or":
        if T.kind(a) == "b" and T.kind(b) == "b":
            return s_or(a, b)
        if native(a) and native(b):
            return a | b
    if op == "xor":
        if T.kind(a) == "b" and T.kind(b) == "b":
            return s_not(T.s_eq(a, b))
    if op == "shl" and native(a) and native(b):
        return a << b
    if op == "shl" and native(b):
        return T.s_mul(a, 2 ** b)
    if op == "shr" and native(b):
        return T.s_floordiv(a, 2 ** b)
    if op == "shl" and native(a) and a == 1:
        return A.ctx() and T.mk(T.toz(pow2(b)))
    raise Unsupported("scalar operator " + op)


def pow2(b):
    raise Unsupported("symbolic shift")


def compare(op, a, b):
    if isinstance(op, ast.Is):
        if b is None or a is None:
            return a is b
        if isinstance(b, bool) or isinstance(a, bool):
            return T.s_eq(a, b) if (T.is_num(a) and T.is_num(b) and T.kind(a) == "b" and T.kind(b) == "b") else a is b
        return a is b
    if isinstance(op, ast.IsNot):
        r = compare(ast.Is(), a, b)
        return s_not(r)
    if isinstance(op, ast.In):
        return contains(b, a)
    if isinstance(op, ast.NotIn):
        return s_not(contains(b, a))
    if isinstance(a, (list, tuple)) and isinstance(b, Arr) or isinstance(b, (list, tuple)) and isinstance(a, Arr):
        from . import npmodel
        a, b = npmodel.asarray(a), npmodel.asarray(b)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = py_eq(a, b)
        return s_not_any(r) if isinstance(op, ast.NotEq) else r
    nm = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
    if isinstance(a, Arr) or isinstance(b, Arr):
        from . import npmodel
        return npmodel.elementwise2(nm, a, b)
    if isinstance(a, A.Compress) or isinstance(b, A.Compress):
        from . import npmodel
        return npmodel.compress_op(nm, a, b)
    if T.is_num(a) and T.is_num(b):
        if isinstance(a, float) or isinstance(b, float):
            return native_float_cmp(nm, a, b)
        return {"lt": T.s_lt, "le": T.s_le, "gt": T.s_gt, "ge": T.s_ge}[nm](a, b)
    if isinstance(a, str) and isinstance(b, str):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[nm]
    if a is None or b is None:
        raise PyExc("TypeError", "'<' not supported with NoneType")
    raise Unsupported("comparison %s of %r and %r" % (nm, type(a), type(b)))


def native_float_cmp(nm, a, b):
    # one side is +-inf / nan
    inf = float("inf")
    if isinstance(a, Sym) or isinstance(b, Sym):
        s, f, flip = (a, b, False) if isinstance(a, Sym) else (b, a, True)
        if f == inf:
            lt = True
        elif f == -inf:
            lt = False
        else:
            raise Unsupported("nan comparison")
        less = lt if not flip else (not lt)
        return less if nm in ("lt", "le") else (not less)
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[nm]


def s_not_any(r):
    if isinstance(r, Arr):
        from . import npmodel
        return npmodel.elementwise1(s_not, r, "bool")
    return s_not(r)


def py_eq(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return False
        from . import npmodel
        return npmodel.elementwise2("eq", a, b)
    if isinstance(a, A.Compress) or isinstance(b, A.Compress):
        from . import npmodel
        return npmodel.compress_op("eq", a, b)
    if hasattr(a, "sym_eq"):
        return a.sym_eq(b)
    if hasattr(b, "sym_eq"):
        return b.sym_eq(a)
    if T.is_num(a) and T.is_num(b):
        return T.s_eq(a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) != type(b) or len(a) != len(b):
            return False
        return s_and(*[py_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    return a == b


def contains(cont, x):
    if isinstance(cont, (list, tuple, set)):
        return s_or(*[py_eq(x, y) for y in cont])
    if isinstance(cont, dict):
        if isinstance(x, Sym):
            raise Unsupported("symbolic key")
        return x in cont
    if isinstance(cont, str):
        if isinstance(x, str):
            return x in cont
    if hasattr(cont, "sym_contains"):
        return cont.sym_contains(x)
    if isinstance(cont, UserObj) and "__contains__" in cont.cls.attrs:
        return call(cont.cls.attrs["__contains__"], (cont, x))
    if isinstance(cont, SymList):
        from . import npmodel
        return npmodel.symlist_contains(cont, x)
    if isinstance(cont, Arr):
        from . import npmodel
        return npmodel.np_any(npmodel.elementwise2("eq", cont, x))
    raise Unsupported("'in' on %r" % type(cont))


PURE = (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Load, ast.operator,
        ast.cmpop, ast.boolop, ast.unaryop)


def is_pure(node):
    for n in ast.walk(node):
        if not isinstance(n, PURE):
            return False
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
            return False
    return True


class Interp(object):
    def __init__(self, module):
        self.module = module
        self.local_names = None

    # ---------------------------------------------------------------- imports
    def exec_import(self, st, env):
        from . import libs
        if isinstance(st, ast.Import):
            for al in st.names:
                v = libs.get_module(al.name, self)
                if al.asname is None and "." in al.name:
                    env.vars[al.name.split(".")[0]] = libs.get_module(al.name.split(".")[0], self)
                else:
                    env.vars[al.asname or al.name] = v
        else:
            mod = st.module or ""
            for al in st.names:
                full = mod + "." + al.name
                v = None
                if mod.startswith("algotom"):
                    p = os.path.join(REPO, *full.split(".")) + ".py"
                    if os.path.exists(p):
                        v = RepoMod(full)
                    else:
                        try:
                            v = repo_module(mod).env.vars[al.name]
                        except KeyError:
                            v = None
                else:
                    v = libs.get_member(mod, al.name, self)
                env.vars[al.asname or al.name] = v

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for s in body:
            self.exec_stmt(s, env)

    def exec_stmt(self, s, env):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        try:
            return m(s, env)
        except Unsupported as e:
            if not getattr(e, "where", None):
                e.where = "%s:%d" % (os.path.basename(self.module.path), getattr(s, "lineno", 0))
            raise
        except PyExc as e:
            if not getattr(e, "where", None):
                e.where = "%s:%d" % (os.path.basename(self.module.path), getattr(s, "lineno", 0))
            raise

    def st_Pass(self, s, env):
        pass

    def st_Global(self, s, env):
        raise Unsupported("global statement")

    def st_Import(self, s, env):
        self.exec_import(s, env)
    st_ImportFrom = st_Import

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def st_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def st_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.eval(s.value, env)
            if isinstance(cur, Arr):
                from . import npmodel
                npmodel.inplace(op, cur, v)
                return
            if isinstance(cur, list) and op == "add":
                A.ctx().journal_obj(cur)
                cur.extend(self.to_list(v))
                return
            env.vars[t.id] = binop(op, cur, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            idx = self.eval_index(t.slice, env)
            cur = self.getitem(obj, idx)
            v = self.eval(s.value, env)
            if isinstance(cur, Arr) and not A_is_copy(cur, obj):
                from . import npmodel
                npmodel.inplace(op, cur, v)
                return
            self.setitem(obj, idx, binop(op, cur, v))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, binop(op, cur, self.eval(s.value, env)))
        else:
            raise Unsupported("augmented assignment target")

    def st_Return(self, s, env):
        raise ReturnX(None if s.value is None else self.eval(s.value, env))

    def st_Break(self, s, env):
        raise BreakX()

    def st_Continue(self, s, env):
        raise ContinueX()

    def st_If(self, s, env):
        if truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def st_Assert(self, s, env):
        if not truth(self.eval(s.test, env)):
            raise PyExc("AssertionError", "")

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported("bare raise")
        v = self.eval(s.exc, env)
        if isinstance(v, ExcClass):
            v = ExcInst(v.name, ())
        if isinstance(v, ExcInst):
            raise PyExc(v.name, str(v.args[0]) if v.args else "", v)
        raise Unsupported("raise %r" % (v,))

    def st_Try(self, s, env):
        try:
            self.exec_block(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                names = None
                if h.type is not None:
                    t = self.eval(h.type, env)
                    names = [x.name for x in (t if isinstance(t, tuple) else (t,))]
                if names is None or any(T.exc_is(e.etype, n) for n in names):
                    if h.name:
                        env.vars[h.name] = ExcInst(e.etype, (e.msg,))
                    self.exec_block(h.body, env)
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody, env)
                raise
        else:
            self.exec_block(s.orelse, env)
        self.exec_block(s.finalbody, env)

    def st_With(self, s, env):
        exits = []
        for it in s.items:
            c = self.eval(it.context_expr, env)
            v = c
            if hasattr(c, "enter"):
                v = c.enter()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            exits.append(c)
        try:
            self.exec_block(s.body, env)
        finally:
            for c in reversed(exits):
                if hasattr(c, "exit"):
                    c.exit()

    def st_FunctionDef(self, s, env):
        c = Closure(s, env, self.module, s.name)
        env.vars[s.name] = c

    def st_ClassDef(self, s, env):
        raise Unsupported("local class")

    def st_While(self, s, env):
        n = 0
        while True:
            v = self.eval(s.test, env)
            if isinstance(v, Sym):
                st = A.ctx()._static(T.toz(T.as_bool(v)))
                if st is None:
                    from . import loops
                    return loops.run_while(self, s, env, first=v)
                v = st
            if not truth(v):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 200:
                raise Unsupported("while loop: more than 200 concrete iterations")
            try:
                self.exec_block(s.body, env)
            except BreakX:
                return
            except ContinueX:
                continue

    def st_For(self, s, env):
        it = self.iter_of(self.eval(s.iter, env))
        if isinstance(it, SymIter):
            from . import loops
            return loops.run_for(self, s, env, it)
        n = 0
        for v in it:
            n += 1
            if n > 400:
                raise Unsupported("for loop: more than 400 concrete iterations")
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except BreakX:
                return
            except ContinueX:
                continue
        self.exec_block(s.orelse, env)

    # ---------------------------------------------------------------- iteration
    def iter_of(self, v):
        """list of values or SymIter."""
        if isinstance(v, RangeVal):
            n = v.length()
            if not isinstance(n, Sym):
                return [T.s_add(v.start, T.s_mul(v.step, i)) for i in range(n)]
            st, k = v.start, v.step
            it = SymIter(n, lambda t: T.s_add(st, T.s_mul(k, t)))
            it.parallel = getattr(v, "parallel", False)
            return it
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymIter):
            return v
        if isinstance(v, SymList):
            return SymIter(v.n, v.elem)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc("TypeError", "iteration over a 0-d array")
            n = v.shape[0]
            if isinstance(n, Sym):
                if v.ndim == 1:
                    f = v.snap()
                    return SymIter(n, lambda t: f(t))
                return SymIter(n, lambda t: A.basic_view(v, (t,) + (slice(None),) * (v.ndim - 1)) if True else None)
            if v.ndim == 1:
                return [v.at(i) for i in range(n)]
            return [A.basic_view(v, (i,) + (slice(None),) * (v.ndim - 1)) for i in range(n)]
        if hasattr(v, "sym_iter"):
            return v.sym_iter()
        if isinstance(v, set):
            return sorted(v)
        if v is None or T.is_num(v):
            raise PyExc("TypeError", "object is not iterable")
        raise Unsupported("iteration over %r" % type(v))

    def to_list(self, v):
        it = self.iter_of(v)
        if isinstance(it, SymIter):
            return SymList(it.n, it.elem)
        return list(it)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Arr) and isinstance(v.shape[0], Sym):
                if not (v.shape[0] == len(t.elts)):
                    raise PyExc("ValueError", "unpack")
                vs = [v.at(i) if v.ndim == 1 else A.basic_view(v, (i,) + (slice(None),) * (v.ndim - 1))
                      for i in range(len(t.elts))]
            else:
                vs = self.iter_of(v)
                if isinstance(vs, SymIter):
                    if not (vs.n == len(t.elts)):
                        raise PyExc("ValueError", "unpack")
                    vs = [vs.elem(i) for i in range(len(t.elts))]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            if len(vs) != len(t.elts):
                raise PyExc("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            idx = self.eval_index(t.slice, env)
            self.setitem(obj, idx, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def setattr(self, obj, name, v):
        if isinstance(obj, UserObj):
            A.ctx().journal_attr(obj)
            obj.__dict__[name] = v
        else:
            raise Unsupported("attribute store on %r" % type(obj))

    def setitem(self, obj, idx, v):
        if isinstance(obj, Arr):
            A.setitem(obj, idx, v)
        elif isinstance(obj, list):
            A.ctx().journal_obj(obj)
            if isinstance(idx, Sym):
                raise Unsupported("symbolic list store")
            if isinstance(idx, (slice, A.ASlice)):
                raise Unsupported("list slice store")
            try:
                obj[idx] = v
            except IndexError:
                raise PyExc("IndexError", "list assignment index out of range")
        elif isinstance(obj, dict):
            A.ctx().journal_obj(obj)
            if isinstance(idx, Sym):
                raise Unsupported("symbolic key")
            obj[idx] = v
        elif hasattr(obj, "sym_setitem"):
            obj.sym_setitem(idx, v)
        else:
            raise Unsupported("item store on %r" % type(obj))

    # ---------------------------------------------------------------- expressions
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        from . import libs
        if name in libs.BUILTINS:
            return libs.BUILTINS[name]
        if self.local_names is not None and name in self.local_names:
            raise PyExc("UnboundLocalError", name)
        raise PyExc("NameError", name)

    def eval(self, n, env):
        return getattr(self, "ex_" + type(n).__name__, self._bad)(n, env)

    def _bad(self, n, env):
        raise Unsupported("expression %s" % type(n).__name__)

    def ex_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return norm_const(v)
        if isinstance(v, complex):
            return v
        return v

    def ex_Name(self, n, env):
        v = self.lookup(n.id, env)
        if hasattr(v, "lazy_value"):
            return v.lazy_value()
        return v

    def ex_Tuple(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += list(self.iter_of(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return tuple(out)

    def ex_List(self, n, env):
        return list(self.ex_Tuple(n, env))

    def ex_Set(self, n, env):
        return set(self.ex_Tuple(n, env))

    def ex_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.eval(k, env)] = self.eval(v, env)
        return d

    def ex_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Sym):
                return s_not(T.as_bool(v))
            return not truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, A.Compress):
                from . import npmodel
                return npmodel.compress_op("mul", v, -1)
            if v is None or isinstance(v, (str, list, tuple)):
                raise PyExc("TypeError", "bad operand type for unary -")
            if isinstance(v, bool):
                return -int(v)
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return ~v
        raise Unsupported("unary")

    def ex_BinOp(self, n, env):
        return binop(BINOPS[type(n.op)], self.eval(n.left, env), self.eval(n.right, env))

    def ex_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = self.eval(n.values[0], env)
        for nxt in n.values[1:]:
            if isinstance(v, Sym):
                st = A.ctx()._static(T.toz(T.as_bool(v))) if A.ctx() else None
                if st is None and T.kind(v) == "b" and is_pure(nxt):
                    try:
                        w = self.eval(nxt, env)
                    except PyExc:
                        w = None
                    if w is not None and (isinstance(w, bool) or (isinstance(w, Sym) and w.k == "b")):
                        v = s_and(v, w) if is_and else s_or(v, w)
                        continue
                t = bool(v) if st is None else st
            else:
                t = truth(v)
            if is_and and not t:
                return v if not isinstance(v, Sym) else False
            if not is_and and t:
                return v if not (isinstance(v, Sym) and v.k == "b") else True
            v = self.eval(nxt, env)
        return v

    def ex_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, env)
            r = compare(op, left, right)
            if res is None:
                res = r
            else:
                if isinstance(res, Arr) or isinstance(r, Arr):
                    raise PyExc("ValueError", "ambiguous truth value")
                res = s_and(res, r)
            left = right
        return res

    def ex_IfExp(self, n, env):
        c = self.eval(n.test, env)
        return self.eval(n.body if truth(c) else n.orelse, env)

    def ex_Lambda(self, n, env):
        return Closure(n, env, self.module)

    def ex_JoinedStr(self, n, env):
        from . import libs
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ""
                if v.format_spec is not None:
                    spec = self.ex_JoinedStr(v.format_spec, env)
                parts.append(libs.fmt_value(self.eval(v.value, env), spec))
        return libs.str_concat(parts)

    def ex_Starred(self, n, env):
        raise Unsupported("starred expression")

    def ex_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        env.vars[n.target.id] = v
        return v

    def comp(self, n, env, make):
        if len(n.generators) != 1 or n.generators[0].is_async:
            if len(n.generators) == 2 and not n.generators[0].ifs and not n.generators[1].ifs:
                its = self.iter_of(self.eval(n.generators[0].iter, env))
                if isinstance(its, SymIter):
                    return self.comp_grid(n, env, its, make)
                out = []
                for v in its:
                    e2 = Env({}, env)
                    self.assign(n.generators[0].target, v, e2)
                    it2 = self.iter_of(self.eval(n.generators[1].iter, e2))
                    if isinstance(it2, SymIter):
                        raise Unsupported("nested symbolic comprehension")
                    for w in it2:
                        e3 = Env({}, e2)
                        self.assign(n.generators[1].target, w, e3)
                        out.append(make(e3))
                return out
            raise Unsupported("comprehension")
        g = n.generators[0]
        its = self.iter_of(self.eval(g.iter, env))
        if isinstance(its, SymIter):
            if g.ifs:
                from . import loops
                return loops.filtered_list(self, n, g, env, its, make)
            from . import loops
            return loops.comp_list(self, g, env, its, make)
        out = []
        for v in its:
            e2 = Env({}, env)
            self.assign(g.target, v, e2)
            if all(truth(self.eval(c, e2)) for c in g.ifs):
                out.append(make(e2))
        return out

    def comp_grid(self, n, env, its, make):
        """[f(x, y) for x in symbolic for y in symbolic]: the inner range must not depend on x."""
        from . import loops
        g0, g1 = n.generators
        inner = loops.comp_list(self, g0, env, its, lambda e: self.iter_n(g1, e))
        n1, n2 = its.n, inner.elem(A.ctx().skolem("t"))
        n3 = inner.elem(A.ctx().skolem("t"))
        if not T.is_num(n2) or isinstance(n2, Sym) and not n2.e.eq(n3.e):
            raise Unsupported("nested symbolic comprehension with a varying inner range")

        def row(e):
            it2 = self.iter_of(self.eval(g1.iter, e))
            return loops.comp_list(self, g1, e, it2 if isinstance(it2, SymIter) else SymIter(n2, lambda t: pick_py(it2, t)), make)
        rows = loops.comp_list(self, g0, env, its, row)
        r = SymList(T.s_mul(n1, n2), lambda t: rows.elem(T.s_floordiv(t, n2)).elem(T.s_mod(t, n2)))
        r.grid = (n1, n2, lambda i, j: rows.elem(i).elem(j))
        return r

    def iter_n(self, g, e):
        it = self.iter_of(self.eval(g.iter, e))
        return it.n if isinstance(it, SymIter) else len(list(it))

    def ex_ListComp(self, n, env):
        return self.comp(n, env, lambda e: self.eval(n.elt, e))

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n, env):
        return set(self.ex_ListComp(n, env))

    def ex_DictComp(self, n, env):
        return dict(self.comp(n, env, lambda e: (self.eval(n.key, e), self.eval(n.value, e))))

    # -- subscripts
    def eval_index(self, n, env):
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(e, env) for e in n.elts)
        if isinstance(n, ast.Slice):
            ev = lambda x: None if x is None else self.eval(x, env)   # noqa
            a, b, c = ev(n.lower), ev(n.upper), ev(n.step)
            z = lambda x: x.at() if isinstance(x, Arr) and x.ndim == 0 else x   # noqa
            return A.ASlice(z(a), z(b), z(c))
        return self.eval(n, env)

    def ex_Subscript(self, n, env):
        obj = self.eval(n.value, env)
        idx = self.eval_index(n.slice, env)
        return self.getitem(obj, idx)

    def getitem(self, obj, idx):
        if isinstance(obj, Arr):
            return A.getitem(obj, idx)
        if isinstance(obj, (list, tuple)):
            if isinstance(idx, A.ASlice):
                b = (idx.start, idx.stop, idx.step)
                if any(isinstance(x, Sym) for x in b):
                    st, ln, step = A.norm_slice(idx, len(obj))
                    if isinstance(st, Sym) or isinstance(ln, Sym):
                        return list_to_sym(obj, st, ln, step)
                    return type(obj)(obj[st + step * i] for i in range(ln))
                return obj[slice(*b)]
            if isinstance(idx, Sym):
                j = A.norm_int(idx, len(obj))
                if isinstance(j, Sym):
                    r = obj[-1]
                    for k in range(len(obj) - 2, -1, -1):
                        r = A.ite_val(T.s_eq(j, k), obj[k], r)
                    return r
                idx = j
            if isinstance(idx, Fraction) or isinstance(idx, tuple):
                raise PyExc("TypeError", "list indices must be integers")
            try:
                return obj[idx]
            except IndexError:
                raise PyExc("IndexError", "list index out of range")
        if isinstance(obj, dict):
            if isinstance(idx, Sym):
                raise Unsupported("symbolic key")
            if idx not in obj:
                raise PyExc("KeyError", str(idx))
            return obj[idx]
        if isinstance(obj, str):
            if isinstance(idx, A.ASlice):
                if any(isinstance(x, Sym) for x in (idx.start, idx.stop, idx.step)):
                    raise Unsupported("symbolic string slice")
                return obj[slice(idx.start, idx.stop, idx.step)]
            try:
                return obj[idx]
            except IndexError:
                raise PyExc("IndexError", "string index out of range")
        if isinstance(obj, SymList):
            return symlist_get(obj, idx)
        if isinstance(obj, A.Compress):
            from . import npmodel
            return npmodel.compress_get(obj, idx)
        if hasattr(obj, "sym_getitem"):
            return obj.sym_getitem(idx)
        if isinstance(obj, UserObj) and "__getitem__" in obj.cls.attrs:
            if isinstance(idx, A.ASlice) and not any(isinstance(x, Sym) for x in (idx.start, idx.stop, idx.step)):
                idx = idx
            return call(obj.cls.attrs["__getitem__"], (obj, idx))
        if T.is_num(obj):
            raise PyExc("TypeError", "scalar is not subscriptable")
        if obj is None:
            raise PyExc("TypeError", "'NoneType' object is not subscriptable")
        raise Unsupported("subscript of %r" % type(obj))

    def ex_Attribute(self, n, env):
        obj = self.eval(n.value, env)
        return self.getattr(obj, n.attr)

    def getattr(self, obj, name):
        from . import npmodel, libs
        if isinstance(obj, Arr):
            return npmodel.arr_attr(obj, name)
        if isinstance(obj, RepoMod):
            m = repo_module(obj.name)
            key = name
            if key in m.env.vars:
                return m.env.vars[key]
            raise PyExc("AttributeError", "module %s has no attribute %s" % (obj.name, name))
        if isinstance(obj, UserObj):
            if name in obj.__dict__ and name != "cls":
                return obj.__dict__[name]
            if name in obj.cls.attrs:
                f = obj.cls.attrs[name]
                if any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list):
                    return call(f, (obj,))
                return BoundMethod(f, obj)
            raise PyExc("AttributeError", name)
        if isinstance(obj, ExcInst):
            return getattr(obj, name)
        if isinstance(obj, A.Compress):
            return npmodel.compress_attr(obj, name)
        if T.is_num(obj) or isinstance(obj, (str, list, dict, tuple, set, SymList)):
            return libs.native_attr(obj, name)
        if obj is None:
            raise PyExc("AttributeError", "'NoneType' object has no attribute " + name)
        if hasattr(obj, "sym_attr"):
            return obj.sym_attr(name)
        if isinstance(obj, (UserFn, Closure)):
            if name == "__name__":
                return obj.name
        raise Unsupported("attribute %s of %r" % (name, type(obj)))

    def ex_Call(self, n, env):
        # name mangling / super etc. not needed
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.iter_of(self.eval(a.value, env))
                if isinstance(v, SymIter):
                    raise Unsupported("star-args of symbolic length")
                args += list(v)
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, env))
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        from . import libs
        if f is libs.LOCALS_MARK:
            return dict(env.vars)
        return call(f, args, kwargs)


class RepoMod(object):
    def __init__(self, name):
        self.name = name


def A_is_copy(cur, obj):
    return not (isinstance(obj, Arr) and cur.buf is obj.buf)


def list_to_sym(obj, st, ln, step):
    vals = list(obj)

    def elem(t):
        j = T.s_add(st, T.s_mul(step, t))
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = A.ite_val(T.s_eq(j, k), vals[k], r)
        return r
    return SymList(ln, elem)


def symlist_get(obj, idx):
    if isinstance(idx, A.ASlice):
        st, ln, step = A.norm_slice(idx, obj.n)
        e = obj.elem
        return SymList(ln, lambda t: e(T.s_add(st, T.s_mul(step, t))))
    try:
        j = A.norm_int(idx, obj.n)
    except PyExc:
        raise PyExc("IndexError", "list index out of range")
    return obj.elem(j)
