"""Symbolic evaluation of a contract: the harness runs once per path of the real code, each clause is an obligation."""
import time
import traceback
from fractions import Fraction
import z3
from . import terms as T
from . import arrays as A
from . import engine
from . import interp as I
from . import npmodel as N
from . import libs                       # noqa: registers the library models
from . import prove
from .spec import Done
from .terms import Sym, PyExc, Unsupported, s_and, s_not, toz

CALLEES = {}          # (module, function) -> spec function: modular contracts of callees


def callee(module, func):
    """Register the contract of a callee: spec(*args) -> result, or NotImplemented to expand the body."""
    def deco(f):
        CALLEES[(module, func)] = f
        return f
    return deco


def pure_callee(module, func, shape, dtype="float64"):
    """Callee contract: a function of its arguments alone (shape given by shape(args) in terms of them), no side effect."""
    @callee(module, func)
    def spec(env, **kw):
        sh = shape(kw)
        if sh is NotImplemented:
            return NotImplemented
        arrs = [v for _, v in sorted(kw.items()) if isinstance(v, A.Arr)]
        key, sc = libs.keyparts(*["arr" if isinstance(v, A.Arr) else v for _, v in sorted(kw.items())])
        env.c.assumptions.add("%s.%s is a deterministic function of its arguments (callee contract)" % (module, func))
        return N.opaque_array("callee:%s.%s" % (module, func), arrs, tuple(sh), sc, dtype(kw) if callable(dtype) else dtype, key)
    return spec


class Env(object):
    rt = False

    def __init__(self, c, contract, case, mode):
        self.c = c
        self.contract = contract
        self.case = case
        self.mode = mode                # "full" or "frame"
        self.inputs = {}                # name -> ("int"/"real"/"bool"/"array", value)
        self.arrays = []
        self.ncall = 0
        self.returned = False
        self.target = None
        c.dims = []
        c.extract = self.extract

    # ------------------------------------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None, small=None, dim=None):
        v = self.c.skolem(name)
        # inputs are ordinary constants, not substitutable index variables
        self.c.generic.pop(v.e.get_id(), None)
        self.c.scalar_ids[v.e.get_id()] = v.e
        if lo is not None:
            self.c.assume(T.s_ge(v, lo))
        if hi is not None:
            self.c.assume(T.s_le(v, hi))
        self.inputs[name] = ("int", v)
        if dim is not False and not (lo is not None and not isinstance(lo, Sym) and lo < 0):
            self.c.dims.append(v.e)
        return v

    def size(self, name, lo=1, hi=None, small=None):
        return self.int(name, lo, hi, small)

    def real(self, name, lo=None, hi=None, vals=None):
        v = Sym(z3.Const(self.c._name(name), z3.RealSort()))
        self.c.scalar_ids[v.e.get_id()] = v.e
        if lo is not None:
            self.c.assume(T.s_ge(v, lo))
        if hi is not None:
            self.c.assume(T.s_le(v, hi))
        self.inputs[name] = ("real", v)
        return v

    def bool(self, name):
        v = Sym(z3.Const(self.c._name(name), z3.BoolSort()))
        self.inputs[name] = ("bool", v)
        return v

    def array(self, name, shape, dtype="float32", lo=None, hi=None, elem=None, gen=None):
        k = A.kind_of_dtype(dtype)
        if k in "iu" and lo is None and hi is None and dtype in A._WRAP:
            bits, signed = A._WRAP[dtype]
            lo = -(1 << (bits - 1)) if signed else 0
            hi = (1 << (bits - 1 if signed else bits)) - 1
        facts = None
        if lo is not None or hi is not None or elem is not None:
            def facts(app):
                out = []
                v = Sym(app)
                if lo is not None:
                    out.append(T.s_ge(v, lo))
                if hi is not None:
                    out.append(T.s_le(v, hi))
                if elem is not None:
                    r = elem(v, *[T.mk(x) for x in app.children()])
                    out += list(r) if isinstance(r, (list, tuple)) else [r]
                return [x for x in out if x is not True]
        f, nm = self.c.fresh_fun(name, len(shape), k, facts)
        a = A.mkarr(tuple(shape), f, dtype, owner="caller", name=name)
        self.inputs[name] = ("array", a)
        self.arrays.append((name, a))
        return a

    def derived(self, name, shape, fn, dtype="float32"):
        """An input array given by a formula (a precondition on its contents); part of the frame as well."""
        a = A.mkarr(tuple(shape), fn, dtype, owner="caller", name=name)
        self.arrays.append((name, a))
        return a

    def permutation(self, name, shape, axis, dtype="float64"):
        """An input array each of whose lines along `axis` is an arbitrary permutation of 0..n-1."""
        f, _ = self.c.fresh_fun(name + "_key", len(shape), "f", None)
        key = A.mkarr(tuple(shape), f, "float64")
        p = N.np_argsort(key, axis)
        s = p.snap()
        a = A.mkarr(tuple(shape), lambda *i: A.cast(s(*i), dtype), dtype, owner="caller", name=name)
        self.arrays.append((name, a))
        return a

    def require(self, *conds):
        for cnd in conds:
            self.c.assume(cnd)

    def method(self, name, grow=(0, 0), dtype="float64"):
        """An arbitrary deterministic function of an image and parameters, giving an image of size (rows, cols) + grow."""
        def f(*args, **kw):
            if not args or not isinstance(args[0], A.Arr) or args[0].ndim != 2:
                raise Unsupported("method applied to something else than an image")
            vals = list(args) + [v for _, v in sorted(kw.items())]
            arrs = [v for v in vals if isinstance(v, A.Arr)]
            key, sc = libs.keyparts(*(["arr" if isinstance(v, A.Arr) else v for v in vals] + sorted(kw)))
            sh = tuple(T.s_add(n, g) for n, g in zip(args[0].shape, grow))
            return N.opaque_array("method:%s%s" % (name, grow), arrs, sh, sc, dtype, key)
        return f

    # ------------------------------------------------------------------------------------------- running
    def fn(self, func=None, module=None):
        m = I.repo_module(module or self.contract.module)
        func = func or self.contract.func
        if func not in m.funcs:
            if func in m.env.vars:
                return m.env.vars[func]
            raise Missing("%s.%s" % (m.name, func))
        return m.funcs[func]

    def call(self, *args, **kw):
        return self.run(self.fn(), *args, **kw)

    def apply(self, func, module, *args, **kw):
        """A repository function (or the contract it is known by) applied by the specification."""
        return I.call(self.fn(func, module), args, kw)

    def lib(self, mod, name, *args, **kw):
        """A library function applied by the specification (its model; opaque functions compare by congruence)."""
        return I.call(libs.get_member(mod, name, None), args, kw)

    def run(self, f, *args, **kw):
        raises = kw.pop("_raises", {})
        may = kw.pop("_may_raise", {})
        if isinstance(f, str):
            f = self.fn(f)
        self.target = f
        self.ncall += 1
        tag = "" if self.ncall == 1 else "#%d" % self.ncall
        try:
            r = I.call(f, args, kw)
        except PyExc as e:
            for et in list(raises) + list(may):
                if T.exc_is(e.etype, et):
                    self.ensure("raises_%s_only_if%s" % (et, tag), (raises.get(et) if et in raises else may[et]))
                    if raises.get(et) is True:
                        self.returned = True
                    raise Done()
            ob = "no_%s%s@%s" % (e.etype, tag, getattr(e, "where", "?"))
            self.exc_msg = "%s: %s" % (e.etype, e.msg)
            self._prove(ob, False)
            raise Done()
        self.returned = True
        for et, cond in raises.items():
            self.ensure("raises_%s_if%s" % (et, tag), s_not(cond))
        return r

    # ------------------------------------------------------------------------------------------- clauses
    def _prove(self, name, cond):
        return self.c.prove("%s/%s" % (self.contract.name, name), cond)

    def ensure(self, name, cond):
        if self.mode == "frame":
            return
        self._prove(name, cond)

    def forall(self, name, shape, pred, sample=None):
        if self.mode == "frame":
            return
        self.c.forall("%s/%s" % (self.contract.name, name), tuple(shape), pred)

    def lemma(self, text, cond):
        """A fact of real analysis that the solvers do not know; recorded among the assumptions."""
        self.c.assumptions.add("mathematics: " + text)
        self.c.assume(cond)

    def assume_proved(self, cond):
        """Use an already proved clause as a fact for the later ones."""
        self.c.assume(cond)

    def hint(self, *exprs):
        for e in exprs:
            if isinstance(e, Sym):
                self.c.hints.append(e.e)

    def case_split(self, cond):
        """Split the remaining clauses on a condition."""
        return bool(cond) if isinstance(cond, Sym) else cond

    def skolem(self, name, lo, hi):
        k = self.c.skolem(name)
        self.c.assume(s_and(T.s_ge(k, lo), T.s_le(k, hi)))
        return k

    def ndim(self, a):
        return a.ndim

    def isarr(self, a):
        return isinstance(a, A.Arr)

    def frame_clauses(self):
        for name, a in self.arrays:
            b = a.buf
            if not b.log:
                ob = prove.Obligation("%s/frame_%s" % (self.contract.name, name), "frame")
                ob.status, ob.how = "proved", "no write reaches the buffer"
                self.c.obligations.append(ob)
                continue
            if len(b.shape) != len(a.shape):
                raise Unsupported("reshaped in place")
            cur, old = b.fn, b.fn0
            self.c.forall("%s/frame_%s" % (self.contract.name, name), b.shape,
                          lambda *i: T.s_eq(cur(*i), old(*i)), "frame")

    # ------------------------------------------------------------------------------------------- models
    def extract(self, m):
        def val(e):
            v = m.eval(toz(e), model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            if z3.is_algebraic_value(v):
                return float(v.approx(12).as_fraction())
            raise ValueError("no value for %s" % e)
        out = {}
        for name, (k, v) in self.inputs.items():
            if k != "array":
                out[name] = val(v)
            else:
                shp = [s if not isinstance(s, Sym) else val(s) for s in v.shape]
                tot = 1
                for s in shp:
                    tot *= s
                if tot > 4000:
                    raise ValueError("counter-model too large")
                import itertools
                f0 = v.buf.fn0
                out[name] = {"shape": shp, "dtype": v.dtype,
                             "data": [val(f0(*i)) for i in itertools.product(*[range(s) for s in shp])]}
        return out


class Missing(Unsupported):
    pass


def hook(env):
    active = []

    def h(f, args, kwargs):
        key = (f.module.name, f.name)
        sp = CALLEES.get(key)
        if sp is None or f is env.target or key in active or sp in active:
            return False, None
        if key == (env.contract.module, env.contract.func):
            return False, None
        active.append(key)
        try:
            a = f.node.args
            it = I.Interp(f.module)
            vals = I.bind_args(a, args, kwargs, [it.eval(d, f.env) for d in a.defaults], [], f.name)
            r = sp(env, **vals)
        finally:
            active.pop()
        if r is NotImplemented:
            return False, None
        return True, r
    return h


def precise(ob, c):
    """Is a counter-model of this obligation exact for the mathematical semantics?"""
    return not (c.approx or c.binders or c.universals or getattr(ob, "transcendental", False))


def run_case(contract, case, mode="full", budget=None):
    """-> dict with the outcome of the case (JSON-able)."""
    t0 = time.time()
    engine.DEADLINE[0] = t0 + (budget or contract.budget)
    q0, s0 = engine.STATS.queries, engine.STATS.solver_s
    obs = {}
    out = {"contract": contract.name, "case": case, "key": contract.key(case), "paths": 0, "normal": 0, "unsupported": None,
           "assumptions": []}
    ass = set()
    I.ENTERED.clear()
    saved_ms = prove.CONF["ms"]
    if contract.ms:
        prove.CONF["ms"] = contract.ms
    try:
        def thunk(c):
            env = Env(c, contract, case, mode)
            c.env = env
            I.CONTRACT_HOOK[0] = hook(env)
            try:
                contract.harness(env, **case)
            except Done:
                pass
            if contract.frame and mode == "frame":
                env.frame_clauses()
            return env
        for c, kind, v in engine.explore(thunk, contract.max_paths):
            out["paths"] += 1
            if kind == "exc":
                raise Unsupported("exception escaped the harness: %s" % v)
            if v.returned and c.feasible():
                out["normal"] += 1
            ass |= c.assumptions
            for o in c.obligations:
                d = obs.setdefault(o.name, {"name": o.name, "n": 0, "status": "proved", "how": {}, "seconds": 0.0})
                d["n"] += 1
                d["seconds"] += o.seconds
                d["how"][o.how] = d["how"].get(o.how, 0) + 1
                if o.status != "proved":
                    rank = {"proved": 0, "unknown": 1, "refuted": 2}
                    if rank[o.status] > rank[d["status"]] or (o.inputs is not None and d.get("inputs") is None):
                        d["status"] = o.status
                        d["inputs"] = o.inputs
                        d["precise"] = precise(o, c)
                        d["note"] = o.note
                        d["approx"] = list(o.approx)[:4]
    except Unsupported as e:
        out["unsupported"] = "%s%s" % (e, (" at " + e.where) if getattr(e, "where", None) else "")
    except RecursionError:
        out["unsupported"] = "recursion limit of the interpreter"
    except z3.Z3Exception as e:
        out["unsupported"] = "z3: %s" % e
        out["trace"] = traceback.format_exc()[-1800:]
    except Exception as e:
        out["unsupported"] = "engine: %s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-1800:]
    finally:
        prove.CONF["ms"] = saved_ms
        engine.DEADLINE[0] = None
        I.CONTRACT_HOOK[0] = None
        T.CTX = None
    out["obligations"] = list(obs.values())
    out["assumptions"] = sorted(ass)
    out["entered"] = dict(sorted(set(I.ENTERED.values())))
    out["seconds"] = time.time() - t0
    out["queries"] = engine.STATS.queries - q0
    out["solver_s"] = engine.STATS.solver_s - s0
    return out
