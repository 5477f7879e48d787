"""Execution context: path conditions, decisions, facts about uninterpreted symbols, obligations."""
import time
import z3
from . import terms as T
from .terms import Sym, PyExc, Unsupported, mk, toz, s_and, s_not


class Infeasible(Exception):
    """The current path condition is contradictory."""


class PathLimit(Unsupported):
    pass


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


STATS = Stats()
BRANCH_MS = 400
DEADLINE = [None]        # wall-clock limit of the current contract case


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Unsupported("time budget of this case used up")


def solve(assertions, timeout_ms, want_model=False, tactic=None):
    check_deadline()
    s = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    # a resource limit (about 4M units per second), so that the outcome does not depend on the load of the machine;
    # the wall-clock limit is only a backstop
    if tactic is None:
        s.set("rlimit", int(timeout_ms * 4000))
        s.set("timeout", int(timeout_ms * 6 + 500))
    else:
        s.set("timeout", int(timeout_ms))
    s.add(*assertions)
    t0 = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t0
    STATS.queries += 1
    if r == z3.unknown:
        STATS.unknown += 1
    if want_model:
        return r, (s.model() if r == z3.sat else None)
    return r


def collect_apps(exprs, seen, out):
    """All applications of uninterpreted functions/constants (arity>=0) not seen before."""
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e           # keep alive: ids are only unique among live terms
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
            stack.extend(e.children())


# --------------------------------------------------------------------- axioms of the real functions
def over_pi(x):
    """u with x = u * PI, when every term of the sum x has PI as a factor."""
    x = z3.simplify(x)
    parts = x.children() if z3.is_add(x) else [x]
    out = []
    for p in parts:
        fs, st = [], [p]
        while st:
            f = st.pop()
            if z3.is_mul(f):
                st += f.children()
            else:
                fs.append(f)
        k = [i for i, f in enumerate(fs) if z3.is_const(f) and f.decl().name() == "PI" and f.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        if len(k) != 1:
            return None
        rest = [f for i, f in enumerate(fs) if i != k[0]]
        out.append(z3.Product(rest) if len(rest) > 1 else rest[0] if rest else z3.RealVal(1))
    return z3.Sum(out) if len(out) > 1 else out[0]


def is_zero(e):
    e = z3.simplify(e, som=True)
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def _trig_axioms(app):
    nm = app.decl().name()
    x = app.arg(0)
    out = []
    if nm in ("f_cos", "f_sin"):
        c, s = toz(T.fn_app("cos", Sym(x))), toz(T.fn_app("sin", Sym(x)))
        c = T.toreal(c)
        s = T.toreal(s)
        out += [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1]
        u = over_pi(x)
        if u is not None:
            # signs on the principal quadrants, for an argument u * pi
            u = T.toreal(u)
            h = z3.RealVal("1/2")
            out += [z3.Implies(z3.And(u > -h, u < h), c > 0), z3.Implies(z3.And(u > h, u < 3 * h), c < 0),
                    z3.Implies(z3.And(u > 0, u < 1), s > 0), z3.Implies(z3.And(u > -1, u < 0), s < 0)]
    elif nm == "f_tan":
        c, s = toz(T.fn_app("cos", Sym(x))), toz(T.fn_app("sin", Sym(x)))
        out += [z3.Implies(c != 0, app == s / c)]
    elif nm == "f_sqrt":
        out += [z3.Implies(x >= 0, z3.And(app >= 0, app * app == x))]
    elif nm in ("f_exp", "f_cosh"):
        out += [app > 0]
        if nm == "f_cosh":
            out += [app >= 1]
        else:
            out += [z3.Implies(x >= 0, app >= 1), z3.Implies(x <= 0, app <= 1)]
    elif nm == "f_log2" or nm == "f_log":
        out += [z3.Implies(x > 1, app > 0), z3.Implies(x == 1, app == 0), z3.Implies(z3.And(x > 0, x < 1), app < 0)]
    elif nm == "f_pow":
        y = app.arg(1)
        out += [z3.Implies(x > 0, app > 0), z3.Implies(y == 0, app == 1), z3.Implies(y == 1, app == x),
                z3.Implies(z3.And(x == 0, y > 0), app == 0), z3.Implies(x == 1, app == 1)]
    elif nm == "f_arctan2":
        y, x, p = app.arg(0), app.arg(1), z3.Real("PI")
        out += [app > -p, app <= p, z3.Implies(y > 0, z3.And(app > 0, app < p)), z3.Implies(y < 0, app < 0),
                z3.Implies(z3.And(y == 0, x >= 0), app == 0), z3.Implies(z3.And(y == 0, x < 0), app == p),
                z3.Implies(x > 0, z3.And(app * 2 < p, app * 2 > -p)), z3.Implies(z3.And(x == 0, y > 0), app * 2 == p),
                z3.Implies(z3.And(x == 0, y < 0), app * 2 == -p)]
    return out


def is_next(i):
    """i is a term plus one (a boundary already covered by the facts of its predecessor)."""
    return z3.is_int_value(i) and i.as_long() > 0 or z3.is_app_of(i, z3.Z3_OP_ADD) and any(
        z3.is_int_value(x) and x.as_long() == 1 for x in i.children())


def split_facts(a):
    """numpy.array_split(range(L), n): n contiguous parts in order, none empty when n <= L; the part of an element."""
    from . import npmodel as N
    L, n, i = a.children()
    S = N.SPLIT_START
    ok = z3.And(n >= 1, L >= 0)
    if a.decl().name() == "split_owner":
        return [z3.Implies(z3.And(ok, i >= 0, i < L), z3.And(a >= 0, a < n, S(L, n, a) <= i, i < S(L, n, a + 1)))]
    out = [z3.Implies(z3.And(ok, i == 0), a == 0), z3.Implies(z3.And(ok, i == n), a == L),
           z3.Implies(z3.And(ok, i >= 0, i <= n), z3.And(a >= 0, a <= L))]
    if not is_next(i):
        nx = S(L, n, z3.simplify(i + 1) if z3.is_int_value(i) else i + 1)
        out += [z3.Implies(z3.And(ok, i >= 0, i < n), nx >= a), z3.Implies(z3.And(ok, n <= L, i >= 0, i < n), nx > a)]
    return out


ABS = {}                 # id -> (term, abstraction): nonlinear subterms replaced by constants


def _abs1(e):
    """Linear abstraction of a term: every nonlinear product, quotient and power becomes a constant."""
    stack = [e]
    while stack:
        t = stack[-1]
        i = t.get_id()
        if i in ABS:
            stack.pop()
            continue
        if not z3.is_app(t) or t.num_args() == 0:
            ABS[i] = (t, t)
            stack.pop()
            continue
        ch = t.children()
        need = [x for x in ch if x.get_id() not in ABS]
        if need:
            stack.extend(need)
            continue
        k = t.decl().kind()
        nl = False
        if k == z3.Z3_OP_MUL:
            nl = sum(1 for x in ch if not (z3.is_int_value(x) or z3.is_rational_value(x))) > 1
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            nl = not (z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1]))
        elif k == z3.Z3_OP_POWER:
            nl = True
        if nl:
            r = z3.Const("_nl%d" % i, t.sort())
        else:
            ac = [ABS[x.get_id()][1] for x in ch]
            if all(a is b or a.eq(b) for a, b in zip(ac, ch)):
                r = t
            elif k == z3.Z3_OP_AND:
                r = z3.And(*ac)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*ac)
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(ac)
            elif k == z3.Z3_OP_MUL:
                r = z3.Product(ac)
            elif k == z3.Z3_OP_SUB:
                r = ac[0]
                for x in ac[1:]:
                    r = r - x
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*ac)
            else:
                r = t.decl()(*ac)
        ABS[i] = (t, r)
        stack.pop()
    return ABS[e.get_id()][1]


def abstract(assertions):
    """-> (abstracted assertions, whether anything was abstracted)"""
    if len(ABS) > 400000:
        ABS.clear()
    out, ch = [], False
    for a in assertions:
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        b = _abs1(a)
        ch = ch or b is not a
        out.append(b)
    return out, ch


def solve_abs(assertions, ms):
    """Satisfiability, trying the linear abstraction first."""
    ab, ch = abstract(assertions)
    r = solve(ab, min(ms, 300) if ch else ms)
    if r == z3.unsat or not ch:
        return r
    return solve(assertions, ms)


class Ctx(object):
    def __init__(self, replay=()):
        self.replay = list(replay)
        self.log = []
        self.alternatives = []
        self.pc = []
        self.pc_dec = []              # parallel to pc: True for branch decisions, False for assumed facts
        self.pc_ids = {}
        self.fixed = {}               # conditions settled on this path outside any nested evaluation
        self.norm_cache = {}
        self.universals = []
        self.scalar_ids = {}          # the contract's scalar inputs
        self.hints = []               # extra integer terms at which universal facts are instantiated
        self.scopes = [0]
        self.nscope = 0
        self.counter = {}
        self.loop_vars = []
        self.nested = []              # stack of nested schedulers
        self.journals = []            # stack of journals (for nested rollback)
        self.write_logs = []
        self.decl_facts = {}          # decl name -> function(app) -> [z3 facts]
        self.binders = {}             # decl name -> Binder
        self.binder_index = {}
        self.obligations = []
        self.generic = {}             # id -> const: generic index constants / loop variables
        self.notes = []
        self.approx = []              # over-approximations used on this path
        self.fact_cache = {}
        self.witness = {}
        self.sides = []
        self.assumptions = set()

    # ---------------------------------------------------------------- names
    def _name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s!%d" % (base, n)

    def fresh(self, base, sort, facts=None):
        nm = self._name(base)
        if self.loop_vars:
            d = z3.Function(nm, *([z3.IntSort()] * len(self.loop_vars) + [sort]))
            e = d(*self.loop_vars)
        else:
            e = z3.Const(nm, sort)
        if facts is not None:
            self.set_facts(e.decl(), facts, len(self.loop_vars))
        return Sym(e)

    def fresh_int(self, base="i", facts=None):
        return self.fresh(base, z3.IntSort(), facts)

    def fresh_real(self, base="r", facts=None):
        return self.fresh(base, z3.RealSort(), facts)

    def fresh_bool(self, base="b"):
        return self.fresh(base, z3.BoolSort())

    def skolem(self, base="k", sort=None):
        """A generic constant (never a function of loop variables); substitutable."""
        e = z3.Const(self._name(base), z3.IntSort() if sort is None else sort)
        self.generic[e.get_id()] = e
        return Sym(e)

    def fresh_fun(self, base, arity, dtype_kind, facts=None):
        """Uninterpreted element function of `arity` integer indices (extended by the loop variables)."""
        nm = self._name(base)
        sort = {"b": z3.BoolSort(), "i": z3.IntSort(), "u": z3.IntSort()}.get(dtype_kind, z3.RealSort())
        lv = list(self.loop_vars)
        d = z3.Function(nm, *([z3.IntSort()] * (arity + len(lv)) + [sort])) if arity + len(lv) else None
        if d is None:
            c = z3.Const(nm, sort)
            if facts is not None:
                self.set_facts(c.decl(), facts, 0)
            return (lambda: Sym(c)), nm
        if facts is not None:
            self.set_facts(d, facts, len(lv))
        return (lambda *idx: Sym(d(*(lv + [toz(i) for i in idx])))), nm

    # ---------------------------------------------------------------- facts
    def set_facts(self, decl, facts, nlv):
        """facts(app) -> z3 facts about an application.  The closure may mention the loop variables current at
        creation: they are replaced by the actual leading arguments."""
        lv = list(self.loop_vars[:nlv])
        if not lv:
            self.decl_facts[decl.name()] = facts
            return

        def inst(app):
            args = app.children()
            if all(a.eq(b) for a, b in zip(args, lv)):
                return facts(app)
            rest = args[nlv:]
            ph = [z3.Const("_ph%d_%s" % (i, a.sort()), a.sort()) for i, a in enumerate(rest)]
            fs = facts(decl(*(lv + ph)))
            pairs = list(zip(lv, args[:nlv])) + list(zip(ph, rest))
            return [z3.substitute(T.zb(f), *pairs) for f in fs if f is not True]
        self.decl_facts[decl.name()] = inst

    def facts_for(self, exprs):
        seen = {}
        out = []
        todo = list(exprs)
        for _ in range(6):
            apps = []
            collect_apps(todo, seen, apps)
            new = []
            for a in apps:
                aid = a.get_id()
                hit = self.fact_cache.get(aid)
                if hit is None:
                    fs = []
                    nm = a.decl().name()
                    f = self.decl_facts.get(nm)
                    if f is not None:
                        fs = [T.zb(x) for x in f(a) if x is not True]
                    elif nm.startswith("f_"):
                        fs = _trig_axioms(a)
                    elif nm in ("split_start", "split_owner"):
                        fs = split_facts(a)
                    elif nm == "PI":
                        fs = [a > z3.RealVal("3.14159265"), a < z3.RealVal("3.14159266")]
                    self.fact_cache[aid] = (fs, a)
                else:
                    fs = hit[0]
                new += fs
            if not new:
                break
            out += new
            todo = new
        so = [a for a in seen.values() if z3.is_app(a) and a.decl().name() == "split_owner"]
        if so:
            ss = [a for a in seen.values() if z3.is_app(a) and a.decl().name() == "split_start"]
            for a in so:
                for b in ss:
                    i = b.arg(2)
                    if a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)) and not a.eq(i) and not is_next(i):
                        out.append(z3.Implies(z3.And(i >= 0, i < a.arg(1), b <= a.arg(2), a.arg(2) < b.decl()(b.arg(0), b.arg(1), i + 1)), a == i))
        # logarithm, exponential and root are increasing
        for nm, low in (("f_log", 0), ("f_exp", None), ("f_sqrt", 0)):
            mo = [a for a in seen.values() if z3.is_app(a) and a.decl().name() == nm]
            if 1 < len(mo) <= 5:
                for a in mo:
                    for b in mo:
                        if a is not b:
                            x, y = a.arg(0), b.arg(0)
                            dom = [] if low is None else [x > 0 if nm == "f_log" else x >= 0]
                            out.append(z3.Implies(z3.And(x < y, *dom), a < b))
        # parity of sine and cosine, for pairs of applications
        tr = [a for a in seen.values() if z3.is_app(a) and a.num_args() == 1 and a.decl().name() in ("f_cos", "f_sin", "f_cosh")]
        if 1 < len(tr) <= 16:
            for i, a in enumerate(tr):
                for b in tr[i + 1:]:
                    if a.decl().eq(b.decl()):
                        out.append(z3.Implies(a.arg(0) == -b.arg(0), a == (-b if a.decl().name() == "f_sin" else b)))
            cs = [a for a in tr if a.decl().name() == "f_cos"]
            if 1 < len(cs) <= 8:            # double and triple angles
                for a in cs:
                    for b in cs:
                        if a is not b:
                            for k in (2, 3):
                                if is_zero(b.arg(0) - k * a.arg(0)):
                                    out.append(b == (2 * a * a - 1 if k == 2 else 4 * a * a * a - 3 * a))
        return out

    # ---------------------------------------------------------------- queries
    def _query(self, compute):
        pos = len(self.log)
        if pos < len(self.replay):
            v = self.replay[pos]
        else:
            v = compute()
        self.log.append(v)
        return v

    def _sat(self, extra, ms=BRANCH_MS):
        a = self.pc + list(extra)
        full = a + self.facts_for(a)
        r = solve_abs(full, ms)
        if r != z3.unsat and self.binders and extra:
            lem = self.bound_lemmas(extra)
            if lem:
                full = full + lem
                return solve_abs(full + self.facts_for(lem), ms)
        return r

    def bound_lemmas(self, extra):
        """Lemmas about the minima and maxima mentioned by a branch condition."""
        from . import binders
        seen, apps = {}, []
        collect_apps(extra, seen, apps)
        mm = [a for a in apps if a.decl().name() in self.binders and self.binders[a.decl().name()].kind in ("min", "max")]
        if not mm:
            return []
        cand = [a for a in apps if a.num_args() == 0 and z3.is_int(a) and a.get_id() in self.generic][:4]
        out = []
        for a in mm[:6]:
            key = ("bl", a.get_id())
            hit = self.fact_cache.get(key)
            if hit is None:
                hit = ([T.zb(x) for x in binders.local_facts(self, a)], a, cand)
                self.fact_cache[key] = hit
            out += hit[0]
        for a in mm[:6]:
            key = ("bu", a.get_id(), len(self.witness), tuple(x.get_id() for x in cand))
            hit = self.fact_cache.get(key)
            if hit is None:
                hit = ([T.zb(x) for x in binders.universal_facts(self, a, cand)], a, cand)
                self.fact_cache[key] = hit
            out += hit[0]
        return out

    def assume(self, cond, dec=False):
        if isinstance(cond, Sym):
            cond = cond.e
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        if z3.is_false(cond):
            raise Infeasible()
        if z3.is_and(cond):
            for c in cond.children():
                self.assume(c, dec)
            return
        i = cond.get_id()
        if i in self.pc_ids:
            return
        self.pc.append(cond)
        self.pc_dec.append(dec)
        self.pc_ids[i] = len(self.pc)
        if not self.nested and not self.in_scope():
            v, k, _ = self.norm(cond)
            self.fixed[k] = v

    def in_scope(self):
        return len(self.scopes) > 1

    def norm(self, cond):
        """(polarity, id) of the normal form of a condition"""
        r = self.norm_cache.get(cond.get_id())
        if r is None:
            s, v = z3.simplify(cond), True
            while z3.is_not(s):
                s, v = s.arg(0), not v
            r = self.norm_cache[cond.get_id()] = (v, s.get_id(), (cond, s))
        return r

    def settled(self, cond):
        """True/False when the path has fixed this very condition, else None."""
        if not self.fixed:
            return None
        v, k, _ = self.norm(cond)
        r = self.fixed.get(k)
        return None if r is None else r == v

    def _static(self, cond):
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if cond.get_id() in self.pc_ids:
            return True
        if z3.is_not(cond):
            if cond.arg(0).get_id() in self.pc_ids:
                return False
        return None

    def known(self, cond):
        if isinstance(cond, Sym):
            cond = cond.e
        if isinstance(cond, bool):
            return cond
        st = self._static(cond)
        if st is not None:
            return st
        return self._query(lambda: self._sat([z3.Not(cond)]) == z3.unsat)

    def decide(self, cond):
        st = self._static(cond)
        if st is not None:
            return st
        nc = z3.Not(cond)
        if nc.get_id() in self.pc_ids:
            return False

        def feas():
            ft = self._sat([cond]) != z3.unsat
            ff = True if not ft else self._sat([nc]) != z3.unsat
            return (ft, ff)
        ft, ff = self._query(feas)
        if not ft and not ff:
            raise Infeasible()
        if not ft:
            self.assume(nc)
            return False
        if not ff:
            self.assume(cond)
            return True
        if self.nested:
            v = self.nested[-1].choose()
        else:
            pos = len(self.log)
            if pos < len(self.replay):
                v = self.replay[pos]
                self.log.append(v)
            else:
                v = True
                self.alternatives.append(self.log + [False])
                self.log.append(True)
        self.assume(cond if v else nc, True)
        return v

    def feasible(self):
        return self._query(lambda: self._sat([]) != z3.unsat)

    # ---------------------------------------------------------------- scopes
    def push(self):
        self.nscope += 1
        self.scopes.append(self.nscope)
        return (len(self.pc), self.nscope)

    def pop(self, tok):
        n, s = tok
        for c in self.pc[n:]:
            self.pc_ids.pop(c.get_id(), None)
        del self.pc[n:]
        del self.pc_dec[n:]
        while self.scopes and self.scopes[-1] != s:
            self.scopes.pop()
        self.scopes.pop()

    # ---------------------------------------------------------------- heap journal
    def journal_write(self, buf):
        for j in self.journals:
            if ("b", id(buf)) not in j:
                j[("b", id(buf))] = (buf, buf.fn, list(buf.log), buf.shape)

    def journal_obj(self, obj):
        """obj: list or dict about to be mutated."""
        for j in self.journals:
            if ("o", id(obj)) not in j:
                j[("o", id(obj))] = (obj, obj.copy())

    def journal_attr(self, obj):
        for j in self.journals:
            if ("a", id(obj)) not in j:
                j[("a", id(obj))] = (obj, dict(obj.__dict__))

    def rollback(self, j):
        for key, ent in j.items():
            if key[0] == "b":
                buf, fn, log, shape = ent
                buf.fn, buf.log, buf.shape = fn, log, shape
            elif key[0] == "a":
                obj, d = ent
                obj.__dict__.clear()
                obj.__dict__.update(d)
            else:
                obj, old = ent
                if isinstance(obj, list):
                    obj[:] = old
                else:
                    obj.clear()
                    obj.update(old)

    def note_write(self, buf, wcond, view):
        for l in self.write_logs:
            l.append((buf, wcond, view))

    # ---------------------------------------------------------------- nested exploration
    def explore_nested(self, thunk, max_paths=64):
        """Run thunk on every path; effects on the heap are rolled back after each.

        thunk() -> result, evaluated inside the scope of the path.  Returns [(delta pc, result)].
        """
        out = []
        sched = Sched()
        stack = [[]]
        while stack:
            if len(out) > max_paths:
                raise PathLimit("too many paths in a nested exploration")
            check_deadline()
            sched.start(stack.pop())
            tok = self.push()
            base = tok[0]
            j = {}
            self.journals.append(j)
            self.nested.append(sched)
            try:
                try:
                    r = thunk()
                    out.append(([p for p, d in zip(self.pc[base:], self.pc_dec[base:]) if d], r))
                except Infeasible:
                    pass
            finally:
                self.nested.pop()
                self.journals.pop()
                self.rollback(j)
                self.pop(tok)
            stack.extend(sched.alternatives)
        return out

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, kindname="post", hints=()):
        """Record and discharge an obligation under the current path condition."""
        from . import prove
        check_deadline()
        ob = prove.Obligation(name, kindname)
        pos = len(self.log)
        if pos < len(self.replay) and self.replay[pos] == "proved":
            # already discharged on the common prefix of an earlier path
            self.log.append("proved")
            return True
        if not isinstance(goal, Sym):
            ob.status = "proved" if goal else "refuted"
            ob.how = "constant"
            if not goal:
                prove.discharge(self, ob, z3.BoolVal(False))
        else:
            prove.discharge(self, ob, goal.e, hints)
        self.log.append("proved" if ob.status == "proved" else ob.status)
        self.obligations.append(ob)
        return ob.status == "proved"

    def forall(self, name, shape, pred, kindname="post", names=None):
        """Obligation: pred(idx) for every index in range (skolemised)."""
        ks = [self.skolem((names[i] if names else "k")) for i in range(len(shape))]

        def body():
            for k, n in zip(ks, shape):
                self.assume(s_and(k >= 0, k < n))
            g = pred(*ks)
            if isinstance(g, (list, tuple)):
                for i, gi in enumerate(g):
                    self.prove("%s.%d" % (name, i), gi, kindname)
            else:
                self.prove(name, g, kindname)
        self.explore_nested(body)

    def note_approx(self, what):
        self.approx.append(what)


class Sched(object):
    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.taken = []
        self.alternatives = []

    def start(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alternatives = []

    def choose(self):
        p = len(self.taken)
        if p < len(self.prefix):
            v = self.prefix[p]
        else:
            v = True
            self.alternatives.append(self.taken + [False])
        self.taken.append(v)
        return v


def explore(thunk, max_paths=600):
    """Yield (ctx, kind, value) for every path; kind in ok / exc."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix)
        T.CTX = c
        n += 1
        if n > max_paths:
            raise PathLimit("more than %d paths" % max_paths)
        check_deadline()
        try:
            try:
                v = thunk(c)
                res = (c, "ok", v)
            except PyExc as e:
                res = (c, "exc", e)
            except Infeasible:
                res = None
        finally:
            stack.extend(c.alternatives)
        if res is not None:
            yield res
        T.CTX = None


# --------------------------------------------------------------------- substitution of generic constants
def subst(v, pairs):
    """pairs: [(z3 const, value)]"""
    if isinstance(v, Sym):
        return mk(z3.substitute(v.e, *[(c, toz(x)) for c, x in pairs]))
    return v
