"""Discharging obligations: z3 (cvc5 as a second back end), lemma instantiation, counter-model extraction."""
import time
import z3
from . import terms as T
from . import binders, polyred, ratform
from .engine import collect_apps, solve, STATS

CONF = {"ms": 12000, "cvc5": True, "crosscheck": False}


class Obligation(object):
    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.status = None
        self.how = None
        self.seconds = 0.0
        self.model = None
        self.note = ""
        self.inputs = None
        self.approx = ()


def lemma_rounds(ctx, base, rounds=3, light=False):
    """Facts + binder lemmas for the assertion set (light: without congruences and universal facts)."""
    out = list(base)
    facts = ctx.facts_for(out)
    out += facts
    done_pair, done_app = set(), set()
    for _ in range(rounds):
        seen, apps = {}, []
        collect_apps(out, seen, apps)
        bapps = [a for a in apps if a.decl().name() in ctx.binders]
        cand = [a for a in apps if a.num_args() == 0 and z3.is_int(a) and a.get_id() in ctx.generic]
        hh = {x.get_id(): x for x in cand}
        for x in ctx.hints:
            hh.setdefault(x.get_id(), x)
        cand = list(hh.values())[:14]
        new = []
        for a in bapps:
            if a.get_id() not in done_app:
                done_app.add(a.get_id())
                new += binders.local_facts(ctx, a)
            key = (a.get_id(), "u", tuple(c.get_id() for c in cand))
            if key not in done_app:
                done_app.add(key)
                new += binders.universal_facts(ctx, a, cand)
        for lv, u in () if light else ctx.universals:
            key = (id(u), tuple(c.get_id() for c in cand))
            if key not in done_app:
                done_app.add(key)
                fs = [T.zb(x) for x in u(cand) if x is not True]
                if lv and len(lv) == 1 and len(cand) <= 8:
                    fs = fs + [z3.substitute(f, (lv[0], x)) for f in fs for x in cand if not x.eq(lv[0])]
                new += fs
        for i, a in enumerate(() if light else bapps):
            for b in bapps[i + 1:]:
                if a.sort() != b.sort():
                    continue
                k = (a.get_id(), b.get_id())
                if k in done_pair:
                    continue
                done_pair.add(k)
                if ctx.binders[a.decl().name()].kind != ctx.binders[b.decl().name()].kind:
                    continue
                l = binders.congruence(ctx, a, b)
                if l is not None:
                    new.append(l)
        if not new:
            break
        out += new
        out += ctx.facts_for(new)
    return out


def dims_limits(ctx):
    lim = getattr(ctx, "dims", [])
    return lim


def discharge(ctx, ob, goal, hints=()):
    t0 = time.time()
    try:
        _discharge(ctx, ob, goal, hints)
    finally:
        ob.seconds = time.time() - t0
        ob.approx = tuple(ctx.approx)


def _discharge(ctx, ob, goal, hints):
    if ob.how != "constant":
        g = z3.simplify(goal)
        if z3.is_true(g):
            ob.status, ob.how = "proved", "simplifier"
            return
        if goal.get_id() in ctx.pc_ids:
            ob.status, ob.how = "proved", "path condition"
            return
    # split conjunctions: smaller queries
    base = ctx.pc + [z3.Not(goal)] + list(hints)
    nb = len(ctx.binders) > 0 or bool(ctx.universals)
    ms = CONF["ms"]
    # quick attempt without lemmas
    a0 = base + ctx.facts_for(base)
    from .engine import solve_abs, abstract
    if ratform.has_quotient(goal) or any(ratform.has_quotient(x) for x in ctx.pc[-8:]):
        if solve(abstract(ratform.normalise([x for x in a0 if not x.eq(base[len(ctx.pc)])], goal))[0], 1500) == z3.unsat:
            ob.status, ob.how = "proved", "z3 (rational normal form)"
            return
        lits = {}

        def side(c):
            i = c.get_id()
            if i not in lits:
                a = [x for x in a0 if not x.eq(base[len(ctx.pc)])]
                lits[i] = (c, solve(abstract(ratform.normalise(a, c))[0], 500) == z3.unsat or solve_abs(ctx.pc + [z3.Not(c)], 500) == z3.unsat
                           or solve([z3.Not(c)], 500) == z3.unsat)
            return lits[i][1]
        if polyred.equation(goal, side):
            ob.status, ob.how = "proved", "polynomial rewriting"
            return
    r = solve_abs(a0, min(ms, 1500))
    full = a0
    if r != z3.unsat and ctx.binders and structural(ctx, goal, ctx.pc + list(hints), time.time() + 8):
        ob.status, ob.how = "proved", "z3 (congruence)"
        return
    if r != z3.unsat and nb:
        full = lemma_rounds(ctx, base)
        r = solve_abs(full, min(ms, 2000))
    if r != z3.unsat and split_proof(ctx, goal, full, len(base), time.time() + ms / 1000.0 * 4):
        ob.status, ob.how = "proved", "z3 (case split on the goal)"
        return
    if r == z3.unknown:
        r = solve(full, ms)
    if r == z3.unsat:
        ob.status, ob.how = "proved", "z3"
        if CONF["crosscheck"]:
            ob.how = "z3+cvc5" if cvc5_check(full, ms) == "unsat" else "z3"
        return
    if r == z3.unknown:
        r2 = second_try(full, ms)
        if r2 == "unsat":
            ob.status, ob.how = "proved", "z3/cvc5 (second try)"
            return
        ob.status, ob.how = "unknown", "timeout"
    else:
        ob.status, ob.how = "refuted", "z3"
    ob.transcendental = any(a.num_args() and a.decl().name() != "f_sqrt" and a.decl().name().startswith("f_") for a in all_apps(full))
    # try for a small model
    dims = getattr(ctx, "dims", [])
    for lim in (4, 6, 9, 14, None):
        extra = [d <= lim for d in dims] if lim is not None else []
        if lim is not None and not dims:
            continue
        rr, m = solve(full + extra, 3000, want_model=True)
        if rr == z3.sat:
            ob.status = "refuted"
            ob.how = "z3"
            ob.model = m
            ex = getattr(ctx, "extract", None)
            if ex is not None:
                try:
                    ob.inputs = ex(m)
                except Exception as e:      # model extraction is best effort
                    ob.note = "model extraction failed: %s" % e
            return


def all_apps(exprs):
    apps = []
    collect_apps(exprs, {}, apps)
    return apps


def binder_apps(ctx, e):
    seen, apps = {}, []
    collect_apps([e], seen, apps)
    return [a for a in apps if a.decl().name() in ctx.binders]


def structural(ctx, goal, pc, end):
    if structural1(ctx, goal, pc, end):
        return True
    sg = z3.simplify(goal)
    if z3.is_or(sg):
        # hypotheses of an implication are assumptions of everything below
        eqs = [d for d in sg.children() if z3.is_eq(d) and z3.is_arith(d.arg(0))]
        if len(eqs) == 1:
            pc = pc + [z3.simplify(z3.Not(d)) for d in sg.children() if not d.eq(eqs[0])]
            return structural1(ctx, eqs[0], pc, time.time() + 5, True)
    return False


def structural1(ctx, goal, pc, end, deciding=False):
    """Prove the goal after merging reductions and opaque applications shown equal by congruence, inside out.

    Sound: two applications are merged only when their sizes, scalars and bodies are proved equal under the path condition
    (the bodies at fresh indices inside the domain)."""
    from .engine import solve_abs
    memo = {}

    def query(local, g, ms):
        a = pc + local + [z3.Not(g)]
        return solve_abs(a + ctx.facts_for(a), ms) == z3.unsat

    decided = {}

    def lemma_query(local, g):
        """The same with the reductions' lemmas, for a condition that mentions a reduction."""
        k = (g.get_id(), tuple(x.get_id() for x in local))
        if k not in decided:
            a = pc + local + [z3.Not(g)]
            decided[k] = (bool(binder_apps(ctx, g)) and time.time() < end
                          and solve_abs(lemma_rounds(ctx, a, 1, True), 2000) == z3.unsat, g)
        return decided[k][0]

    def decide(g, local):
        """g with the conditions replaced that are decided by the path condition and the reductions' lemmas."""
        done, seen = False, set()
        for _ in range(6):
            c = find_ite(g, set(seen))
            if c is None:
                break
            if query(local, c, 500) or lemma_query(local, c):
                g, done = z3.simplify(z3.substitute(g, (c, z3.BoolVal(True)))), True
            elif query(local, z3.Not(c), 500) or lemma_query(local, z3.Not(c)):
                g, done = z3.simplify(z3.substitute(g, (c, z3.BoolVal(False)))), True
            else:
                break
        return g, done

    def merged(e, local, depth):
        """e with every application replaced by an equal, earlier one."""
        apps = binder_apps(ctx, e)
        pairs = []
        kept = []
        for a in apps:
            for b in kept:
                if same(a, b, local, depth):
                    pairs.append((a, b))
                    break
            else:
                kept.append(a)
        return (z3.simplify(z3.substitute(e, *pairs)), True) if pairs else (e, False)

    def equal(x, y, local, depth):
        if x.eq(y):
            return True
        if x.sort() != y.sort():
            if not (z3.is_arith(x) and z3.is_arith(y)):
                return False
            x, y = T.toreal(x), T.toreal(y)
        g = z3.simplify(x == y)
        if z3.is_true(g):
            return True
        if z3.is_app(x) and z3.is_app(y) and x.num_args() > 0 and x.decl().eq(y.decl()) and x.decl().name() not in ctx.binders \
                and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if all(equal(p, q, local, depth) for p, q in zip(x.children(), y.children())):
                return True
        if depth < 4 and time.time() < end:
            eqs = regroup(g, local, depth)
            if eqs:
                g = z3.simplify(z3.substitute(g, *[(f.arg(0), f.arg(1)) for f in eqs]), som=True)
                if z3.is_true(g):
                    return True
        g, ch = merged(g, local, depth)
        if z3.is_true(g):
            return True
        return by_cases(g, local) or query(local, g, 700)

    def by_cases(g, local):
        """Conditions decided by the path condition, then polynomial normalisation."""
        for _ in range(8):
            c = find_ite(g, set())
            if c is None:
                break
            if query(local, c, 500):
                g = z3.simplify(z3.substitute(g, (c, z3.BoolVal(True))))
            elif query(local, z3.Not(c), 500):
                g = z3.simplify(z3.substitute(g, (c, z3.BoolVal(False))))
            else:
                return False
        if z3.is_true(z3.simplify(g, som=True, elim_to_real=True)):
            return True
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            d = z3.simplify(g.arg(0) - g.arg(1), som=True, elim_to_real=True)
            return (z3.is_rational_value(d) and d.as_fraction() == 0) or (z3.is_int_value(d) and d.as_long() == 0)
        return False

    def same(a, b, local, depth):
        k = (a.get_id(), b.get_id(), tuple(x.get_id() for x in local))
        if k not in memo:
            memo[k] = False
            memo[k] = _same(a, b, local, depth)
        return memo[k]

    def _same(a, b, local, depth):
        if depth > 5 or time.time() > end or a.sort() != b.sort():
            return False
        b1, b2 = ctx.binders[a.decl().name()], ctx.binders[b.decl().name()]
        if b1.kind != b2.kind or b1.statickey != b2.statickey:
            return False
        b1, g1, s1, i1 = binders.template(ctx, a)
        b2, g2, s2, i2 = binders.template(ctx, b)
        if len(g1) != len(g2) or len(s1) != len(s2) or len(i1) != len(i2) or any(len(x[1]) != len(y[1]) for x, y in zip(g1, g2)):
            return False
        if not all(equal(x, y, local, depth + 1) for x, y in list(zip(s1, s2)) + list(zip(i1, i2))):
            return False
        for x, y in zip(g1, g2):
            if not all(equal(p, q, local, depth + 1) for p, q in zip(x[1], y[1])):
                return False
            w = [ctx.skolem("cw").e for _ in x[1]]
            p, q = binders.at(x, w), binders.at(y, w)
            if p.eq(q):
                continue
            if z3.is_bool(p) != z3.is_bool(q):
                return False
            if not equal(p, q, local + [binders.dom(x, w)], depth + 1):
                return False
        return True

    def sum1(a):
        b = ctx.binders[a.decl().name()]
        if b.kind != "sum" or len(b.groups) != 1 or len(b.groups[0][1]) != 1:
            return None
        return binders.template(ctx, a)[1][0]

    def regroup(goal, local, depth):
        """sum(k < q*c + r, f(k)) = sum(i < q, sum(p < c, f(i*c + p))) + sum(p < r, f(q*c + p)), for the sums of the goal."""
        flat, nested = [], []
        for a in binder_apps(ctx, goal):
            g = sum1(a)
            if g is None:
                continue
            i = ctx.skolem("rg").e
            bd = binders.at(g, [i])
            bd = bd.arg(0) if z3.is_app_of(bd, z3.Z3_OP_TO_REAL) else bd
            if z3.is_app(bd) and bd.decl().name() in ctx.binders:
                gi = sum1(bd)
                if gi is not None and not binders._mentions(gi[1][0], [i]):
                    nested.append((a, g, gi, i))
            flat.append((a, g))
        facts = []
        for a, g, gi, i in nested:
            q, c = g[1][0], gi[1][0]
            for H, h in flat:
                if H.eq(a) or H.sort() != a.sort():
                    continue
                p = ctx.skolem("rg").e
                inner = z3.simplify(binders.at(gi, [p]), som=True)
                want = z3.simplify(binders.at(h, [i * c + p]), som=True)
                dom = [i >= 0, i < q, p >= 0, p < c]
                rests = [(R, r) for R, r in flat if not R.eq(H) and not R.eq(a) and R.sort() == H.sort()]
                size = [(R, r) for R, r in rests if query(local, z3.And(h[1][0] == q * c + r[1][0], q >= 0, c >= 0, r[1][0] >= 0), 1500)]
                whole = not size and query(local, z3.And(h[1][0] == q * c, q >= 0, c >= 0), 1500)
                if not (size or whole) or time.time() > end or not equal(inner, want, local + dom, depth + 1):
                    continue
                if whole:
                    facts.append(H == a)
                for R, r in size:
                    p = ctx.skolem("rg").e
                    x, y = z3.simplify(binders.at(r, [p]), som=True), z3.simplify(binders.at(h, [q * c + p]), som=True)
                    if equal(x, y, local + [p >= 0, p < r[1][0]], depth + 1):
                        facts.append(H == a + R)
                        break
        return facts

    extra = regroup(goal, [], 0) if time.time() < end else []
    if extra:
        eqs = [(f.arg(0), f.arg(1)) for f in extra]
        goal = z3.simplify(z3.substitute(goal, *eqs), som=True)
        if z3.is_true(goal):
            return True
        if query(extra, goal, 2000):
            return True
    if deciding and not z3.is_true(z3.simplify(goal)):
        goal, _ = decide(goal, [])
    g, ch = merged(goal, [], 0)
    if z3.is_true(z3.simplify(g)):
        return True
    if not ch or time.time() > end:
        return False
    return query([], g, 2000)


def find_ite(e, seen):
    """A condition of an if-then-else inside e whose own condition is free of if-then-else."""
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            inner = find_ite_in(x.arg(0))
            return inner if inner is not None else x.arg(0)
        st.extend(x.children())
    return None


def find_ite_in(c):
    seen = set()
    st = [c]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return find_ite_in(x.arg(0)) if find_ite_in(x.arg(0)) is not None else x.arg(0)
        st.extend(x.children())
    return None


def nonlinear(e, memo):
    i = e.get_id()
    hit = memo.get(i)
    if hit is not None:
        return hit[0]
    r = False
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for a in e.children() if not (z3.is_rational_value(a) or z3.is_int_value(a))) > 1:
            r = True
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (
                z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1))):
            r = True
        else:
            r = any(nonlinear(a, memo) for a in e.children())
    memo[i] = (r, e)
    return r


def split_proof(ctx, goal, full, nbase, end, max_leaves=96):
    """Case split on the if-then-else conditions of the goal; leaves are closed by polynomial normalisation or the solver.

    Sound: every leaf is proved under (path condition and facts) plus its case assumptions, and the cases are exhaustive.
    """
    memo = {}
    lin = [a for a in full if not nonlinear(a, memo) and not a.eq(full[nbase - 1])]
    facts = [a for i, a in enumerate(full) if not (z3.is_not(a) and a.arg(0).eq(goal))]
    lin = [a for a in lin if not (z3.is_not(a) and a.arg(0).eq(goal))]
    # equal reductions: replace one by the other
    seen, apps = {}, []
    collect_apps([goal], seen, apps)
    bap = [a for a in apps if a.decl().name() in ctx.binders]
    pairs = []
    for i, a in enumerate(bap):
        for b in bap[i + 1:]:
            if a.sort() == b.sort() and ctx.binders[a.decl().name()].kind == ctx.binders[b.decl().name()].kind \
                    and not any(p[0].eq(b) or p[0].eq(a) for p in pairs):
                l = binders.congruence(ctx, a, b)
                if l is None:
                    continue
                cl = [l]
                if time.time() < end and solve(lin + [l] + ctx.facts_for([l]) + [a != b], 1500) == z3.unsat:
                    pairs.append((b, a))
    g = z3.substitute(goal, *pairs) if pairs else goal
    s = z3.Solver()
    s.set("rlimit", 2400000)
    s.set("timeout", 3000)
    s.add(*lin)
    leaves = [0]

    def leaf(e, conds):
        t = z3.simplify(e, som=True, elim_to_real=True)
        if z3.is_true(t):
            return True
        # equations: difference normalises to zero
        if z3.is_eq(e) and z3.is_arith(e.arg(0)):
            d = z3.simplify(e.arg(0) - e.arg(1), som=True, elim_to_real=True)
            if z3.is_rational_value(d) or z3.is_int_value(d):
                if d.as_fraction() == 0 if z3.is_rational_value(d) else d.as_long() == 0:
                    return True
        r = solve(facts + conds + [z3.Not(e)], 2500)
        return r == z3.unsat

    def go(e, conds):
        if time.time() > end:
            return False
        leaves[0] += 1
        if leaves[0] > max_leaves:
            return False
        while True:
            c = find_ite(e, set())
            if c is None:
                return leaf(e, conds)
            STATS.queries += 2
            s.push()
            s.add(z3.Not(c))
            t_imp = s.check() == z3.unsat
            s.pop()
            if t_imp:
                e = z3.simplify(z3.substitute(e, (c, z3.BoolVal(True))))
                continue
            s.push()
            s.add(c)
            f_imp = s.check() == z3.unsat
            s.pop()
            if f_imp:
                e = z3.simplify(z3.substitute(e, (c, z3.BoolVal(False))))
                continue
            for v, lit in ((True, c), (False, z3.Not(c))):
                s.push()
                s.add(lit)
                ok = go(z3.simplify(z3.substitute(e, (c, z3.BoolVal(v)))), conds + [lit])
                s.pop()
                if not ok:
                    return False
            return True
    if z3.is_and(g):
        return all(go(ch, []) for ch in g.children())
    return go(g, [])


def second_try(full, ms):
    for tac in (("simplify", "solve-eqs", "smt"), ("simplify", "purify-arith", "solve-eqs", "qfnra-nlsat")):
        try:
            r = solve(full, ms // 2, tactic=tac)
            if r == z3.unsat:
                return "unsat"
        except z3.Z3Exception:
            pass
    if CONF["cvc5"]:
        return cvc5_check(full, ms)
    return "unknown"


def cvc5_check(assertions, ms):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*assertions)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t0 = time.time()
        tm = cvc5.TermManager()
        sv = cvc5.Solver(tm)
        sv.setOption("tlimit-per", str(int(ms)))
        sv.setOption("nl-ext-tplanes", "true")
        ip = cvc5.InputParser(sv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
        sm = ip.getSymbolManager()
        res = "unknown"
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(sv, sm)
            o = str(out).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        return res
    except Exception:
        return "unknown"
