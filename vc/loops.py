"""Loops with a symbolic number of iterations: automatic loop summaries.

The body is executed once for a generic iteration t (0 <= t < N) on every path, with the loop-carried state havocked:
scalars become v(t), written buffers become H(t, idx).  From the state after the body the summary is derived and each
step that is not syntactic is an obligation for the solver:
  * a buffer element written by at most one iteration (owner g: W(t,k) => t = g(k)) gets that iteration's value;
  * an element updated additively gets the pre-value plus a sum over the iterations;
  * reads of a written buffer see the pre-loop value provided no earlier iteration wrote the element (checked);
  * scalars: induction variables, sums, last-assigned values, or-flags.
Anything else is Unsupported (undecided).  Termination of while loops is not proved.
"""
import ast
from fractions import Fraction
import z3
from . import terms as T
from . import arrays as A
from . import binders
from .terms import Sym, PyExc, Unsupported, ite, s_and, s_or, s_not, mk, toz
from .arrays import Arr, Buf, mkarr, kind_of_dtype, Fn
from .engine import Infeasible, solve

ABSENT = object()


def sub(v, pairs):
    if isinstance(v, Sym):
        ps = [(c, toz(x)) for c, x in pairs]
        e = z3.substitute(v.e, *ps)
        if any(x.num_args() > 1 for c, x in ps):
            e = divnorm(e)
        return mk(e)
    return v


_HASDIV = {}


def has_div(e):
    st = [e]
    while st:
        t = st[-1]
        i = t.get_id()
        if i in _HASDIV:
            st.pop()
            continue
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
            _HASDIV[i] = (t, True)
            st.pop()
            continue
        ch = t.children()
        need = [c for c in ch if c.get_id() not in _HASDIV]
        if need:
            st.extend(need)
            continue
        _HASDIV[i] = (t, any(_HASDIV[c.get_id()][1] for c in ch))
        st.pop()
    return _HASDIV[e.get_id()][1]


def divnorm(e):
    """Simplify (q*n + r) // n and % n after a substitution."""
    for _ in range(4):
        if not has_div(e):
            return e
        found = []
        seen = set()
        st = [e]
        while st:
            t = st.pop()
            if t.get_id() in seen or not has_div(t):
                continue
            seen.add(t.get_id())
            k = t.decl().kind()
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)) and not has_div(t.arg(0)) and not has_div(t.arg(1)):
                q = T._exact_div(t.arg(0), t.arg(1))
                if q is not None:
                    found.append((t, toz(q[0] if k == z3.Z3_OP_IDIV else q[1])))
                continue
            st.extend(t.children())
        if not found:
            return e
        e = z3.substitute(e, *found)
    return e


def subst_value(v, pairs):
    """Substitution inside structured values."""
    from . import interp as I
    if isinstance(v, Sym):
        return sub(v, pairs)
    if isinstance(v, Arr):
        src = v.snap()
        shp = tuple(subst_value(s, pairs) for s in v.shape)
        ks = [A.ctx().skolem("sv") for _ in v.shape]
        box = {}

        def fn(*idx):
            c = A.ctx()
            t = box.get("t")
            if t is None or t[0] not in c.scopes:
                def dom_src():
                    for k, n in zip(ks, shp):
                        c.assume(s_and(T.s_ge(k, 0), T.s_lt(k, n)))
                    return src(*ks)
                rs = c.explore_nested(dom_src)
                val = merge_paths(rs)
                box["t"] = t = (c.scopes[-1], val)
            return sub(t[1], list(pairs) + [(k.e, i) for k, i in zip(ks, idx)])
        r = mkarr(shp, fn, v.dtype)
        if v.meta:
            m = {}
            if v.meta.get("affine"):
                m["affine"] = tuple(subst_value(x, pairs) for x in v.meta["affine"])
            if v.meta.get("range"):
                m["range"] = tuple(subst_value(x, pairs) for x in v.meta["range"])
            r.meta = m or None
        return r
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst_value(x, pairs) for x in v]
    if isinstance(v, I.SymList):
        el = v.elem
        return I.SymList(subst_value(v.n, pairs), lambda t: subst_value(el(t), pairs))
    from . import libs
    if isinstance(v, libs.Delayed):
        return libs.Delayed(subst_value(v.f, pairs), subst_value(tuple(v.a), pairs), {k: subst_value(x, pairs) for k, x in v.k.items()})
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, Fraction, Poison, I.UserFn, type)) or callable(v):
        return v
    if isinstance(v, dict):
        return {k: subst_value(x, pairs) for k, x in v.items()}
    if isinstance(v, (slice, A.ASlice)):
        return A.ASlice(*[subst_value(x, pairs) for x in (v.start, v.stop, v.step)])
    raise Unsupported("value of a loop iteration that is not tracked: %s" % type(v).__name__)


def merge_paths(rs):
    """[(decisions, value)] -> value, merged with If on the branch decisions."""
    if not rs:
        raise Infeasible()
    val = rs[-1][1]
    for pc, v in reversed(rs[:-1]):
        c = Sym(z3.And(*pc)) if pc else True
        val = A.ite_val(c, v, val)
    return val


def absorb(e):
    """p or (p and q) -> p"""
    e = z3.simplify(e)
    if not z3.is_or(e):
        return e
    ch = list(e.children())
    parts = [({x.get_id() for x in (c.children() if z3.is_and(c) else [c])}, c) for c in ch]
    keep = [c for i, (k, c) in enumerate(parts) if not any(j != i and k2 <= k and (k2 < k or j < i) for j, (k2, _) in enumerate(parts))]
    return z3.Or(*keep) if len(keep) > 1 else keep[0]


def mentions(v, names):
    """Does a term mention an application of one of the uninterpreted names?"""
    if not isinstance(v, Sym):
        return False
    seen = set()
    st = [v.e]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in names:
            return True
        st.extend(e.children())
    return False


def apps_of(e, names, out, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            out.append(x)
        st.extend(x.children())


def diff(a, h):
    """a - h when a is h plus something (through If), else None."""
    if a.eq(h):
        return z3.IntVal(0) if z3.is_int(h) else z3.RealVal(0)
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = diff(a.arg(1), h), diff(a.arg(2), h)
        if x is None or y is None:
            return None
        if x.eq(y):
            return x
        return z3.If(a.arg(0), x, y)
    if z3.is_add(a):
        ch = a.children()
        for i, c in enumerate(ch):
            d = diff(c, h)
            if d is not None:
                rest = [x for j, x in enumerate(ch) if j != i]
                if any(binders._mentions(x, [h]) for x in rest):
                    return None
                r = d
                for x in rest:
                    r = r + x
                return r
    if z3.is_sub(a):
        d = diff(a.arg(0), h)
        if d is not None and not any(binders._mentions(x, [h]) for x in a.children()[1:]):
            r = d
            for x in a.children()[1:]:
                r = r - x
            return r
    return None


def entails(c, extra, goal, ms=2500):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True

    def q():
        from . import prove
        a = c.pc + list(extra) + [z3.Not(goal)]
        r = solve(a + c.facts_for(a), ms)
        if r != z3.unsat and (c.binders or c.universals):
            r = solve(prove.lemma_rounds(c, a), ms)
        return r == z3.unsat
    return c._query(q)


# ------------------------------------------------------------------------------------------------- summary
class Summary(object):
    """State of the loop after n iterations, as a function of the symbolic n."""
    pass


def local_env(env):
    return env.vars


def run_for(interp, s, env, it):
    c = A.ctx()
    n = it.n
    if not (T.s_gt(n, 0)):
        interp.exec_block(s.orelse, env)
        return
    from .interp import ContinueX, BreakX

    def body(t):
        interp.assign(s.target, it.elem(t), env)
        try:
            interp.exec_block(s.body, env)
        except ContinueX:
            pass
    names = set(assigned(s.body)) | set(assigned_targets(s.target))
    st = summarise(interp, env, n, body, names)
    if getattr(it, "parallel", False) and getattr(c, "env", None) is not None and c.env.mode == "full":
        # iterations run on several threads: no element may be written by two of them
        c.prove("%s/parallel_iterations_write_apart" % c.env.contract.name, not st.shared)
    if st.exit_cond is not None:
        b = c.fresh_bool("loop_exits")
        if b:
            t0 = c.fresh_int("t_exit")
            c.generic[t0.e.get_id()] = t0.e
            c.assume(s_and(t0 >= 0, t0 < n))
            c.assume(sub(st.exit_cond, [(st.t.e, t0)]))
            xc, t = st.exit_cond, st.t
            c.universals.append((list(c.loop_vars), lambda cand: [
                z3.Implies(z3.And(x >= 0, x < t0.e), z3.Not(toz(sub(xc, [(t.e, Sym(x))])))) for x in cand]))
            st.apply(env, t0, final=False)
            try:
                body(t0)
            except BreakX:
                return
            raise Infeasible()
        xc, t = st.exit_cond, st.t
        c.universals.append((list(c.loop_vars), lambda cand: [
            z3.Implies(z3.And(x >= 0, toz(T.s_lt(Sym(x), n))), z3.Not(toz(sub(xc, [(t.e, Sym(x))])))) for x in cand]))
    st.apply(env, n, final=True)
    interp.exec_block(s.orelse, env)


def run_while(interp, s, env, first):
    from .interp import ContinueX, BreakX
    c = A.ctx()
    if s.orelse:
        raise Unsupported("while/else")
    T_ = c.fresh_int("while_n")
    c.generic[T_.e.get_id()] = T_.e
    c.assume(T_ >= 0)
    c.assumptions.add("termination of while loops (partial correctness)")

    def body(t):
        v = interp.eval(s.test, env)
        from .interp import truth
        if not truth(v):
            raise BreakX()
        try:
            interp.exec_block(s.body, env)
        except ContinueX:
            pass
        except BreakX:
            raise Unsupported("break inside a symbolic while loop")
    names = set(assigned(s.body))
    if not (T_ > 0):
        if not_truth(interp.eval(s.test, env)):
            return
        raise Infeasible()
    st = summarise(interp, env, T_, body, names)
    xc, t = st.exit_cond, st.t
    if xc is not None:
        c.universals.append((list(c.loop_vars), lambda cand: [
            z3.Implies(z3.And(x >= 0, x < T_.e), z3.Not(toz(sub(xc, [(t.e, Sym(x))])))) for x in cand]))
        c.assume(s_not(sub(xc, [(t.e, 0)])))
        c.assume(s_not(sub(xc, [(t.e, T.s_sub(T_, 1))])))
    st.apply(env, T_, final=True)
    if not_truth(interp.eval(s.test, env)):
        return
    raise Infeasible()


def not_truth(v):
    from .interp import truth
    return not truth(v)


def assigned(body):
    from .interp import assigned_names
    return assigned_names(body)


def assigned_targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def is_scalar(v):
    return T.is_num(v) and not isinstance(v, float) and not isinstance(v, complex)


def summarise(interp, env, n, body, names):
    """Execute the generic iteration and derive the summary."""
    from .interp import BreakX, ReturnX
    c = A.ctx()
    pre_vars = dict(env.vars)
    t = c.skolem("t")
    uid0 = Buf._n[0]
    carried = {}            # name -> (kind, symbol, decl name)

    def run(havoc_bufs, carried_syms):
        def thunk():
            c.assume(s_and(t >= 0, t < n))
            c.loop_vars.append(t.e)
            saved = dict(env.vars)
            log = []
            c.write_logs.append(log)
            j = c.journals[-1]
            for buf, h in havoc_bufs.items():
                c.journal_write(buf)
                buf.fn = Fn(h)
            for nm, v in carried_syms.items():
                env.vars[nm] = v
            out = "next"
            exc = None
            try:
                try:
                    body(t)
                except BreakX:
                    out = "break"
                except ReturnX:
                    out = "return"
                except PyExc as e:
                    out = "raise"
                    exc = e
                after = dict(env.vars)
                bufs = {}
                lists = {}
                for key, ent in j.items():
                    if key[0] == "b" and ent[0].uid <= uid0:
                        bufs[ent[0]] = ent[0].fn
                    elif key[0] == "o" and isinstance(ent[0], list):
                        lists[id(ent[0])] = (ent[0], list(ent[1]), list(ent[0]))
                    elif key[0] == "o" and isinstance(ent[0], dict):
                        if not is_env_dict(ent[0]):
                            lists[id(ent[0])] = (ent[0], dict(ent[1]), dict(ent[0]))
                    elif key[0] == "a":
                        raise Unsupported("object attribute changed in a symbolic loop")
                return out, after, bufs, lists, log, exc
            finally:
                c.write_logs.pop()
                c.loop_vars.pop()
                env.vars.clear()
                env.vars.update(saved)
        return c.explore_nested(thunk)

    # ---- pass 1: discovery
    rs = run({}, {})
    written = []
    for pc, r in rs:
        for b, _, _ in r[4]:
            if b.uid <= uid0 and b not in written:
                written.append(b)
    # ---- carried variables: those bound before the loop and assigned in it
    syms = {}
    for nm in sorted(names):
        if nm not in pre_vars:
            continue
        v0 = pre_vars[nm]
        vals = [r[1].get(nm) for pc, r in rs if r[0] == "next"]
        if all(x is v0 for x in vals):
            continue
        if is_scalar(v0):
            kinds = {T.kind(v0)} | {T.kind(x) for x in vals if is_scalar(x)}
            k = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
            if "b" in kinds and len(kinds) > 1:
                k = "f" if "f" in kinds else "i"
            d = z3.Function(c._name("lv_" + nm), *([z3.IntSort()] * (len(c.loop_vars) + 1) +
                                                  [{"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k]]))
            syms[nm] = ("s", Sym(d(*(c.loop_vars + [t.e]))), d, k)
        elif isinstance(v0, Arr):
            k = kind_of_dtype(v0.dtype)
            dts = [x.dtype for x in vals if isinstance(x, Arr)]
            dt = A.rtype(v0.dtype, *dts)
            k = kind_of_dtype(dt)
            so = {"b": z3.BoolSort(), "i": z3.IntSort(), "u": z3.IntSort()}.get(k, z3.RealSort())
            d = z3.Function(c._name("la_" + nm), *([z3.IntSort()] * (len(c.loop_vars) + 1 + v0.ndim) + [so]))
            lv = list(c.loop_vars) + [t.e]
            syms[nm] = ("a", mkarr(v0.shape, (lambda d: lambda *i: Sym(d(*(lv + [toz(x) for x in i]))))(d), dt), d, k)
        else:
            syms[nm] = ("o", Poison(nm), None, None)
    havoc = {}
    hdecl = {}
    for b in written:
        k = kind_of_dtype(b.dtype) if b.dtype != "object" else "O"
        if k == "O":
            raise Unsupported("object array written in a symbolic loop")
        so = {"b": z3.BoolSort(), "i": z3.IntSort(), "u": z3.IntSort()}.get(k, z3.RealSort())
        nd = len(b.shape)
        d = z3.Function(c._name("H"), *([z3.IntSort()] * (len(c.loop_vars) + 1 + nd) + [so]))
        lv = list(c.loop_vars) + [t.e]
        havoc[b] = (lambda d: lambda *i: Sym(d(*(lv + [toz(x) for x in i]))))(d)
        hdecl[b] = d
    # ---- pass 2
    if written or syms:
        rs = run(havoc, {nm: v[1] for nm, v in syms.items()})
    nxt = [(pc, r) for pc, r in rs if r[0] == "next"]
    ext = [(pc, r) for pc, r in rs if r[0] != "next"]
    st = Summary()
    st.t = t
    st.exit_cond = None
    if ext:
        st.exit_cond = mk(z3.Or(*[z3.And(*pc) if pc else z3.BoolVal(True) for pc, r in ext]))
    if not nxt:
        # every iteration leaves the loop: only the first one runs
        st.apply = lambda env_, m, final: None
        st.exit_cond = True if st.exit_cond is None else st.exit_cond
        if mentions_any(st.exit_cond, hdecl, syms):
            st.exit_cond = resolve_first(st.exit_cond, t)
        if not isinstance(st.exit_cond, Sym):
            st.exit_cond = Sym(z3.BoolVal(True))
        return st
    unresolved = {d.name() for d in hdecl.values()} | {v[2].name() for v in syms.values() if v[2] is not None}
    multi = len(nxt) > 1
    nlv = len(c.loop_vars)
    domt = [toz(s_and(t >= 0, t < n))]
    domt = [x for x in domt]

    def pathc(pc):
        return z3.And(*pc) if pc else z3.BoolVal(True)
    noexit = [z3.Not(toz(st.exit_cond))] if st.exit_cond is not None else []

    # ---- resolution tables: decl name -> function(args) -> term (args: loop vars, t, idx)
    resolved = {}

    def resolve(e, rounds=12):
        """Replace resolved applications; e is a z3 term."""
        for _ in range(rounds):
            out, seen = [], {}
            apps_of(e, set(resolved), out, seen)
            out = [a for a in out]
            if not out:
                return e
            # innermost first: substitute applications whose arguments contain no other resolvable one
            inner = []
            for a in out:
                o2 = []
                for ch in a.children():
                    apps_of(ch, set(resolved), o2, {})
                if not o2:
                    inner.append(a)
            pairs = []
            for a in inner:
                pairs.append((a, resolved[a.decl().name()](a)))
            e = z3.substitute(e, *pairs)
        return e

    def rs_(v):
        return mk(resolve(v.e)) if isinstance(v, Sym) else v

    # ---- scalars
    after_s = {}
    for nm, (kd, sy, d, k) in syms.items():
        if kd == "s":
            vals = [(pc, r[1].get(nm)) for pc, r in nxt]
            if not all(is_scalar(v) for _, v in vals):
                after_s[nm] = None
                continue
            v = merge_paths(vals)
            if k == "f":
                v = T.toreal_s(v)
            elif k == "i":
                v = mk(T.toint_sort(toz(v))) if isinstance(v, Sym) else int(v)
            after_s[nm] = v
    todo = [nm for nm in after_s if after_s[nm] is not None]
    final_fn = {}          # name -> function(m) -> value after m iterations
    progress = True
    while progress and todo:
        progress = False
        for nm in list(todo):
            kd, sy, d, k = syms[nm]
            x0 = pre_vars[nm]
            if k == "f":
                x0 = T.toreal_s(x0)
            E = rs_(after_s[nm])
            e = toz(E)
            others = unresolved - {d.name()} - set(resolved)
            fm = None
            if not mentions(Sym(e), unresolved - set(resolved)):
                # last assigned value
                def fm(m, e=e, x0=x0, E=E):
                    last = sub(Sym(e) if not isinstance(E, Sym) else E, [(t.e, T.s_sub(m, 1))])
                    z = T.s_eq(m, 0)
                    if z is False or (isinstance(z, Sym) and c.known(toz(s_not(z)))):
                        return last
                    return ite(z, x0, last)
            elif not mentions(Sym(e), others):
                dd = diff(e, sy.e)
                if k == "b":
                    # or-flag / and-flag
                    fl = flag(e, sy.e)
                    if fl is not None and not mentions(Sym(fl[1]), unresolved - set(resolved)):
                        fm = flag_fn(c, fl, t, x0)
                elif dd is not None and not mentions(Sym(dd), unresolved - set(resolved)):
                    dd = z3.simplify(dd)
                    if not binders._mentions(dd, [t.e]):
                        def fm(m, dd=dd, x0=x0):
                            return T.s_add(x0, T.s_mul(mk(dd), m))
                    else:
                        fm = sum_fn(c, dd, t, x0, "int" if k == "i" else "real")
                else:
                    mm = minmax_acc(e, sy.e)
                    if mm is not None and not mentions(Sym(mm[1]), unresolved - set(resolved)):
                        fm = minmax_fn(c, mm, t, x0, "int" if k == "i" else "real")
            if fm is not None:
                final_fn[nm] = fm
                resolved[d.name()] = (lambda fm: lambda app: toz_sort(sub(fm_at(fm, app, nlv), list(zip(c.loop_vars, app.children()[:nlv]))), app.sort()))(fm)
                todo.remove(nm)
                progress = True
    # ---- buffers
    post_buf = {}

    def buf_template(b):
        ks = [c.skolem("k") for _ in b.shape]
        domk = [toz(s_and(k >= 0, k < m)) for k, m in zip(ks, b.shape)]
        wparts, vparts = [], []
        for pc, r in nxt:
            fn = r[2].get(b)
            ws = [w for bb, w, view in r[4] if bb is b]
            if fn is None:
                wparts.append((pc, False))
                vparts.append((pc, havoc[b](*ks)))
                continue

            def ev(fn=fn, ws=ws, pc=pc):
                for x in domt + domk + pc:
                    c.assume(x)
                c.loop_vars.append(t.e)
                try:
                    w = s_or(*[w_(*ks) for w_ in ws])
                    return w, fn(*ks)
                finally:
                    c.loop_vars.pop()
            res = c.explore_nested(ev)
            if not res:
                continue
            wv = merge_paths(res)
            wparts.append((pc, wv[0]))
            vparts.append((pc, wv[1]))
        wparts = [(pc, mk(absorb(w.e)) if isinstance(w, Sym) else w) for pc, w in wparts]
        if len(wparts) == 1 or len(wparts) == len(nxt) and all(A.same(w, wparts[0][1]) for _, w in wparts[1:]):
            W = wparts[0][1]              # every way through the body writes the same elements
        else:
            W = s_or(*[s_and(mk(pathc(pc)), w) for pc, w in wparts])
        V = merge_paths(vparts)
        return ks, domk, W, V

    tpls = {b: buf_template(b) for b in written}

    def own_reads(b, ks, domk, W, g):
        """The write condition with reads of not yet written elements of b replaced by the initial content, or None.

        Wherever the part of W that does not read b holds, the element read has no earlier owner; elsewhere W is false
        whatever the read gives."""
        w = resolve(toz(W))
        free = {}

        def over(e):
            if not apps_in(e, {hdecl[b].name()}):
                return e
            if z3.is_and(e) or z3.is_or(e) or z3.is_not(e):
                return e.decl()(*[over(x) for x in e.children()])
            return free.setdefault(e.get_id(), (z3.FreshBool("wr"), e))[0]
        wo = over(w)
        pairs = []
        for a in apps_in(w, {hdecl[b].name()}):
            args = [mk(x) for x in a.children()[nlv + 1:]]
            if any(apps_in(toz(x), {hdecl[b].name()}) for x in args):
                return None
            gi = sub(g, list(zip([k.e for k in ks], args)))
            early = s_and(gi >= 0, T.s_lt(gi, t))
            if early is not False and not entails(c, domt + domk + [wo], z3.Not(toz(early))):
                return None
            pairs.append((a, toz_sort(b.fn(*args), a.sort())))
        return z3.simplify(z3.substitute(w, *pairs))
    # an element written by one iteration only: the owner
    owners = {}
    for b in written:
        ks, domk, W, V = tpls[b]
        W = rs_(W)
        g = find_owner(c, b, ks, domk, W, t, n, nxt, domt, noexit)
        owners[b] = g
    for b in written:
        if owners[b] is None:
            continue
        ks, domk, W, V = tpls[b]
        W = rs_(W)
        g = owners[b]
        if mentions(W, unresolved - set(resolved)):
            W2 = own_reads(b, ks, domk, W, g)
            if W2 is None or mentions(mk(W2), unresolved - set(resolved)):
                owners[b] = None
            else:
                tpls[b] = (ks, domk, mk(W2), V)

    def pre_val(b, idx):
        return b.fn(*idx)

    def owner_state(b, m, idx):
        """Content of element idx after m iterations (owner buffers): needs the resolved value."""
        ks, domk, W, V = tpls[b]
        g = owners[b]
        pairs = [(k.e, i) for k, i in zip(ks, idx)]
        gi = sub(g, pairs)
        Wi = sub(rs_(W), [(t.e, gi)] + pairs)
        cond = s_and(gi >= 0, T.s_lt(gi, m), Wi)
        return cond, gi, pairs

    def rewrite_binders(e, ctxconds, depth=0):
        """Reductions whose element bodies read owner buffers: the same reductions over the resolved bodies."""
        if depth > 4:
            return e
        nm = {hdecl[b].name() for b in written if owners[b] is not None}
        out = []
        apps_of(e, set(c.binders), out, {})
        pairs = []
        for a in out:
            b, groups, sc, idx = binders.template(c, a)
            if not any(apps_in(g[2], nm) for g in groups) or any(apps_in(ch, set(c.binders)) for ch in a.children()):
                continue
            ops, ok = [], True
            for bd, sizes, body in groups:
                new = [c.skolem("rb") for _ in bd]
                b2 = z3.substitute(body, *list(zip(bd, [x.e for x in new])))
                cs = ctxconds + [toz(s_and(x >= 0, x < mk(n_))) for x, n_ in zip(new, sizes)]
                r = handle_reads(b2, cs)
                if r is None:
                    ok = False
                    break
                ops.append((tuple(mk(x) for x in sizes), (lambda r, new: lambda *ix: mk(z3.substitute(r, *[(x.e, toz(i)) for x, i in zip(new, ix)])))(r, new)))
            if ok:
                v = binders.make(c, b.kind, ops, [mk(x) for x in sc], b.nidx, b.sort, b.statickey)(*[mk(x) for x in idx])
                pairs.append((a, toz_sort(v, a.sort())))
        return z3.substitute(e, *pairs) if pairs else e

    # reads of owner buffers: H(t, args) -> pre value when no earlier iteration wrote it
    def handle_reads(term, ctxconds):
        """Resolve H applications of owner buffers in a term; None when impossible."""
        e = resolve(term)
        for _ in range(6):
            out = []
            apps_of(e, {hdecl[b].name() for b in written if owners[b] is not None}, out, {})
            if not out:
                return rewrite_binders(e, ctxconds)
            inner = [a for a in out if not any(apps_in(ch, {hdecl[b].name() for b in written}) for ch in a.children())]
            pairs = []
            for a in inner:
                b = [x for x in written if hdecl[x].name() == a.decl().name()][0]
                args = [Sym(x) if not z3.is_int_value(x) else x.as_long() for x in a.children()[nlv + 1:]]
                cond, gi, _ = owner_state(b, t, args)
                if cond is not False and not entails(c, domt + ctxconds, z3.Not(toz(cond))):
                    return None
                pairs.append((a, toz_sort(pre_val(b, args), a.sort())))
            e = z3.substitute(e, *pairs)
            e = resolve(e)
        return None

    accum = {}
    st.shared = [b for b in written if owners[b] is None]
    for b in written:
        ks, domk, W, V = tpls[b]
        if owners[b] is not None:
            continue
        # additive accumulation
        h = havoc[b](*ks).e
        Vr = resolve(toz(V))
        dd = diff(Vr, h)
        if dd is None:
            dd = diff(align(c, Vr, h, hdecl[b].name(), domt + domk), h)
        if dd is None:
            raise Unsupported("loop writes elements more than once and is not an accumulation")
        accum[b] = (ks, dd)
    names_H = {hdecl[b].name() for b in written}
    for b, (ks, dd) in list(accum.items()):
        e = handle_reads(dd, tpls[b][1])
        if e is None or mentions(Sym(e), unresolved - set(resolved) - set()):
            raise Unsupported("loop-carried dependence in an accumulation")
        accum[b] = (ks, e)
        sort = "int" if kind_of_dtype(b.dtype) in "iu" else "real"
        fm = sum_fn_idx(c, e, t, ks, sort)
        pre = b.fn

        def state(m, idx, fm=fm, pre=pre):
            return T.s_add(pre(*idx), fm(m, idx))
        post_buf[b] = state
        resolved[hdecl[b].name()] = (lambda state: lambda app: toz_sort(
            state(Sym(app.arg(nlv)), [mk(x) for x in app.children()[nlv + 1:]]), app.sort()))(state)
    for b in written:
        if owners[b] is None:
            continue
        ks, domk, W, V = tpls[b]
        W = rs_(W)
        conds = domk + ([toz(W)] if W is not True else []) + noexit
        e = handle_reads(toz(V), conds)
        if e is None:
            raise Unsupported("loop reads elements that an earlier iteration may have written")
        if mentions(Sym(e), unresolved - set(resolved) - names_H):
            raise Unsupported("loop-carried scalar without a closed form feeds an array")
        Ve = e
        pre = b.fn

        def state(m, idx, b=b, ks=ks, Ve=Ve, pre=pre):
            cond, gi, pairs = owner_state(b, m, idx)
            if cond is False:
                return pre(*idx)
            v = mk(z3.substitute(Ve, *[(x, toz(y)) for x, y in [(t.e, gi)] + pairs]))
            if cond is True:
                return v
            return ite(cond, v, pre(*idx))
        post_buf[b] = state
        resolved[hdecl[b].name()] = (lambda state: lambda app: toz_sort(
            state(Sym(app.arg(nlv)), [mk(x) for x in app.children()[nlv + 1:]]), app.sort()))(state)
    # ---- scalars that depend on buffers: second chance handled through resolve()
    if st.exit_cond is not None:
        e = handle_reads(toz(st.exit_cond), [])
        if e is None or mentions(Sym(e), unresolved - set(resolved)):
            raise Unsupported("exit condition depends on loop-carried state")
        st.exit_cond = mk(e)
        if not isinstance(st.exit_cond, Sym):
            st.exit_cond = Sym(z3.BoolVal(bool(st.exit_cond)))
    # ---- carried arrays rebound in the loop (mat = f(mat)): only additive or overwritten
    arr_fn = {}
    for nm, (kd, sy, d, k) in syms.items():
        if kd != "a":
            continue
        vals = [(pc, r[1].get(nm)) for pc, r in nxt]
        if not all(isinstance(v, Arr) and v.ndim == sy.ndim for _, v in vals):
            continue
        v0 = pre_vars[nm]
        shp_ok = all(all(A.same(x, y) or c.known(toz(T.s_eq(x, y))) for x, y in zip(v.shape, sy.shape)) for _, v in vals)
        if not shp_ok:
            continue
        ks = [c.skolem("k") for _ in v0.shape]
        domk = [toz(s_and(kk >= 0, kk < m)) for kk, m in zip(ks, v0.shape)]

        def ev(v, pc):
            def th():
                for x in domt + domk + pc:
                    c.assume(x)
                c.loop_vars.append(t.e)
                try:
                    return v.at(*ks)
                finally:
                    c.loop_vars.pop()
            return merge_paths(c.explore_nested(th))
        V = merge_paths([(pc, ev(v, pc)) for pc, v in vals])
        e = handle_reads(toz(V), domk)
        if e is None:
            continue
        un = unresolved - set(resolved)
        pre = v0.snap()
        if not mentions(Sym(e), un):
            def fm(m, idx, e=e, ks=ks, pre=pre):
                last = mk(z3.substitute(e, (t.e, toz(T.s_sub(m, 1))), *[(kk.e, toz(i)) for kk, i in zip(ks, idx)]))
                z = T.s_eq(m, 0)
                if z is False or (isinstance(z, Sym) and c.known(toz(s_not(z)))):
                    return last
                return ite(z, pre(*idx), last)
        else:
            h = sy.at(*ks).e
            dd = diff(e, h)
            if dd is None or mentions(Sym(dd), un):
                continue
            sfn = sum_fn_idx(c, dd, t, ks, "int" if k in "iu" else "real")

            def fm(m, idx, sfn=sfn, pre=pre):
                return T.s_add(pre(*idx), sfn(m, idx))
        arr_fn[nm] = (fm, v0.shape, sy.dtype)
        resolved[d.name()] = (lambda fm: lambda app: toz_sort(
            fm(Sym(app.arg(nlv)), [mk(x) for x in app.children()[nlv + 1:]]), app.sort()))(fm)
    # ---- lists
    list_post = []
    ids = {}
    for pc, r in nxt:
        for key, ent in r[3].items():
            ids.setdefault(key, ent[0])
    for key, obj in ids.items():
        if not isinstance(obj, list):
            raise Unsupported("dictionary changed in a symbolic loop")
        apps = []
        for pc, r in nxt:
            ent = r[3].get(key)
            if ent is None:
                apps.append((pc, []))
            else:
                o, before, aft = ent
                if len(aft) < len(before) or any(x is not y for x, y in zip(before, aft)):
                    raise Unsupported("list changed other than by appending in a symbolic loop")
                apps.append((pc, aft[len(before):]))
        cnts = {len(a) for _, a in apps}
        if len(cnts) == 1:
            list_post.append((obj, "all", apps, cnts.pop()))
        else:
            list_post.append((obj, "some", apps, max(cnts)))
    temps = {}
    for nm in names:
        if nm in final_fn or nm in arr_fn:
            continue
        vals = [(pc, r[1].get(nm, ABSENT)) for pc, r in nxt]
        temps[nm] = vals

    def resolve_value(v):
        """Resolve havocked applications inside a temporary's value."""
        if isinstance(v, Sym):
            e = handle_reads(v.e, noexit)
            if e is None or mentions(Sym(e), unresolved - set(resolved)):
                return Poison("unresolved loop temporary")
            return mk(e)
        if isinstance(v, Arr):
            ks = [c.skolem("k") for _ in v.shape]
            shp = tuple(resolve_value(x) for x in v.shape)
            if any(isinstance(x, Poison) for x in shp):
                return Poison("unresolved loop temporary")
            src = v.snap()
            box = {}

            def fn(*idx):
                cc = A.ctx()
                tt = box.get("t")
                if tt is None or tt[0] not in cc.scopes:
                    cc.loop_vars.append(t.e)
                    try:
                        val = merge_paths(cc.explore_nested(lambda: src(*ks)))
                    finally:
                        cc.loop_vars.pop()
                    e = resolve(toz(val))
                    if mentions(Sym(e), unresolved - set(resolved)):
                        raise Unsupported("unresolved loop temporary")
                    box["t"] = tt = (cc.scopes[-1], mk(e))
                return sub(tt[1], [(k.e, i) for k, i in zip(ks, idx)])
            r = mkarr(shp, fn, v.dtype)
            r.meta = v.meta
            return r
        if isinstance(v, (tuple, list)):
            return type(v)(resolve_value(x) for x in v)
        return v

    def apply(env_, m, final):
        from .interp import SymList
        pre_f = {}
        for b in written:
            state = post_buf[b]
            c.journal_write(b)
            for l in c.write_logs:
                ks, domk, W, V = tpls[b]
                l.append((b, post_wcond(b, m), None))
            b.fn = Fn((lambda state, m: lambda *idx: state(m, idx))(state, m))
        for nm in syms:
            kd, sy, d, k = syms[nm]
            if nm in final_fn:
                env_.vars[nm] = final_fn[nm](m)
            elif nm in arr_fn:
                fm, shp, dt = arr_fn[nm]
                env_.vars[nm] = mkarr(shp, (lambda fm: lambda *idx: fm(m, idx))(fm), dt)
            elif nm not in temps:
                env_.vars[nm] = Poison(nm)
        for nm, vals in temps.items():
            if any(v is ABSENT for _, v in vals):
                env_.vars.pop(nm, None)
                if any(v is not ABSENT for _, v in vals):
                    env_.vars[nm] = Poison(nm)
                continue
            if not final:
                # state before the exiting iteration: previous values of temporaries are not needed in practice
                if nm not in pre_vars:
                    env_.vars[nm] = Poison(nm)
                    continue
            try:
                v = merge_paths([(pc, v) for pc, v in vals]) if len(vals) > 1 else vals[0][1]
                v = resolve_value(v)
                last = T.s_sub(m, 1)
                v = subst_value(v, [(t.e, last)])
                if not final or nm in pre_vars and not c.known(toz(T.s_gt(m, 0))):
                    v = A.ite_val(T.s_gt(m, 0), v, pre_vars[nm])
                env_.vars[nm] = v
            except Unsupported:
                env_.vars[nm] = Poison(nm)
        for obj, mode, apps, q in list_post:
            newv = list_after(c, obj, mode, apps, q, m, t, resolve_value, noexit)
            replace_refs(env_, obj, newv)
    st.apply = apply

    def post_wcond(b, m):
        ks, domk, W, V = tpls[b]

        def w(*idx):
            if owners[b] is not None:
                return owner_state(b, m, idx)[0]
            pairs = [(k.e, i) for k, i in zip(ks, idx)]
            Wk = sub(rs_(W), pairs)
            if not isinstance(Wk, Sym) or not binders._mentions(Wk.e, [t.e]):
                return s_and(Wk, T.s_gt(m, 0))
            return binders.make(c, "any", [((m,), lambda x: sub(Wk, [(t.e, x)]))], (), 0, "bool")()
        return w
    return st


def fm_at(fm, app, nlv):
    a = app.arg(nlv)
    return fm(mk(a))


def toz_sort(v, sort):
    e = toz(v)
    if sort == z3.RealSort():
        return T.toreal(T.toint_sort(e))
    if sort == z3.IntSort():
        return T.toint_sort(e)
    return e


def apps_in(e, names):
    out = []
    apps_of(e, names, out, {})
    return out


def is_env_dict(d):
    return False


class Poison(object):
    """Value that the summary does not know; any use is Unsupported."""

    def __init__(self, nm):
        self.nm = nm

    def __getattr__(self, a):
        if a.startswith("__") or a in ("lazy_value",):
            if a == "lazy_value":
                raise Unsupported("value of '%s' after/inside a symbolic loop has no closed form" % self.nm)
            raise AttributeError(a)
        raise Unsupported("value of '%s' after/inside a symbolic loop has no closed form" % self.nm)


def mentions_any(e, hdecl, syms):
    return mentions(e, {d.name() for d in hdecl.values()} | {v[2].name() for v in syms.values() if v[2] is not None})


def align(c, e, h, name, conds):
    """e with the applications of the havocked buffer rewritten to h where the branch conditions force equal arguments."""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        g = e.arg(0)
        return z3.If(g, align(c, e.arg(1), h, name, conds + [g]), align(c, e.arg(2), h, name, conds + [z3.Not(g)]))
    pairs = []
    for a in apps_in(e, {name}):
        if not a.eq(h) and entails(c, conds, z3.And(*[x == y for x, y in zip(a.children(), h.children())])):
            pairs.append((a, h))
    return z3.substitute(e, *pairs) if pairs else e


def resolve_first(e, t):
    raise Unsupported("exit condition of a loop that always exits depends on its state")


def flag(e, h):
    """(kind, condition): e == h or cond  /  h and cond"""
    if z3.is_or(e) and any(x.eq(h) for x in e.children()):
        return ("any", z3.Or(*[x for x in e.children() if not x.eq(h)]))
    if z3.is_and(e) and any(x.eq(h) for x in e.children()):
        return ("all", z3.And(*[x for x in e.children() if not x.eq(h)]))
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b, d = e.children()
        if d.eq(h) and z3.is_true(b):
            return ("any", a)
        if d.eq(h) and z3.is_false(b):
            return ("all", z3.Not(a))
        if b.eq(h) and z3.is_true(d):
            return ("any", z3.Not(a))
        if b.eq(h) and z3.is_false(d):
            return ("all", a)
    return None


def flag_fn(c, fl, t, x0):
    kind, cond = fl

    def fm(m):
        b = binders.make(c, kind, [((m,), lambda x: sub(Sym(cond), [(t.e, x)]))], (), 0, "bool")()
        return s_or(x0, b) if kind == "any" else s_and(x0, b)
    return fm


def minmax_acc(e, h):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, x, y = e.children()
        for kind in ("max", "min"):
            # If(d > h, d, h) and variants
            if y.eq(h) and not binders._mentions(x, [h]):
                d = x
                cmpv = [d > h, h < d] if kind == "max" else [d < h, h > d]
                cmpv += [d >= h, h <= d] if kind == "max" else [d <= h, h >= d]
                if any(a.eq(q) for q in cmpv):
                    return (kind, d)
            if x.eq(h) and not binders._mentions(y, [h]):
                d = y
                cmpv = [h >= d, d <= h, h > d, d < h] if kind == "max" else [h <= d, d >= h, h < d, d > h]
                if any(a.eq(q) for q in cmpv):
                    return (kind, d)
    return None


def minmax_fn(c, mm, t, x0, sort):
    kind, d = mm

    def fm(m):
        b = binders.make(c, kind, [((m,), lambda x: sub(Sym(d), [(t.e, x)]))], (), 0, sort)()
        f = T.s_max if kind == "max" else T.s_min
        return ite(T.s_gt(m, 0), f(x0, b), x0)
    return fm


def sum_fn(c, dd, t, x0, sort):
    def fm(m):
        v = mk(dd)
        b = binders.make(c, "sum", [((m,), lambda x: sub(v, [(t.e, x)]))], (), 0, sort)()
        return T.s_add(x0, b)
    return fm


def sum_fn_idx(c, dd, t, ks, sort):
    box = {}
    v = mk(dd)

    def fm(m, idx):
        key = toz(m).get_id()
        hit = box.get(key)
        if hit is None or hit[0] not in A.ctx().scopes:
            if not isinstance(v, Sym):
                hit = (A.ctx().scopes[-1], T.s_mul(v, m), m)
            elif not binders._mentions(v.e, [t.e]):
                hit = (A.ctx().scopes[-1], T.s_mul(v, m), m)
            else:
                hit = (A.ctx().scopes[-1], binders.make(c, "sum", [((m,), lambda x: sub(v, [(t.e, x)]))], (), 0, sort)(), m)
            box[key] = hit
        return sub(hit[1], [(k.e, i) for k, i in zip(ks, idx)])
    return fm


def split_app(e, t):
    """The boundary of part t of numpy.array_split in an offset."""
    if not isinstance(e, Sym):
        return None
    st = [e.e]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().name() == "split_start" and x.arg(2).eq(t.e):
            return x
        st.extend(x.children())
    return None


def stride(e, t):
    """e = a + d*t with d free of t -> (a, d) or None"""
    if not isinstance(e, Sym):
        return (e, 0)
    a = mk(z3.simplify(z3.substitute(e.e, (t.e, z3.IntVal(0)))))
    d = z3.simplify(z3.substitute(e.e, (t.e, t.e + 1)) - e.e)
    if binders._mentions(d, [t.e]):
        return None
    return a, mk(d)


def find_owner(c, b, ks, domk, W, t, n, nxt, domt, noexit):
    cands = []
    seen = set()
    for pc, r in nxt:
        for bb, w, view in r[4]:
            if bb is not b or view is None:
                continue
            sel = view.sel or [("aff", k, 0, 1) for k in range(len(b.shape))]
            for ax, sl in enumerate(sel):
                if sl[0] == "fix":
                    q = stride(sl[1], t)
                    if q is None or (not isinstance(q[1], Sym) and q[1] == 0):
                        continue
                    a, d = q
                    if not isinstance(d, Sym) and d == 1:
                        g = T.s_sub(ks[ax], a)
                    elif not isinstance(d, Sym) and d == -1:
                        g = T.s_sub(a, ks[ax])
                    elif isinstance(d, Sym) or d > 0:
                        g = T.s_floordiv(T.s_sub(ks[ax], a), d)
                    else:
                        g = T.s_floordiv(T.s_sub(a, ks[ax]), T.s_neg(d))
                    cands.append(g)
                else:
                    from . import npmodel
                    s = split_app(sl[2], t)
                    if s is not None:
                        off = T.s_sub(sl[2], Sym(s))
                        off = mk(z3.simplify(off.e)) if isinstance(off, Sym) else off
                        if not isinstance(off, Sym) or not binders._mentions(off.e, [t.e]):
                            cands.append(mk(npmodel.SPLIT_OWNER(s.arg(0), s.arg(1), toz(T.s_sub(ks[ax], off)))))
                            continue
                    q = stride(sl[2], t)
                    if q is None or (not isinstance(q[1], Sym) and q[1] == 0):
                        continue
                    a, d = q
                    if isinstance(d, Sym) or d > 0:
                        cands.append(T.s_floordiv(T.s_sub(ks[ax], a), d))
                    else:
                        cands.append(T.s_floordiv(T.s_sub(a, ks[ax]), T.s_neg(d)))
    # structural candidates from the write condition: k == a + t
    for x in eqs(W):
        l, r = x.arg(0), x.arg(1)
        for k in ks:
            for u, v in ((l, r), (r, l)):
                if u.eq(k.e):
                    q = stride(Sym(v), t)
                    if q is not None and not isinstance(q[1], Sym) and q[1] in (1, -1):
                        cands.append(T.s_sub(k, q[0]) if q[1] == 1 else T.s_sub(q[0], k))
    uniq = []
    for g in cands:
        if isinstance(g, Sym):
            key = z3.simplify(g.e).get_id()
        else:
            key = g
        if key in seen:
            continue
        seen.add(key)
        uniq.append(g)
    for g in uniq:
        if W is False:
            return g
        if entails(c, domt + domk + noexit, z3.Implies(toz(W), toz(T.s_eq(t, g)))):
            return g
    # every iteration overwrites everything it writes: the last one wins if W does not depend on t
    if isinstance(W, Sym) and not binders._mentions(W.e, [t.e]) or W is True:
        return None
    return None


def eqs(W):
    out = []
    if not isinstance(W, Sym):
        return out
    st = [W.e]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_eq(e):
            out.append(e)
        st.extend(e.children())
    return out


def list_after(c, obj, mode, apps, q, m, t, resolve_value, noexit):
    from .interp import SymList
    base = list(obj)
    if mode == "all" and q == 0:
        return obj
    if mode == "all":
        cols = []
        for j in range(q):
            v = merge_paths([(pc, a[j]) for pc, a in apps])
            cols.append(resolve_value(v))
        nb = len(base)

        def elem(i):
            r = T.s_sub(i, nb)
            if q == 1:
                v = subst_value(cols[0], [(t.e, r)])
            else:
                blk, j = T.s_floordiv(r, q), T.s_mod(r, q)
                v = None
                for jj in range(q - 1, -1, -1):
                    w = subst_value(cols[jj], [(t.e, blk)])
                    v = w if v is None else A.ite_val(T.s_eq(j, jj), w, v)
            if nb == 0:
                return v
            if isinstance(i, Sym):
                for k in range(nb - 1, -1, -1):
                    v = A.ite_val(T.s_eq(i, k), base[k], v)
                return v
            return base[i] if i < nb else v
        return SymList(T.s_add(nb, T.s_mul(q, m)), elem)
    if mode == "some" and q == 1 and not base:
        # filtered append: element r is the value of the r-th iteration that appends
        from . import npmodel as N
        cond = s_or(*[mk(z3.And(*pc) if pc else z3.BoolVal(True)) for pc, a in apps if a])
        cond = resolve_value(cond)
        if isinstance(cond, Poison):
            return cond
        vals = [(pc, a[0]) for pc, a in apps if a]
        v = resolve_value(merge_paths(vals))
        mask = mkarr((m,), lambda i: sub(cond, [(t.e, i)]), "bool")
        w = N.where1(mask)[0]
        return SymList(w.shape[0], lambda r: subst_value(v, [(t.e, w.at(r))]), ("filter", w))
    return Poison("list appended conditionally")


def replace_refs(env, obj, newv):
    if newv is obj:
        return
    e = env
    while e is not None:
        for k, v in list(e.vars.items()):
            if v is obj:
                e.vars[k] = newv
        e = e.parent


def comp_list(interp, g, env, it, make):
    """[f(x) for x in symbolic]: elements are evaluated at a generic iteration, paths merged."""
    from .interp import SymList, Env
    c = A.ctx()
    n = it.n
    t = c.skolem("t")

    def thunk():
        c.assume(s_and(t >= 0, t < n))
        c.loop_vars.append(t.e)
        try:
            e2 = Env({}, env)
            interp.assign(g.target, it.elem(t), e2)
            j = c.journals[-1]
            try:
                v = ("ok", make(e2))
            except PyExc as e:
                v = ("exc", e)
            uid_writes = [k for k in j if k[0] == "o"]
            if uid_writes:
                raise Unsupported("comprehension with side effects")
            return v
        finally:
            c.loop_vars.pop()
    rs = c.explore_nested(thunk)
    bad = [(pc, v) for pc, (k, v) in rs if k == "exc"]
    good = [(pc, v) for pc, (k, v) in rs if k == "ok"]
    if bad:
        b = c.fresh_bool("comp_raises")
        xc = mk(z3.Or(*[z3.And(*pc) if pc else z3.BoolVal(True) for pc, v in bad]))
        if b:
            t0 = c.fresh_int("t_exit")
            c.generic[t0.e.get_id()] = t0.e
            c.assume(s_and(t0 >= 0, t0 < n))
            c.assume(sub(xc, [(t.e, t0)]) if isinstance(xc, Sym) else xc)
            raise bad[0][1]
        if isinstance(xc, Sym):
            c.universals.append((list(c.loop_vars), lambda cand: [
                z3.Implies(z3.And(x >= 0, toz(T.s_lt(Sym(x), n))), z3.Not(toz(sub(xc, [(t.e, Sym(x))])))) for x in cand]))
        else:
            c.assume(T.s_le(n, 0))
    if not good:
        return SymList(n, lambda i: Poison("empty comprehension"))
    if len(good) == 1:
        v = good[0][1]
    else:
        v = None
        try:
            v = merge_paths(good)
        except Unsupported:
            raise
    return SymList(n, lambda i: subst_value(v, [(t.e, i)]))


def filtered_list(interp, n_ast, g, env, it, make):
    from .interp import SymList, Env, truth
    from . import npmodel as N
    c = A.ctx()
    t = c.skolem("t")

    def thunk():
        c.assume(s_and(t >= 0, T.s_lt(t, it.n)))
        c.loop_vars.append(t.e)
        try:
            e2 = Env({}, env)
            interp.assign(g.target, it.elem(t), e2)
            conds = [interp.eval(q, e2) for q in g.ifs]
            if any(isinstance(x, Arr) for x in conds):
                raise Unsupported("array condition")
            cond = s_and(*[T.as_bool(x) if T.is_num(x) else truth(x) for x in conds])
            return cond
        finally:
            c.loop_vars.pop()
    cond = merge_paths(c.explore_nested(thunk))

    def thunk2():
        c.assume(s_and(t >= 0, T.s_lt(t, it.n)))
        c.assume(cond)
        c.loop_vars.append(t.e)
        try:
            e2 = Env({}, env)
            interp.assign(g.target, it.elem(t), e2)
            return make(e2)
        finally:
            c.loop_vars.pop()
    rs = c.explore_nested(thunk2)
    if not rs:
        return []
    v = merge_paths(rs)
    mask = mkarr((it.n,), lambda i: sub(cond, [(t.e, i)]), "bool")
    w = N.where1(mask)[0]
    return SymList(w.shape[0], lambda r: subst_value(v, [(t.e, w.at(r))]), ("filter", w))
