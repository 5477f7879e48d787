"""Reductions and opaque library functionals over symbolic arrays, as uninterpreted applications whose
template (sizes and element body) is remembered, so that congruence and bounding lemmas can be instantiated."""
import z3
from . import terms as T
from .terms import Sym, Unsupported, mk, toz, s_and


class Binder(object):
    __slots__ = ("name", "kind", "params", "bound", "groups", "scalars", "nidx", "sort", "statickey")
    # groups: list of (bound consts, sizes, body) - one per array operand


def generic_consts(ctx, exprs, exclude):
    found = {}
    seen = set()
    stack = list(exprs)
    order = []
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0:
                if i in ctx.generic and i not in exclude and i not in found:
                    found[i] = e
                    order.append(e)
            else:
                stack.extend(reversed(e.children()))
    return order


_CANON = {}


def canon(prefix, i, sort):
    k = (prefix, i, str(sort))
    c = _CANON.get(k)
    if c is None:
        c = z3.Const("_%s%d_%s" % (prefix, i, sort), sort)
        _CANON[k] = c
    return c


def eval_body(ctx, fn, sizes, bound):
    """Element body at generic bound constants, paths merged with If."""
    def thunk():
        for b, n in zip(bound, sizes):
            ctx.assume(s_and(b >= 0, b < n))
        return fn(*bound)
    rs = ctx.explore_nested(thunk)
    if not rs:
        # empty range: any value
        return Sym(z3.RealVal(0))
    val = rs[-1][1]
    for pc, v in reversed(rs[:-1]):
        # the delta also holds the domain assumption, which is harmless inside the range
        c = z3.And(*pc) if pc else z3.BoolVal(True)
        from .arrays import ite_val
        val = ite_val(Sym(c), v, val)
    return val


def in_domain(e, bound, sizes):
    """The body, with the conditions that say that the index is in range removed."""
    sub = []
    for b, n in zip(bound, sizes):
        for c, v in ((b >= 0, True), (b < n, True), (b >= 0, None), (z3.IntVal(0) <= b, None), (b < 0, None)):
            if v is None:
                sub.append((c, z3.BoolVal(not z3.is_lt(c))))
                continue
            c = z3.simplify(c)
            if z3.is_not(c):
                c, v = c.arg(0), not v
            if not z3.is_true(c) and not z3.is_false(c):
                sub.append((c, z3.BoolVal(v)))
    if not sub:
        return e
    r = z3.substitute(e, *sub)
    return e if r.eq(e) else z3.simplify(r)


def make(ctx, kind, operands, scalars=(), nidx=0, sort="real", statickey=()):
    """operands: [(sizes, fn)].  Returns app(*idx) -> Sym."""
    groups = []
    allexpr = []
    bounds = set()
    for sizes, fn in operands:
        bound = [ctx.skolem("b") for _ in sizes]
        body = eval_body(ctx, fn, sizes, bound)
        bz = toz(body)
        groups.append(([b.e for b in bound], [toz(s) for s in sizes], bz))
        bounds |= {b.e.get_id() for b in bound}
    sc = [toz(s) for s in scalars]
    for b, s, e in groups:
        allexpr += s + [e]
    allexpr += sc
    params = generic_consts(ctx, allexpr, bounds)
    pc = [(p, canon("P", i, p.sort())) for i, p in enumerate(params)]
    cg = []
    key = [kind, nidx, sort, tuple(statickey)]
    nb = 0
    keep = []
    for b, s, e in groups:
        bc = [(x, canon("B", nb + i, x.sort())) for i, x in enumerate(b)]
        nb += len(b)
        s2 = [z3.simplify(z3.substitute(x, *pc) if pc else x) for x in s]
        e2 = z3.substitute(e, *(pc + bc)) if pc or bc else e
        e2 = in_domain(z3.simplify(e2), [x[1] for x in bc], s2)
        cg.append(([x[1] for x in bc], s2, e2))
        key += [tuple(x.get_id() for x in s2), e2.get_id()]
        keep += s2 + [e2]
    s2 = [z3.simplify(z3.substitute(x, *pc) if pc else x) for x in sc]
    key += [tuple(x.get_id() for x in s2)]
    key = tuple(key)
    b = ctx.binder_index.get(key)
    if b is None:
        b = Binder()
        b.name = ctx._name("BND_" + kind.replace(":", "_"))
        b.kind, b.groups, b.scalars, b.nidx, b.sort = kind, cg, s2, nidx, sort
        b.params = [x[1] for x in pc]
        b.statickey = tuple(statickey)
        ctx.binder_index[key] = b
        ctx.binders[b.name] = b
        keep.append(b)
    rs = {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}[sort]
    sorts = [p.sort() for p in params] + [z3.IntSort()] * nidx + [rs]
    if len(sorts) == 1:
        const = Sym(z3.Const(b.name, rs))
        return lambda *idx: const
    d = z3.Function(b.name, *sorts)
    pz = list(params)
    return lambda *idx: Sym(d(*(pz + [toz(i) for i in idx])))


def template(ctx, app):
    """(binder, groups instantiated at the arguments of app, scalars, idx)"""
    b = ctx.binders[app.decl().name()]
    args = app.children()
    np_ = len(b.params)
    ps = list(zip(b.params, args[:np_]))
    idx = args[np_:]

    def sb(e):
        return z3.substitute(e, *ps) if ps else e
    groups = [(bound, [sb(s) for s in sizes], sb(body)) for bound, sizes, body in b.groups]
    return b, groups, [sb(s) for s in b.scalars], idx


def at(group, vals):
    bound, sizes, body = group
    return z3.substitute(body, *list(zip(bound, vals))) if bound else body


def dom(group, vals):
    return z3.And(*([z3.And(v >= 0, v < s) for v, s in zip(vals, group[1])] or [z3.BoolVal(True)]))


def congruence(ctx, a1, a2):
    b1, g1, s1, i1 = template(ctx, a1)
    b2, g2, s2, i2 = template(ctx, a2)
    if b1.kind != b2.kind or b1.statickey != b2.statickey or len(g1) != len(g2) or len(s1) != len(s2) or len(i1) != len(i2):
        return None
    pre = []
    for x, y in list(zip(s1, s2)) + list(zip(i1, i2)):
        if x.eq(y):
            continue
        if z3.is_int(x) and z3.is_real(y):
            x = z3.ToReal(x)
        if z3.is_int(y) and z3.is_real(x):
            y = z3.ToReal(y)
        if x.sort() != y.sort():
            return None
        pre.append(x == y)
    for x, y in zip(g1, g2):
        if len(x[1]) != len(y[1]):
            return None
        for p, q in zip(x[1], y[1]):
            if not p.eq(q):
                pre.append(p == q)
        w = [ctx.skolem("cw").e for _ in x[1]]
        p, q = at(x, w), at(y, w)
        if p.eq(q):
            continue
        if z3.is_bool(p) or z3.is_bool(q):
            if z3.is_bool(p) != z3.is_bool(q):
                return None
        elif z3.is_int(p) != z3.is_int(q):
            p, q = T.toreal(p), T.toreal(q)
        pre.append(z3.Implies(dom(x, w), p == q))
    return z3.Implies(z3.And(*pre) if pre else z3.BoolVal(True), a1 == a2)


def local_facts(ctx, app):
    """Axioms of a single application (no quantifier)."""
    b, groups, sc, idx = template(ctx, app)
    out = []
    k = b.kind
    if k == "sum":
        g = groups[0]
        n = z3.IntVal(1)
        for s in g[1]:
            n = n * s
        if z3.is_int(app) and is01(g[2]):
            out.append(z3.And(app >= 0, z3.Implies(z3.And(*[s >= 0 for s in g[1]]), app <= n)))
        if any(True for _ in g[1]):
            out.append(z3.Implies(z3.Or(*[s <= 0 for s in g[1]]), app == 0))
        w = [ctx.skolem("sw").e for _ in g[1]]
        bw = at(g, w)
        if z3.is_bool(bw):
            bw = T.toint_sort(bw)
        # all terms non-negative -> the sum is non-negative; all zero -> zero
        out.append(z3.Implies(z3.Implies(dom(g, w), bw >= 0), app >= 0))
        w2 = [ctx.skolem("sw").e for _ in g[1]]
        bw2 = at(g, w2)
        if z3.is_bool(bw2):
            bw2 = T.toint_sort(bw2)
        out.append(z3.Implies(z3.Implies(dom(g, w2), bw2 == 0), app == 0))
        if not _mentions(g[2], g[0]):
            bb = T.toint_sort(g[2])
            if z3.is_real(app):
                bb, n = T.toreal(bb), T.toreal(n)
            out.append(z3.Implies(z3.And(*[s >= 0 for s in g[1]]), app == bb * n))
        elif len(g[1]) == 1:
            z = at(g, [z3.IntVal(0)])
            z = T.toint_sort(z)
            out.append(z3.Implies(g[1][0] == 1, app == (T.toreal(z) if z3.is_real(app) else z)))
    elif k in ("min", "max", "argmin", "argmax"):
        g = groups[0]
        n1 = z3.And(*[s > 0 for s in g[1]])
        if k in ("min", "max"):
            w = [ctx.skolem("mw").e for _ in g[1]]
            ctx.witness[app.get_id()] = w
            v = at(g, w)
            if z3.is_real(app):
                v = T.toreal(v)
            out.append(z3.Implies(n1, z3.And(dom(g, w), app == v)))
        else:
            out.append(z3.Implies(n1, dom(g, [app])))
    elif k in ("argmin2", "argmax2"):
        g = groups[0]
        if z3.is_int_value(idx[0]):
            n1 = z3.And(*[s > 0 for s in g[1]])
            out.append(z3.Implies(n1, z3.And(app >= 0, app < g[1][idx[0].as_long()])))
    elif k in ("any", "all"):
        g = groups[0]
        w = [ctx.skolem("aw").e for _ in g[1]]
        v = at(g, w)
        if not z3.is_bool(v):
            v = v != 0
        if k == "any":
            out.append(z3.Implies(app, z3.And(dom(g, w), v)))
        else:
            out.append(z3.Implies(z3.Not(app), z3.And(dom(g, w), z3.Not(v))))
    elif k in ("median", "mean_opq", "percentile"):
        # between the smallest and largest element: witnesses on both sides
        g = groups[0]
        n1 = z3.And(*[s > 0 for s in g[1]])
        lo = [ctx.skolem("ml").e for _ in g[1]]
        hi = [ctx.skolem("mh").e for _ in g[1]]
        out.append(z3.Implies(n1, z3.And(dom(g, lo), dom(g, hi), T.toreal(at(g, lo)) <= app, T.toreal(at(g, hi)) >= app)))
    elif k == "std":
        out.append(app >= 0)
    elif k == "argsort":
        # a bijection of range(n): its inverse is an uninterpreted function with the same parameters
        n, i = groups[0][1][0], idx[0]
        inv = inverse(ctx, b)
        ps = app.children()[:len(b.params)]
        inr = z3.And(i >= 0, i < n)
        out.append(z3.Implies(inr, z3.And(app >= 0, app < n, inv(*(ps + [app])) == i)))
        # the indices that sort a permutation of 0..n-1 are its inverse
        w = ctx.skolem("ps").e
        body = at(groups[0], [w])
        if z3.is_app_of(body, z3.Z3_OP_TO_REAL):
            body = body.arg(0)
        bb = ctx.binders.get(body.decl().name()) if z3.is_app(body) else None
        if bb is not None and bb.kind == "argsort":
            _, g2, _, i2 = template(ctx, body)
            if i2[0].eq(w) and not _mentions_any(body.children()[:-1], w):
                q = z3.substitute(body, (w, app))
                out.append(z3.Implies(z3.And(inr, g2[0][1][0] == n), q == i))
    return out


def _mentions_any(es, c):
    return any(_mentions(e, [c]) for e in es)


def inverse(ctx, b):
    sorts = [p.sort() for p in b.params] + [z3.IntSort(), z3.IntSort()]
    return z3.Function(b.name + "_inv", *sorts)


def universal_facts(ctx, app, cand):
    """Axioms quantified over an element index, instantiated at candidate integers (1-D operands) only."""
    b, groups, sc, idx = template(ctx, app)
    out = []
    k = b.kind
    if k == "argsort":
        g = groups[0]
        n, ps = g[1][0], app.children()[:len(b.params)]
        f = app.decl()
        for t in list(cand) + [c + 1 for c in cand]:
            for lo, hi in ((idx[0], t), (t, idx[0])):
                out.append(z3.Implies(z3.And(lo >= 0, lo <= hi, hi < n), at(g, [f(*(ps + [lo]))]) <= at(g, [f(*(ps + [hi]))])))
        return out
    if k == "sum" and len(groups[0][1]) == 1 and z3.is_int(app) and is01(groups[0][2]):
        # a count is at least the number of true elements among the candidates looked at
        g = groups[0]
        one = [(z3.And(dom(g, (t,)), at(g, (t,)) == 1), t) for t in list(cand)[:6]]
        for i, (c, t) in enumerate(one):
            out.append(z3.Implies(c, app >= 1))
            for c2, t2 in one[i + 1:]:
                out.append(z3.Implies(z3.And(c, c2, t != t2), app >= 2))
        return out
    if k in ("argmin2", "argmax2"):
        # no element of the array is better; none before it (row by row) is as good
        if not (z3.is_int_value(idx[0]) and idx[0].as_long() == 0):
            return out
        g, f, ps = groups[0], app.decl(), app.children()[:len(b.params)]
        p = (app, f(*(ps + [z3.IntVal(1)])))
        tuples = [(p[0] + z3.IntVal(i), p[1] + z3.IntVal(j)) for i in range(-8, 9) for j in range(-8, 9)
                  if (i or j) and (i == 0 or j == 0 or abs(i) + abs(j) == 2)]
        if all(z3.is_int_value(s) for s in g[1]) and g[1][0].as_long() * g[1][1].as_long() <= 25:
            tuples = [(z3.IntVal(i), z3.IntVal(j)) for i in range(g[1][0].as_long()) for j in range(g[1][1].as_long())]
        if len(cand) <= 8:
            tuples = tuples + [(c, d) for c in cand for d in cand if not c.eq(d)]
        va = at(g, p)
        for t in tuples:
            v, d = at(g, t), dom(g, t)
            out.append(z3.Implies(d, va <= v if k == "argmin2" else va >= v))
            out.append(z3.Implies(z3.And(d, z3.Or(t[0] < p[0], z3.And(t[0] == p[0], t[1] < p[1]))), va < v if k == "argmin2" else va > v))
        return out
    if k not in ("min", "max", "argmin", "argmax", "any", "all"):
        return out
    g = groups[0]
    n = len(g[1])
    if n == 1:
        tuples = [(c,) for c in cand]
    elif n == 2:
        tuples = [(c, d) for c in cand for d in cand] if len(cand) <= 6 else []
    elif n == 3:
        tuples = [(c, d, e) for c in cand for d in cand for e in cand] if len(cand) <= 4 else []
    else:
        tuples = []
    if k in ("min", "max"):
        tuples = tuples + [tuple(w) for i, w in list(ctx.witness.items()) if len(w) == n and i != app.get_id()][:6]
    for t in tuples:
        v = at(g, t)
        d = dom(g, t)
        if k in ("any", "all"):
            if not z3.is_bool(v):
                v = v != 0
            out.append(z3.Implies(z3.And(d, v), app) if k == "any" else z3.Implies(z3.And(d, z3.Not(v)), z3.Not(app)))
            continue
        if k in ("min", "max"):
            if z3.is_real(app):
                v = T.toreal(v)
            out.append(z3.Implies(d, app <= v if k == "min" else app >= v))
        elif n == 1:
            va = at(g, [app])
            out.append(z3.Implies(d, va <= v if k == "argmin" else va >= v))
            out.append(z3.Implies(z3.And(d, t[0] < app), va < v if k == "argmin" else va > v))
    return out


def _mentions(e, consts):
    ids = {c.get_id() for c in consts}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        st.extend(x.children())
    return False


def is01(e):
    if z3.is_int_value(e):
        return e.as_long() in (0, 1)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return is01(e.arg(1)) and is01(e.arg(2))
    return False
