"""Normal form of rational expressions: quotients by a non-constant become products with the reciprocal of a monic
polynomial, comparisons are brought to (monic polynomial) vs 0, conditions known on the path are decided.

x / d is read as x * (1 / d) (also at d = 0, where 1 / d is unspecified)."""
from fractions import Fraction

import z3

INV = z3.Function("inv", z3.RealSort(), z3.RealSort())
CMP = {z3.Z3_OP_EQ: "eq", z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt"}


def som(e):
    return z3.simplify(e, som=True, sort_sums=True)


def monos(t):
    out = []
    for m in (t.children() if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]):
        if z3.is_rational_value(m):
            out.append((m.as_fraction(), None))
        elif z3.is_app_of(m, z3.Z3_OP_MUL) and z3.is_rational_value(m.arg(0)):
            r = m.children()[1:]
            out.append((m.arg(0).as_fraction(), r[0] if len(r) == 1 else z3.Product(r)))
        else:
            out.append((Fraction(1), m))
    return out


def rv(f):
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def monic(t):
    """t = lc * m with m monic -> (lc, m); t is in som form.  Constant: (value, None)."""
    ms = monos(t)
    nc = [(c, m) for c, m in ms if m is not None]
    if not nc:
        return (ms[0][0] if ms else Fraction(0)), None
    lc = min(nc, key=lambda cm: som(cm[1]).get_id())[0]
    if lc == 1:
        return lc, t
    return lc, som(t * rv(1 / lc))


class Normaliser(object):
    def __init__(self):
        self.memo = {}
        self.known = {}          # atom id -> (atom, bool)
        self.keep = []

    def learn(self, a):
        """a: a normalised assertion."""
        if z3.is_and(a):
            for c in a.children():
                self.learn(c)
        elif z3.is_not(a):
            self.known[a.arg(0).get_id()] = (a.arg(0), False)
        elif not z3.is_or(a) and not z3.is_quantifier(a):
            self.known[a.get_id()] = (a, True)

    def atom(self, op, l, r):
        p = som(l - r)
        lc, m = monic(p)
        if m is None:
            return z3.BoolVal({"eq": lc == 0, "le": lc <= 0, "lt": lc < 0, "ge": lc >= 0, "gt": lc > 0}[op])
        z = z3.RealVal(0)
        if op == "eq":
            return m == z
        if lc < 0:
            op = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt"}[op]
        return {"le": lambda: m <= z, "ge": lambda: m >= z, "lt": lambda: z3.Not(m >= z), "gt": lambda: z3.Not(m <= z)}[op]()

    def norm(self, e):
        stack = [e]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in self.memo:
                stack.pop()
                continue
            if not z3.is_app(t) or t.num_args() == 0:
                self.memo[i] = (t, t)
                stack.pop()
                continue
            need = [c for c in t.children() if c.get_id() not in self.memo]
            if need:
                stack.extend(need)
                continue
            self.memo[i] = (t, self.step(t, [self.memo[c.get_id()][1] for c in t.children()]))
            stack.pop()
        return self.memo[e.get_id()][1]

    def step(self, t, ch):
        k = t.decl().kind()
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            lc, m = monic(som(ch[1]))
            if m is None:
                return som(ch[0] / rv(lc)) if lc != 0 else t.decl()(*ch)
            return som(ch[0] * rv(1 / lc) * INV(m))
        if k in CMP and ch[0].sort() == z3.RealSort():
            r = self.atom(CMP[k], ch[0], ch[1])
            return self.decided(r)
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2 and ch[0].sort() == z3.RealSort():
            return z3.simplify(z3.Not(self.decided(self.atom("eq", ch[0], ch[1]))))
        if k == z3.Z3_OP_ITE:
            c = self.decided(ch[0])
            if z3.is_true(c):
                return ch[1]
            if z3.is_false(c):
                return ch[2]
            return z3.If(c, ch[1], ch[2])
        if k == z3.Z3_OP_AND:
            return z3.simplify(z3.And([self.decided(c) for c in ch]))
        if k == z3.Z3_OP_OR:
            return z3.simplify(z3.Or([self.decided(c) for c in ch]))
        if k == z3.Z3_OP_NOT:
            return z3.simplify(z3.Not(self.decided(ch[0])))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            if k == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif k == z3.Z3_OP_MUL:
                r = z3.Product(ch)
            elif k == z3.Z3_OP_UMINUS:
                r = -ch[0]
            else:
                r = ch[0]
                for x in ch[1:]:
                    r = r - x
            return som(r)
        return t.decl()(*ch)

    def decided(self, c):
        h = self.known.get(c.get_id())
        if h is not None:
            return z3.BoolVal(h[1])
        if z3.is_not(c):
            h = self.known.get(c.arg(0).get_id())
            if h is not None:
                return z3.BoolVal(not h[1])
        return c


def has_quotient(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
            return True
        st.extend(x.children())
    return False


def normalise(facts, goal):
    """-> facts and negated goal in normal form, using the literals among the facts."""
    n = Normaliser()
    out = [n.norm(a) for a in facts]
    for b in out:
        n.learn(b)
    n.memo = {}
    g = n.norm(goal)
    return out + [z3.Not(g)]
