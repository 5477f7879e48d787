"""Equations of real expressions with quotients and square roots, decided by rewriting polynomials.

1/m is an atom with m * (1/m) -> 1, sqrt(u) an atom with sqrt(u)^2 -> u; each rule is used only where its side condition
(m != 0, u >= 0) is proved from the facts."""
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


LIMIT = 6000


class Poly(object):
    """dict: monomial (tuple of (atom, exponent), atoms ascending) -> coefficient"""

    def __init__(self, facts_prove):
        self.atoms = {}            # key -> index
        self.rank = []             # index -> sort rank (kind, n)
        self.kind = []             # index -> None | ("inv", lead monomial, lead coef, poly) | ("sqrt", poly)
        self.prove = facts_prove
        self.memo = {}
        self.keep = []

    # ------------------------------------------------------------------ atoms
    def atom(self, key, kind=None):
        i = self.atoms.get(key)
        if i is None:
            i = self.atoms[key] = len(self.rank)
            self.rank.append((0 if kind is None else 1 if kind[0] == "sqrt" else 2, i))
            self.kind.append(kind)
        return i

    def key(self, m):
        """Sort key of a monomial: highest ranked atom first (lexicographic)."""
        return sorted(((self.rank[a], e) for a, e in m), reverse=True)

    def lead(self, p):
        return max(p, key=self.key)

    # ------------------------------------------------------------------ arithmetic
    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mmul(m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT * 6:
            raise TooBig()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > LIMIT:
            raise TooBig()
        return self.reduce(r)

    def reduce(self, p):
        for _ in range(200):
            for m in p:
                rule = None
                for a, e in m:
                    k = self.kind[a]
                    if k is None:
                        continue
                    if k[0] == "sqrt" and e >= 2:
                        rule = (self.mdiv(m, ((a, 2),)), k[1])
                        break
                    if k[0] == "inv":
                        rest = self.mdiv(self.mdiv(m, ((a, 1),)), k[1])
                        if rest is not None:
                            # m = rest * inv * lead = rest * (1 - inv * (others)) / lc
                            t = {(): 1 / k[2]}
                            for n, c in k[3].items():
                                if n != k[1]:
                                    t[self.mmul(n, ((a, 1),))] = -c / k[2]
                            rule = (rest, t)
                            break
                if rule:
                    break
            else:
                return p
            # apply the same rule to every monomial it fits, once
            c = p[m]
            q = dict(p)
            del q[m]
            for n, d in rule[1].items():
                k = self.mmul(rule[0], n)
                v = q.get(k, 0) + c * d
                if v:
                    q[k] = v
                else:
                    q.pop(k, None)
            p = q
            if len(p) > LIMIT:
                raise TooBig()
        return self.reduce_more(p)

    def reduce_more(self, p):
        self.rounds = getattr(self, "rounds", 0) + 1
        if self.rounds > 400:
            raise TooBig()
        return self.reduce(p)

    @staticmethod
    def mdiv(m, n):
        d = dict(m)
        for a, e in n:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        return tuple(sorted(d.items()))

    # ------------------------------------------------------------------ from terms
    def of(self, e):
        h = self.memo.get(e.get_id())
        if h is None:
            h = (e, self._of(e))
            self.memo[e.get_id()] = h
        return h[1]

    def _of(self, e):
        if z3.is_rational_value(e):
            return self.const(e.as_fraction())
        if z3.is_int_value(e):
            return self.const(e.as_long())
        r = self.settle(e)
        if not r.eq(e):
            return self.of(r)
        if not z3.is_app(e):
            return {((self.atom(("t", e.get_id())), 1),): Fraction(1)}
        k, ch = e.decl().kind(), e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.of(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.of(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in ch:
                r = self.mul(r, self.of(c))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.of(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction() in (2, 3, 4):
            r = self.const(1)
            for _ in range(int(ch[1].as_fraction())):
                r = self.mul(r, self.of(ch[0]))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.of(ch[0]), self.inverse(ch[1]))
        if k == z3.Z3_OP_ITE:
            if self.prove(ch[0]):
                return self.of(ch[1])
            if self.prove(z3.Not(ch[0])):
                return self.of(ch[2])
        if e.decl().name() == "f_sqrt" and len(ch) == 1:
            u = self.of(ch[0])
            ok = self.prove(ch[0] >= 0)
            return {((self.atom(("sqrt", tuple(sorted(u.items()))), ("sqrt", u) if ok else None), 1),): Fraction(1)}
        self.keep.append(e)
        return {((self.atom(("t", e.get_id())), 1),): Fraction(1)}

    def settle(self, e):
        """The term with the choices (ite) in its index arguments settled where their condition is decided."""
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args()):
            return e
        ch = [self.choose(c) if z3.is_int(c) else c for c in e.children()]
        return e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)

    def choose(self, c):
        c = z3.simplify(c)
        for _ in range(12):
            st = [c]
            while st:
                x = st.pop()
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                    y = x.arg(1) if self.prove(x.arg(0)) else x.arg(2) if self.prove(z3.Not(x.arg(0))) else None
                    if y is not None:
                        c = z3.simplify(z3.substitute(c, (x, y)))
                        break
                elif z3.is_app(x):
                    st += x.children()
            else:
                return c
        return c

    def inverse(self, d):
        p = self.of(d)
        if not p:
            raise TooBig()
        if len(p) == 1 and () in p:
            return self.const(1 / p[()])
        lead = self.lead(p)
        lc = p[lead]
        q = {m: c / lc for m, c in p.items()}
        key = ("inv", tuple(sorted(q.items())))
        ok = key in self.atoms or self.prove(d != 0)
        i = self.atom(key, ("inv", lead, Fraction(1), q) if ok else None)
        return {((i, 1),): 1 / lc}


def equation(goal, prove):
    """Whether the equation follows by rewriting."""
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))):
        return False
    try:
        P = Poly(prove)
        d = P.add(P.of(goal.arg(0)), P.of(goal.arg(1)), -1)
        return not P.reduce(d)
    except (TooBig, RecursionError):
        return False
