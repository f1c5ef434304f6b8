"""Equality of two real terms with uninterpreted functions: both sides are
rewritten to polynomials over atoms; function arguments are compared the same
way; integer atoms are identified by z3 under the path condition."""
import z3
from fractions import Fraction


class Norm:
    def __init__(self, ctx):
        self.ctx, self.atoms, self.reps, self.cache = ctx, [], [], {}

    def atom(self, key, term):
        for n, (k, t) in enumerate(self.atoms):
            if k == key:
                return n
        self.atoms.append((key, term))
        return len(self.atoms) - 1

    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for k, d in b.items():
                key = {}
                for x, e in m + k:
                    key[x] = key.get(x, 0) + e
                key = tuple(sorted((x, e) for x, e in key.items() if e))
                v = r.get(key, 0) + c * d
                if v:
                    r[key] = v
                else:
                    r.pop(key, None)
        return r

    def inv(self, a, term):
        if len(a) == 1:
            (m, c), = a.items()
            return {tuple((x, -e) for x, e in m): 1 / c}
        n = self.atom(("poly", frozen(a)), term)
        return {((n, -1),): Fraction(1)}

    def poly(self, t):
        i = t.get_id()
        if i not in self.cache:
            self.cache[i] = (self._poly(t), t)
        return self.cache[i][0]

    def _poly(self, t):
        k = t.decl().kind()
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return self.const(t.as_long())
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in ch:
                r = self.mul(r, self.poly(c))
            return r
        if k in (z3.Z3_OP_DIV,):
            return self.mul(self.poly(ch[0]), self.inv(self.poly(ch[1]), ch[1]))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            e = Fraction(str(ch[1]))
            if e.denominator == 1 and 0 <= e <= 8:
                r = self.const(1)
                for _ in range(int(e)):
                    r = self.mul(r, self.poly(ch[0]))
                return r
        if k == z3.Z3_OP_TO_REAL:
            return self.intpoly(ch[0])
        if k == z3.Z3_OP_ITE:
            # decided under the path condition
            if self.ctx.valid(ch[0]):
                return self.poly(ch[1])
            if self.ctx.valid(z3.Not(ch[0])):
                return self.poly(ch[2])
        if z3.is_app(t) and ch and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(c.sort() == z3.RealSort() for c in ch):
            key = ("app", t.decl().name(), tuple(frozen(self.poly(c)) for c in ch))
            # parity of sin, cos: arguments up to sign are kept apart on purpose
            return {((self.atom(key, t), 1),): Fraction(1)}
        for e in self.eqs():
            if e[0].eq(t):
                return self.poly(e[1])
        return {((self.atom(("term", t.sexpr()), t), 1),): Fraction(1)}

    def eqs(self):
        return ()

    def intpoly(self, t):
        k = t.decl().kind()
        if z3.is_int_value(t) or k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            ch = t.children()
            if z3.is_int_value(t):
                return self.const(t.as_long())
            ps = [self.intpoly(c) for c in ch]
            if k == z3.Z3_OP_UMINUS:
                return self.add({}, ps[0], -1)
            r = ps[0]
            for p in ps[1:]:
                r = self.mul(r, p) if k == z3.Z3_OP_MUL else self.add(r, p, 1 if k == z3.Z3_OP_ADD else -1)
            return r
        for n, (key, u) in enumerate(self.atoms):
            if key[0] == "int" and (u.eq(t) or self.ctx.valid(u == t)):
                return {((n, 1),): Fraction(1)}
        for u, p in self.reps:
            if u.eq(t) or self.ctx.valid(u == t):
                return p
        return {((self.atom(("int", t.sexpr()), t), 1),): Fraction(1)}

    def seed(self, t):
        """t (an integer term of the specification) is to be recognised in other forms"""
        self.reps.append((t, self.intpoly(t)))


def frozen(p):
    return tuple(sorted(p.items()))


def subints(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        out.append(t.arg(0))
    for c in t.children():
        subints(c, out, seen)


def equal(ctx, got, want, seeds=()):
    n = Norm(ctx)
    for s in seeds:
        n.seed(s)
    b = n.poly(want)
    a = n.poly(got)
    d = n.add(a, b, -1)
    if not d:
        return True, ""
    return False, f"difference over {len(d)} monomials; atoms {[(i, str(t)[:200]) for i, (k, t) in enumerate(n.atoms)]}"[:2500]
