"""Equality of real terms as elements of a rational function field (back end: sympy).

The arguments of uninterpreted functions (exp, erfc, sqrt, the surrogate's mean, ...) are normalised recursively, so that congruent
applications become the same indeterminate.  a = b as rational functions implies a = b at every point where no denominator occurring in
a or b vanishes; the caller has to discharge that (denominators() lists them)."""
import z3, sympy
class Field(object):
    def __init__(self): self.syms = {}; self.memo = {}; self.dens = []; self.keep = []
    def sym(self, key):
        if key not in self.syms: self.syms[key] = sympy.Symbol('x%d' % len(self.syms))
        return self.syms[key]
    def norm(self, e):
        """numerator / denominator without common factor, the denominator's leading coefficient being 1"""
        n, d = sympy.fraction(sympy.cancel(sympy.together(e))); gens = sorted(e.free_symbols, key=lambda v: int(v.name[1:]))
        if not gens: return n / d
        n, d = sympy.Poly(n, *gens), sympy.Poly(d, *gens); c = d.LC()
        return (n.as_expr() / c).expand() / (d.as_expr() / c).expand()
    def atom(self, t):
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children(); c = z3.simplify(c, arith_lhs=True)
            neg = z3.is_not(c)
            if neg: c = c.children()[0]; a, b = b, a
            return self.sym(('ite', c.sexpr(), str(self.norm(self.conv(a))), str(self.norm(self.conv(b)))))
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return self.sym((t.decl().name(),) + tuple(str(self.norm(self.conv(c))) if c.sort() == z3.RealSort() else z3.simplify(c).sexpr() for c in t.children()))
        return self.sym(z3.simplify(t).sexpr())
    def conv(self, t):
        k = t.get_id()
        if k in self.memo: return self.memo[k]
        self.keep.append(t); self.memo[k] = r = self.conv1(t); return r
    def conv1(self, t):
        if z3.is_rational_value(t): return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t): return sympy.Integer(t.as_long())
        kd = t.decl().kind(); ch = t.children()
        if kd == z3.Z3_OP_ADD: return sum([self.conv(c) for c in ch], sympy.Integer(0))
        if kd == z3.Z3_OP_SUB: return self.conv(ch[0]) - sum([self.conv(c) for c in ch[1:]], sympy.Integer(0))
        if kd == z3.Z3_OP_UMINUS: return -self.conv(ch[0])
        if kd == z3.Z3_OP_MUL:
            r = sympy.Integer(1)
            for c in ch: r = r * self.conv(c)
            return r
        if kd == z3.Z3_OP_DIV: self.dens.append(ch[1]); return self.conv(ch[0]) / self.conv(ch[1])
        if kd == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]): return sympy.Integer(ch[0].as_long())
        return self.atom(t)
    def equal(self, a, b): return self.norm(self.conv(a) - self.conv(b)) == 0
    def denominators(self):
        out = {}
        for d in self.dens:
            d = z3.simplify(d)
            if not z3.is_rational_value(d): out[d.sexpr()] = d
        return list(out.values())
