"""Contracts of the context handling (ContextManager in GPyOpt/optimization/acquisition_optimizer.py, OptimizationWithContext in
GPyOpt/optimization/optimizer.py)."""
from .lib import *
from .bo import zeq_row, snapshot_arr
from pyvc.contract import verify
CM = 'GPyOpt.optimization.acquisition_optimizer.ContextManager'; OWC = 'GPyOpt.optimization.optimizer.OptimizationWithContext'

class Ctxt(object):
    """K fixed variables of a space with D one-dimensional variables and MD model columns; variable of key k has the model columns
    s(k)..s(k)+w(k)-1 and objective column o(k); different variables have different columns (layout of Design_space, C02)"""
    def __init__(self, I, K=None):
        self.I = I; D, MD = self.D, self.MD = integer(I, 'D', 1), integer(I, 'MD', 1); K = self.K = integer(I, 'K', 0) if K is None else K
        F = lambda nm, s, *a: I.fresh(nm, s, list(a))
        self.s, self.w, self.o = F('s', 'Int', 'Int'), F('w', 'Int', 'Int'), F('o', 'Int', 'Int'); self.own, self.ownb = F('own', 'Int', 'Int'), F('owno', 'Int', 'Int')
        self.val = F('val', 'Real', 'Int'); self.code = z3.Function('enc!%d' % uid(), z3.IntSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
        self.blo, self.bhi = F('blo', 'Real', 'Int'), F('bhi', 'Real', 'Int')
        s, w, o = self.s, self.w, self.o
        if not (is_conc(K) and K == 0):
            I.assume_forall([K], lambda k: zand(w(k) >= 1, 0 <= s(k), s(k) + w(k) <= MD, 0 <= o(k), o(k) < D, self.ownb(o(k)) == k))
            k, p = z3.Ints('ck!%d cp!%d' % (uid(), uid()))
            I.raw_fact([k, p], z3.Implies(z3.And(0 <= k, k < ZI(K), s(k) <= p, p < s(k) + w(k)), self.own(p) == k), [z3.MultiPattern(self.own(p), s(k))])
        b = ListV.sym(I, MD, lambda i: (self.blo(ZI(i)), self.bhi(ZI(i)))); self.b0 = b
        ce = ListV.sym(I, D, lambda i: self.cfg(I, i))
        self.space = stub(I, 'Space', model_dimensionality=MD, objective_dimensionality=D, config_space_expanded=ce, get_bounds=native('get_bounds', lambda I2: self.newlist(I2, b)), constraints=None,
                          find_variable=native('find_variable', lambda I2, key: self.var(I2, key)), space_expanded=ce)
        d = stub(I, 'context'); d.iterf = lambda I2: (K, lambda i: self.key(I2, i)); d.fields['keys'] = native('keys', lambda I2: IterV(K, lambda i: self.key(I2, i)))
        d.fields['items'] = native('items', lambda I2: IterV(K, lambda i: (self.key(I2, i), self.val(ZI(i)))))
        d.fields['get'] = native('get', lambda I2, key, *r: self.val(ZI(self.kidx(key))))
        d.getitemf = lambda I2, o_, key: self.val(ZI(self.kidx(key))); self.dict = d
        d.substf = lambda I2, pairs: d
        self.space.substf = lambda I2, pairs: self.space
        d.truthf = lambda I2: zlt(0, K)
    def newlist(self, I, l):
        r = ListV(I); r.segs = list(l.segs); return r
    def cfg(self, I, i):
        o = stub(I, 'descriptor', i=ZI(i)); return o
    def kidx(self, key):
        if not isinstance(key, ObjV) or 'k' not in key.fields: raise Unsupported('context key')
        return key.fields['k']
    def key(self, I, i):
        return stub(I, 'name', k=ZI(i))
    def var(self, I, key):
        k = self.kidx(key)
        return stub(I, 'Variable', index_in_model=ListV.sym(I, self.w(k), lambda j: simp(zadd(self.s(k), j))), index_in_objective=ListV(I, [self.o(k)]), k=k, dimensionality_in_model=self.w(k),
                    objective_to_model=native('objective_to_model', lambda I2, x: ListV.sym(I2, self.w(k), lambda j: self.code(k, ZR(x), ZI(j)))))
    def isctx(self, p):
        """model column p belongs to a fixed variable"""
        k = self.own(ZI(p)); return zand(0 <= k, k < ZI(self.K), self.s(k) <= p, p < self.s(k) + self.w(k))
    def isctxo(self, p):
        k = self.ownb(ZI(p)); return zand(0 <= k, k < ZI(self.K), self.o(k) == p)
    def cval(self, p):
        k = self.own(ZI(p)); return self.code(k, self.val(k), ZI(p) - self.s(k))

def increasing(I, em, n, get, nm):
    with I.gen(n) as i:
        with I.gen(n) as j:
            with I.hyp(zlt(i, j)): em('%s: in order, without repetition' % nm, zlt(get(i), get(j)))
def p_ctx(I, em, a, r):
    c = I.ctxt; F = lambda nm: I.getattr(r, nm)
    n, ni = iterate(I, F('noncontext_index')); bl, bg = iterate(I, F('noncontext_bounds')); no, nob = iterate(I, F('nocontext_index_obj'))
    em('the space is kept', F('space') is c.space)
    em('one bound for each free column', zeq(n, bl))
    em.forall([n], lambda i: zand(zle(0, ni(i)), zlt(ni(i), c.MD)), 'free columns are model columns')
    em.forall([n], lambda i: znot(c.isctx(ni(i))), 'free columns are not fixed')
    increasing(I, em, n, ni, 'free columns')
    with I.gen(c.MD) as p:
        with I.hyp(znot(c.isctx(p))): em('every other column is free', NP.contains(I, p, F('noncontext_index')))
    em.forall([n], lambda i: zand(zeq(bg(i)[0], c.blo(ZI(ni(i)))), zeq(bg(i)[1], c.bhi(ZI(ni(i))))), 'the bounds are those of the free columns')
    em.forall([no], lambda i: zand(zle(0, nob(i)), zlt(nob(i), c.D), znot(c.isctxo(nob(i)))), 'free variables are not fixed')
    increasing(I, em, no, nob, 'free variables')
    with I.gen(c.D) as p:
        with I.hyp(znot(c.isctxo(p))): em('every other variable is free', NP.contains(I, p, F('nocontext_index_obj')))
    ci, cv = F('context_index'), F('context_value'); m, mi = iterate(I, ci); mv, vg = iterate(I, cv)
    em('one value for each fixed column', zeq(m, mv))
    if not (is_conc(m) and m == 0): em.forall([m], lambda i: zand(zle(0, mi(i)), zlt(mi(i), c.MD), c.isctx(mi(i)), zeq(vg(i), c.cval(mi(i)))), 'fixed columns carry the encoding of the given value')
    if not (is_conc(c.K) and c.K == 0):
        with I.gen(c.K) as k:
            with I.gen(c.w(k)) as j:
                with I.hyp(True): em('every column of a fixed variable is fixed', NP.contains(I, simp(zadd(c.s(k), j)), ci))
        with I.gen(m) as i:
          with I.gen(m) as j:
            with I.hyp(zlt(i, j)): em('fixed columns: no repetition', znot(zeq(mi(i), mi(j))))
def s_ctx(K):
    def f(I):
        I.ctxt = Ctxt(I, K); return [I.ctxt.space] + ([I.ctxt.dict] if K is None else [])
    return f
INIT = [Contract(CM, s_ctx(None), p_ctx, name=CM + ' (with context)'), Contract(CM, s_ctx(0), p_ctx, name=CM + ' (without context)')]

class Mgr(object):
    """an arbitrary context manager as its constructor leaves it: free columns ni (n of them), fixed columns mi (m of them) with values"""
    def __init__(self, I):
        self.MD = integer(I, 'MD', 1); self.n, self.m = integer(I, 'nfree', 1), integer(I, 'nfixed', 0)
        ni, mi, v = I.fresh('free', 'Int', ['Int']), I.fresh('fixed', 'Int', ['Int']), I.fresh('value', 'Real', ['Int'])
        pf, pm, isf = I.fresh('posfree', 'Int', ['Int']), I.fresh('posfixed', 'Int', ['Int']), I.fresh('isfree', 'Bool', ['Int'])
        self.ni, self.mi, self.v, self.pf, self.pm, self.isf = ni, mi, v, pf, pm, isf
        MD, n, m = self.MD, self.n, self.m
        I.assume_forall([n], lambda i: zand(0 <= ni(i), ni(i) < MD, isf(ni(i)), pf(ni(i)) == i))
        I.assume_forall([m], lambda i: zand(0 <= mi(i), mi(i) < MD, znot(isf(mi(i))), pm(mi(i)) == i))
        I.assume_forall([MD], lambda p: zand(zimp(isf(p), zand(0 <= pf(p), pf(p) < n, ni(pf(p)) == p)), zimp(znot(isf(p)), zand(0 <= pm(p), pm(p) < m, mi(pm(p)) == p))))
        self.space = stub(I, 'Space', model_dimensionality=MD)
        f = lambda n, g: ListV.sym(I, n, lambda i: g(ZI(i)))
        self.obj = newobj(I, CM, space=self.space, noncontext_index=f(n, ni), context_index=f(m, mi), context_value=f(m, v), all_index=RangeV(0, MD, 1), noncontext_bounds=f(n, lambda i: z3.Real('b')))
        self.obj.tag = 'fixed'
def expanded(I, em, M, X, R, w):
    """R is X with the fixed values filled in at their own columns"""
    k = X.shape[0]
    em('one full row per point' + w, zand(R.ndim == 2, zeq(R.shape[0], k), zeq(R.shape[-1], M.MD)))
    if R.ndim != 2: return
    em.forall([k, M.n], lambda r, i: zeq(R.data(r, M.ni(ZI(i))), X.data(r, i)), 'free coordinates are those given' + w)
    em.forall([k, M.m], lambda r, i: zeq(R.data(r, M.mi(ZI(i))), M.v(ZI(i))), 'fixed coordinates carry their value' + w)
def s_exp(nd):
    def f(I):
        M = Mgr(I); x = vec(I, M.n, 'x') if nd == 1 else mat(I, integer(I, 'k', 1), M.n, 'x'); I.M = M; M.xc = snapshot_arr(I, x) if nd == 2 else mk(I, (1, M.n), lambda i, j: x.data(j)); M.x = x; return [M.obj, x]
    return f
def p_exp(I, em, a, r): expanded(I, em, I.M, I.M.xc, as_arr(I, r), '')
EXPAND = [Contract(CM + '._expand_vector', s_exp(d), p_exp, name=CM + '._expand_vector (%s)' % ('vector' if d == 1 else 'matrix')) for d in (1, 2)]
CONTRACTS = INIT + EXPAND
