"""Vocabulary shared by the contracts: arbitrary matrices, arbitrary objects, the abstract search space."""
import z3
from pyvc.values import *
from pyvc.contract import *
from pyvc import npmodel as NP
from pyvc.npmodel import mk, iterate, list_get, prefix, as_arr

def integer(I, nm, lo=None):
    n = I.fresh(nm, 'Int')
    if lo is not None: I.assume(n >= lo)
    return n
def real(I, nm): return I.fresh(nm, 'Real')
def mat(I, n, d, nm='X'):
    """arbitrary n x d matrix (rows are abstract vectors with coordinates el(row, j))"""
    R = I.fresh(nm, 'Row', ['Int'])
    return mk(I, (n, d), lambda i, j: el(R(ZI(i)), ZI(j)), row=lambda i: R(ZI(i)))
def column(I, n, nm='Y'):
    f = I.fresh(nm, 'Real', ['Int'])
    return mk(I, (n, 1), lambda i, j: f(ZI(i)))
def vec(I, n, nm='v'):
    r = I.fresh(nm, 'Row')
    return mk(I, (n,), lambda i: el(r, ZI(i)), vec=r)
def rvec(I, n, nm='v'):
    f = I.fresh(nm, 'Real', ['Int'])
    return mk(I, (n,), lambda i: f(ZI(i)))
def tupv(I, n, nm='dom'):
    f = I.fresh(nm, 'Real', ['Int'])
    return TupV(n, lambda i: f(ZI(i)))
def newobj(I, qual, **fields):
    """instance of a repository class with the given fields (no constructor run)"""
    c = I.lookup_qual(qual)
    if not isinstance(c, ClassV): raise Unsupported('class %s not found' % qual)
    return ObjV(I, c, fields)
def stub(I, name, **fields):
    o = ObjV(I, name, fields, tag='stub'); return o
def native(name, fn):
    """method of a stub: fn(I, *args)"""
    return Native(name, lambda I, a, k: fn(I, *a, **k))
def seqlen(v):
    return v.shape[0] if isinstance(v, Arr) else len(v) if isinstance(v, tuple) else v.n if isinstance(v, TupV) else v.length()
def item(I, v, i):
    if isinstance(v, Arr): return v.data(i)
    n, g = iterate(I, v); return g(i)
def exists(I, sort, body, nm='e'):
    k = z3.Const('%s!e%d' % (nm, uid()), {'Int': z3.IntSort(), 'Row': Row, 'Real': z3.RealSort()}[sort])
    return z3.Exists([k], Z(body(k)))
def lemma_sum_equal(I, em, n, g1, g2, name):
    """equal summands give equal sums (congruence of finite sums): proves the former, then uses the latter"""
    with I.gen(n) as k:
        with I.hyp(True): I.prove(simp(Z(zeq(g1(k), g2(k)))), name + ': summands are equal')
    I.assume(zeq(NP.ssum(I, n, g1), NP.ssum(I, n, g2)))
def lemma_sum_term(I, n, g, k, name):
    """a term of a sum of nonnegative numbers is at most the sum (Finset.single_le_sum): proves the premise, then uses the conclusion"""
    with I.gen(n) as j:
        with I.hyp(True): I.prove(simp(Z(zle(0, g(j)))), name + ': terms are nonnegative')
    I.assume(zimp(zand(zle(0, k), zlt(k, n)), zle(g(k), NP.ssum(I, n, g))))
def lemma_scale(I, dims, w, a, b, name):
    """a <= b and 0 <= w give w a <= w b, at every index: proves the premises, then uses the conclusion"""
    from contextlib import ExitStack
    with ExitStack() as st:
        ks = [st.enter_context(I.gen(n)) for n in dims]; st.enter_context(I.hyp(True))
        I.prove(simp(Z(zand(zle(0, w(*ks)), zle(a(*ks), b(*ks))))), name)
    I.assume_forall(dims, lambda *ks: zle(zmul(w(*ks), a(*ks)), zmul(w(*ks), b(*ks))))
def lemma_div(I, m, r, j, name):
    """(m r + j) div r = m for 0 <= j < r (uniqueness of Euclidean division): proves the premise, then uses the conclusion"""
    I.prove(simp(Z(zand(zle(0, j), zlt(j, r)))), name)
    p = simp(zadd(zmul(m, r), j)); I.assume(NP.STEPQ(ZI(p), z3.IntVal(0), ZI(r)) == ZI(m)); return p
def same_bounds(I, a, b, name):
    """a and b are the same list of intervals, or hold the same intervals"""
    if a is b: I.prove(True, name); return
    if not isinstance(b, ListV) or not isinstance(a, (ListV, tuple, TupV)): I.prove(False, name); return
    n, m = seqlen(a), seqlen(b); I.prove(simp(Z(zeq(n, m))), name + ' (length)')
    with I.gen(m) as k:
        with I.hyp(True):
            x, y = item(I, a, k), list_get(I, b, k); I.prove(simp(Z(zand(zeq(item(I, x, 0), item(I, y, 0)), zeq(item(I, x, 1), item(I, y, 1))))), name)
def same_arr(I, a, b, name, say=None):
    """a and b are the same array, or arrays of the same shape with the same entries"""
    say = say or (lambda nm, g: I.prove(simp(Z(g)) if not isinstance(g, bool) else g, nm))
    if a is b: say(name, True); return
    A_, B_ = (None if not isinstance(x, (Arr, ListV, tuple, TupV)) else as_arr(I, x) for x in (a, b))
    if A_ is None or B_ is None or A_.ndim != B_.ndim: say(name, False); return
    say(name + ' (shape)', zand(*[zeq(x, y) for x, y in zip(A_.shape, B_.shape)]))
    from contextlib import ExitStack
    with ExitStack() as st:
        ks = [st.enter_context(I.gen(n)) for n in B_.shape]; st.enter_context(I.hyp(True)); say(name, zeq(A_.data(*ks), B_.data(*ks)))
