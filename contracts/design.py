"""Contracts of the initial designs (GPyOpt/experiment_design/*.py) and of the constraint handling in Design_space."""
from .lib import *
from .space import SpaceM, design_space, variable, S
from .bo import zeq_row, snapshot_arr
from pyvc.contract import Prover
from pyvc.values import PyRaise
from fractions import Fraction
R = 'GPyOpt.experiment_design.'
RND = R + 'random_design.'

# --- uniform sampling in a box
def s_unif(I):
    D, n = integer(I, 'D', 1), integer(I, 'n', 0); lo, hi = I.fresh('lo', 'Real', ['Int']), I.fresh('hi', 'Real', ['Int']); I.assume_forall([D], lambda k: lo(k) <= hi(k))
    I.un = (D, n, lo, hi); return [ListV.sym(I, D, lambda k: (lo(ZI(k)), hi(ZI(k)))), n]
def p_unif(I, em, a, r):
    D, n, lo, hi = I.un; em('one row per sample, one column per bound', zand(r.ndim == 2, zeq(r.shape[0], n), zeq(r.shape[-1], D)))
    em.forall([n, D], lambda i, k: zand(zle(lo(k), r.data(i, k)), zle(r.data(i, k), hi(k))), 'every coordinate lies within its bounds')
UNIF = [Contract(q + '.samples_multidimensional_uniform', s_unif, p_unif) for q in ('GPyOpt.experiment_design.random_design', 'GPyOpt.util.general')]

# --- continuous part of a space
def s_sp(I): sp = SpaceM(I); I.cp = cont_parts(I, sp); return [design_space(I, sp)]
def at(I, v, q): return iterate(I, v)[1](q)
def cont(sp, k): return sp.kind(ZI(k)) == 0
def p_cdims(I, em, a, r):
    sp = a[0].sp; n, g = iterate(I, r)
    em.forall([n], lambda i: zand(zle(0, g(i)), zlt(g(i), sp.D), cont(sp, g(i))), 'positions of continuous variables')
    with I.gen(n) as i:
        with I.gen(n) as j:
            with I.hyp(zlt(i, j)): em('in order', zlt(g(i), g(j)))
    with I.gen(sp.D) as k:
        with I.hyp(cont(sp, k)): em('every continuous variable is listed', NP.contains(I, k, r))
CDIMS = Contract(S + '.get_continuous_dims', s_sp, p_cdims)
def p_ddims(I, em, a, r):
    sp = a[0].sp; n, g = iterate(I, r); d = lambda k: sp.kind(ZI(k)) == 1
    em.forall([n], lambda i: zand(zle(0, g(i)), zlt(g(i), sp.D), d(g(i))), 'positions of discrete variables')
    with I.gen(sp.D) as k:
        with I.hyp(d(k)): em('every discrete variable is listed', NP.contains(I, k, r))
DDIMS = Contract(S + '.get_discrete_dims', s_sp, p_ddims)
def p_hascont(I, em, a, r):
    sp = a[0].sp; b = Z(NP.truth(I, r)); em('some variable is continuous', b == exists(I, 'Int', lambda k: zand(0 <= k, zlt(k, sp.D), cont(sp, k))))
HASCONT = Contract(S + '.has_continuous', s_sp, p_hascont)
def cont_parts(I, sp):
    """contract of the continuous part: dims d(0) < d(1) < .. are the positions of the continuous variables, bounds their intervals"""
    P, own = prefix(I, sp.D, lambda k: z3.If(cont(sp, k), z3.IntVal(1), z3.IntVal(0))); return P(sp.D), own, P
def p_cbounds(I, em, a, r):
    sp = a[0].sp; n, g = iterate(I, r); nc, d, P = I.cp
    em('one interval for each continuous variable', zeq(n, nc))
    em.forall([n], lambda i: zand(zeq(at(I, g(i), 0), sp.dv(d(i), 0)), zeq(at(I, g(i), 1), sp.dv(d(i), 1))), 'the interval of the variable at that position')
CBOUNDS = Contract(S + '.get_continuous_bounds', s_sp, p_cbounds)
def p_cdims2(I, em, a, r):
    sp = a[0].sp; n, g = iterate(I, r); nc, d, P = I.cp
    em('one position for each continuous variable', zeq(n, nc)); em.forall([n], lambda i: zeq(g(i), d(i)), 'in order of the variables')
CDIMS2 = Contract(S + '.get_continuous_dims', s_sp, p_cdims2, name=S + '.get_continuous_dims (order)')
SPACE = [CDIMS, CDIMS2, DDIMS, HASCONT, CBOUNDS]
def use_cont(I, sp):
    nc, d, P = I.cp; l = lambda I2, f: ListV.sym(I2, nc, f)
    I.contracts[S + '.get_continuous_dims'] = lambda I2, a, fv: l(I2, lambda i: d(ZI(i)))
    I.contracts[S + '.get_continuous_bounds'] = lambda I2, a, fv: l(I2, lambda i: (sp.dv(d(ZI(i)), 0), sp.dv(d(ZI(i)), 1)))
    I.contracts[S + '.has_continuous'] = lambda I2, a, fv: zlt(0, nc)
def sp_cont(I, **kw):
    sp = SpaceM(I); I.cp = cont_parts(I, sp); o = design_space(I, sp, **kw); use_cont(I, sp); return sp, o
def sp_cont_abs(I):
    """the same with the continuous part given by its proved contract alone: d lists the continuous variables, P is the inverse of d"""
    sp = SpaceM(I, light=True); nc, d, P = integer(I, 'nc', 0), I.fresh('dim', 'Int', ['Int']), I.fresh('pos', 'Int', ['Int']); I.cp = (nc, d, P)
    I.assume_forall([nc], lambda i: zand(0 <= d(i), zlt(d(i), sp.D), cont(sp, d(i)), P(d(i)) == i)); I.assume_forall([sp.D], lambda k: zimp(cont(sp, k), zand(0 <= P(k), P(k) < nc, d(P(k)) == k)))
    o = design_space(I, sp); use_cont(I, sp); return sp, o
def legal_all(I, em, sp, X, n, what='every coordinate is a declared value of its variable'):
    em('one row per point, one column per variable', zand(X.ndim == 2, zeq(X.shape[0], n), zeq(X.shape[-1], sp.D)))
    if X.ndim == 2: em.forall([n, sp.D], lambda i, k: sp.legal(k, X.data(i, k)), what)
# --- random design
def s_fill(I):
    sp, o = sp_cont(I); n = integer(I, 'n', 0); X = mat(I, n, sp.D, 'samples'); I.fl = (sp, n, X, snapshot_arr(I, X)); return [newobj(I, RND + 'RandomDesign', space=o), X]
def p_fill(I, em, a, r):
    sp, n, X, X0 = I.fl
    em.forall([n, sp.D], lambda i, k: zimp(znot(cont(sp, k)), sp.legal(k, X.data(i, k))), 'every other coordinate is a declared value of its variable')
    em.forall([n, sp.D], lambda i, k: zimp(cont(sp, k), zeq(X.data(i, k), X0.data(i, k))), 'continuous coordinates are left alone')
def hook_fill(I, view):
    """columns before k are filled, the others are untouched; counters advance with the variables"""
    sp = I.fl[0]; out = []
    for l in view.of_kind('int'): out.append(('%s counts columns' % l.name, lambda st, k, l=l: zeq(st[l.key], zadd(l.init, k))))
    for l in view.arrs(2):
        i0, q0 = z3.Int('i!fill'), z3.Int('q!fill'); D0 = l.init.data
        def inv(st, k, l=l, D0=D0):
            A = st[l.key]
            return z3.ForAll([i0, q0], Z(zimp(zand(0 <= i0, zlt(i0, A.shape[0]), 0 <= q0, zlt(q0, sp.D)), zite(zand(zlt(q0, k), znot(cont(sp, q0))), sp.legal(q0, A.data(i0, q0)), zeq(A.data(i0, q0), D0(i0, q0))))), patterns=[Z(A.data(i0, q0))] if not NP.mentions_arith(Z(A.data(i0, q0))) else [])
        out.append(('columns of %s filled so far' % l.name, inv))
    return out
HF = {RND + 'RandomDesign.fill_noncontinous_variables': hook_fill}
FILL = Contract(RND + 'RandomDesign.fill_noncontinous_variables', s_fill, p_fill, hooks=HF)
def s_rnd(I):
    sp, o = sp_cont(I); n = integer(I, 'n', 0); I.fl = (sp, n); return [newobj(I, RND + 'RandomDesign', space=o), n]
def p_rnd(I, em, a, r): sp, n = I.fl; legal_all(I, em, sp, as_arr(I, r), n)
RANDOM = Contract(RND + 'RandomDesign.get_samples_without_constraints', s_rnd, p_rnd, hooks=HF)
# with constraints: every accepted point satisfies them (unbounded rejection loop)
def s_rej(I):
    D, n = integer(I, 'D', 1), integer(I, 'n', 0); OK = z3.Function('feasible!%d' % uid(), Row, z3.BoolSort()); LG = z3.Function('legal!%d' % uid(), Row, z3.BoolSort())
    def ind(I2, x):
        A = NP.atleast_2d(I2, NP.as_arr(I2, x)); r = NP.rowfn(I2, A); return mk(I2, (A.shape[0], 1), lambda i, j: zite(OK(r(ZI(i))), 1, 0))
    def c_s(I2, a, fv):
        m = a['init_points_count']; X = mat(I2, m, D, 'candidates'); r = NP.rowfn(I2, X); I2.assume_forall([m], lambda i: LG(r(ZI(i)))); return X
    I.contracts[RND + 'RandomDesign.get_samples_without_constraints'] = c_s
    space = stub(I, 'Space', dimensionality=D, objective_dimensionality=D, has_constraints=native('has_constraints', lambda I2: True), indicator_constraints=native('indicator_constraints', ind))
    I.rj = (D, n, OK, LG); return [newobj(I, RND + 'RandomDesign', space=space), n]
def p_rej(I, em, a, r):
    D, n, OK, LG = I.rj; X = as_arr(I, r); em('as many points as requested', zand(X.ndim == 2, zeq(X.shape[0], n), zeq(X.shape[-1], D)))
    if X.ndim == 2:
        rr = NP.rowfn(I, X); em.forall([n], lambda i: OK(rr(ZI(i))), 'every point satisfies the constraints'); em.forall([n], lambda i: LG(rr(ZI(i))), 'every point is legal')
def hook_rej(I, view):
    D, n, OK, LG = I.rj; out = []
    for l in view.arrs(2):
        def inv(st, k, l=l, P=None):
            A = st[l.key]; r = NP.rowfn(I, A); q = z3.Int('q!rej')
            return z3.ForAll([q], Z(zimp(zand(0 <= q, zlt(q, A.shape[0])), zand(OK(r(q)), LG(r(q))))))
        out.append(('accepted points of %s satisfy the constraints' % l.name, inv)); out.append(('columns of %s' % l.name, lambda st, k, l=l: zeq(st[l.key].shape[1], D)))
    return out
REJ = [Contract(RND + 'RandomDesign.' + q, s_rej, p_rej, name=RND + 'RandomDesign.%s (constraints)' % q, hooks={RND + 'RandomDesign.get_samples_with_constraints': hook_rej, RND + 'RandomDesign.get_samples': hook_rej}) for q in ('get_samples_with_constraints', 'get_samples')]
RANDOMS = [FILL, RANDOM] + REJ

# --- Latin hypercube and Sobol designs (continuous part drawn by pyDOE / sobol_seq, assumed contracts)
def lhs_ext(I):
    """pyDOE.lhs(d, n): an n x d matrix; in every column the n values lie one in each of the slices [q/n, (q+1)/n]"""
    def f(I2, a, k):
        d = a[0]; n = a[1] if len(a) > 1 else k.get('samples'); X = mat(I2, n, d, 'lhs'); pi, inv = I2.fresh('slice', 'Int', ['Int', 'Int']), I2.fresh('inslice', 'Int', ['Int', 'Int'])
        edge = I2.fresh('edge', 'Real', ['Int']); lo, hi = (lambda i, j: edge(pi(i, j))), (lambda i, j: edge(pi(i, j) + 1))     # edge(q) = q/n
        I2.assume_forall([n, d], lambda i, j: zand(0 <= pi(i, j), zlt(pi(i, j), n), inv(pi(i, j), j) == i, zle(lo(i, j), X.data(i, j)), zle(X.data(i, j), hi(i, j)), zle(0, X.data(i, j)), zle(X.data(i, j), 1)))
        I2.assume_forall([n, d], lambda q, j: zand(0 <= inv(q, j), zlt(inv(q, j), n), pi(inv(q, j), j) == q))
        I2.gh.fields['s'] = (lo, hi, X); return X
    I.natives['pyDOE.lhs'] = f
def sobol_ext(I):
    """sobol_seq.i4_sobol_generate(d, n): an n x d matrix of numbers in [0, 1]"""
    def f(I2, a, k):
        d, n = a[0], a[1]; X = mat(I2, n, d, 'sobol'); I2.assume_forall([n, d], lambda i, j: zand(zle(0, X.data(i, j)), zle(X.data(i, j), 1))); I2.gh.fields['s'] = (None, None, X); return X
    I.natives['sobol_seq.i4_sobol_generate'] = f
def c_fill(I, sp):
    """contract of fill_noncontinous_variables (proved above): every non-continuous coordinate becomes a declared value, in place"""
    def f(I2, a, fv):
        X = a['samples']; old = X.data; v = I2.fresh('filled', 'Real', ['Int', 'Int'])
        I2.assume_forall([X.shape[0], sp.D], lambda i, k: zimp(znot(cont(sp, k)), sp.legal(k, v(i, k))))
        X.set(lambda i, k: zite(cont(sp, k), old(i, k), v(ZI(i), ZI(k)))); return None
    I.contracts[RND + 'RandomDesign.fill_noncontinous_variables'] = f
def s_des(cls, ext):
    def f(I):
        sp, o = sp_cont_abs(I); n = integer(I, 'n', 1); c_fill(I, sp); ext(I); I.gh = stub(I, 'ghost', s=None); I.fl = (sp, n); return [newobj(I, R + cls, space=o), n]
    return f
def scaled(I, em, sp, X, n, L):
    """continuous column c is the sample L scaled to the interval; the other coordinates are legal"""
    nc, d, P = I.cp
    em('one row per point, one column per variable', zand(X.ndim == 2, zeq(X.shape[0], n), zeq(X.shape[-1], sp.D)))
    if X.ndim != 2: return
    with I.gen(n) as i:
        with I.gen(sp.D) as k:
            with I.hyp(znot(cont(sp, k))): em('every other coordinate is a declared value of its variable', sp.legal(k, X.data(i, k)))
    with I.gen(sp.D) as k:
        with I.hyp(cont(sp, k)): em('every continuous variable gets a column of the sample', zand(zle(0, P(k)), zlt(P(k), nc), zeq(d(P(k)), k)))
    if L is None: return em('without continuous variables there is no sample', zeq(nc, 0))
    em('one column of the sample per continuous variable, one row per point', zand(zeq(L.shape[0], n), zeq(L.shape[1], nc)))
    with I.gen(n) as i:
        with I.gen(nc) as c:
            with I.hyp(True):
                k = d(c); w = zsub(sp.dv(k, 1), sp.dv(k, 0)); x = L.data(i, c)
                em('the sample is scaled to the interval', zeq(zsub(X.data(i, k), sp.dv(k, 0)), zmul(w, x)))
    with I.gen(n) as i:
        with I.gen(nc) as c:
            with I.hyp(True):
                k = d(c); w = zsub(sp.dv(k, 1), sp.dv(k, 0)); x = L.data(i, c)
                lemma_scale(I, [], lambda: w, lambda: 0, lambda: x, 'sample is not negative'); lemma_scale(I, [], lambda: w, lambda: x, lambda: 1, 'sample is at most one')
                em('every continuous coordinate lies in its interval', zand(zle(sp.dv(k, 0), X.data(i, k)), zle(X.data(i, k), sp.dv(k, 1))))
def p_lhs(I, em, a, r):
    sp, n = I.fl; X = as_arr(I, r); g = I.gh.fields['s']; scaled(I, em, sp, X, n, g and g[2]); nc, d, P = I.cp
    if g is None or X.ndim != 2: return
    lo, hi, L = g
    with I.gen(n) as i:
        with I.gen(nc) as c:
            with I.hyp(True):
                k = d(c); w = zsub(sp.dv(k, 1), sp.dv(k, 0)); x = L.data(i, c)
                lemma_scale(I, [], lambda: w, lambda: lo(i, c), lambda: x, 'slice from below'); lemma_scale(I, [], lambda: w, lambda: x, lambda: hi(i, c), 'slice from above')
                em('every value lies in its slice of the interval', zand(zle(zmul(w, lo(i, c)), zmul(w, x)), zle(zmul(w, x), zmul(w, hi(i, c)))))
LHS = Contract(R + 'latin_design.LatinDesign.get_samples', s_des('latin_design.LatinDesign', lhs_ext), p_lhs)
def p_sob(I, em, a, r): sp, n = I.fl; scaled(I, em, sp, as_arr(I, r), n, (I.gh.fields['s'] or (None,) * 3)[2])
SOB = Contract(R + 'sobol_design.SobolDesign.get_samples', s_des('sobol_design.SobolDesign', sobol_ext), p_sob)
# --- grid design
IP, ID = NP.IPOW, NP.IDIV
def lemma_tangent(I):
    """x^k + (k-1) s^k >= k x s^(k-1) for all naturals (induction on k, the step discharged by the solver), and the recursion of powers"""
    x, s, k, X, a = [z3.Real('%s!tl' % c) for c in 'xskXa']
    # base k=1: x + 0 >= x;  step k -> k+1 with X = x^k, a = s^(k-1):  x X + k s (s a) >= (k+1) x (s a)
    f = X + (k - 1) * s * a - k * x * a
    I.prove(z3.Implies(z3.And(x >= 0, s >= 0, k >= 1, a >= 0, f >= 0, x * f >= 0, k * a * ((x - s) * (x - s)) >= 0), x * X + k * s * s * a >= (k + 1) * x * s * a), 'tangent inequality: induction step')
    for t, g in (('x f', z3.Implies(z3.And(x >= 0, X >= 0), x * X >= 0)), ('k a (x-s)^2', z3.Implies(z3.And(k >= 1, a >= 0, X >= 0), k * a >= 0))): I.prove(g, 'tangent inequality: product ' + t)
def newton(I, k, n):
    """one Newton step from any s >= 1 does not go below the root: if a = s^(k-1), q = n div a, u = ((k-1) s + q) div k then n < (u+1)^k"""
    lemma_tangent(I)
    s, a, q, u, x = [I.fresh(c, 'Int') for c in ('s', 'a', 'q', 'u', 'pow')]
    # with the tangent inequality at x = u+1 (pow = (u+1)^k):  pow >= (k (u+1) - (k-1) s) a >= (q+1) a > n
    e = k * (u + 1) - (k - 1) * s
    with I.hyp(zand(s >= 1, a >= 1, q * a <= n, n < q * a + a, u * k <= (k - 1) * s + q, (k - 1) * s + q < u * k + k, x >= e * a)):
        I.prove(e >= q + 1, 'Newton step: slope'); lemma_scale(I, [], lambda: a, lambda: q + 1, lambda: e, 'Newton step: product'); I.prove(n < x, 'Newton step: stays above the root')
    with I.hyp(zand(s >= 1, k >= 1, q >= 0, u * k <= (k - 1) * s + q, (k - 1) * s + q < u * k + k)):
        lemma_scale(I, [], lambda: k - 1, lambda: 0, lambda: s, 'Newton step: product'); I.prove((u + 1) * k > 0, 'Newton step: numerator'); I.prove(u >= 0, 'Newton step: not negative')
    with I.hyp(zand(u >= 0, n >= 1, z3.Implies(u == 0, x == 1), n < x)): I.prove(u >= 1, 'Newton step: positive')
    v = z3.Int('v!nt'); pa = IP(v, k - 1); qq = ID(n, pa); uu = ID((k - 1) * v + qq, k)
    I.raw_fact([v], z3.Implies(v >= 1, z3.And(uu >= 1, n < IP(uu + 1, k), IP(v, k) == v * pa, uu * k <= (k - 1) * v + qq)), [pa])
def s_root(I):
    k, n = integer(I, 'k', 1), integer(I, 'n', 1); I.ri = (k, n); newton(I, k, n)
    I.assume(z3.And(IP(n + 1, k) == (n + 1) * IP(n + 1, k - 1), IP(n + 1, k - 1) >= 1, IP(n + 2, k) == (n + 2) * IP(n + 2, k - 1), IP(n + 2, k - 1) >= 1)); return [k, n]
def hook_root(I, view):
    """Newton iteration: the current value u stays above the root, and u is the Newton step from the previous value s"""
    k, n = I.ri; ints = view.of_kind('int'); out = []
    for l in ints: out.append(('%s is positive and above the root' % l.name, lambda st, kk, l=l: zand(zle(1, st[l.key]), n < IP(ZI(st[l.key]) + 1, k))))
    us, ss = [[l for l in ints if is_num(l.init) and same_num(I, l.init, v)] for v in (n, n + 1)]
    for u in us:
        for s in ss:
            def inv(st, kk, u=u, s=s):
                U, V = ZI(st[u.key]), ZI(st[s.key]); q = ID(n, IP(V, k - 1))
                return z3.Or(z3.And(U == n, V == n + 1), z3.And(U * k <= (k - 1) * V + q, q * IP(V, k - 1) <= n, IP(V, k) == V * IP(V, k - 1), IP(V, k - 1) >= 1))
            out.append(('%s is the Newton step from %s' % (u.name, s.name), inv))
    return out
def same_num(I, a, b): return z3.is_true(z3.simplify(ZI(a) == ZI(b)))
def p_root(I, em, a, r):
    k, n = I.ri; r = ZI(NP.scalar_of(r))
    em('positive', r >= 1); em('its power does not exceed the request', IP(r, k) <= n); em('the next power does', n < IP(r + 1, k))
ROOT = Contract(R + 'grid_design.iroot', s_root, p_root, hooks={R + 'grid_design.iroot': hook_root})
GRIDQ = R + "grid_design."
# lattice: multigrid(bounds, r) for 1, 2 and 3 coordinates
def s_mg(d):
    def f(I):
        r = integer(I, 'r', 1); b = [(real(I, 'lo'), real(I, 'hi')) for _ in range(d)]
        for lo, hi in b: I.assume(lo <= hi)
        I.mg = (d, r, b); return [ListV(I, list(b)), r]
    return f
def lin(b, r, i): return zite(zeq(r, 1), b[0], zadd(b[0], zmul(zdiv(zsub(b[1], b[0]), zsub(r, 1)), i)))
def p_mg(I, em, a, res):
    d, r, b = I.mg; X = as_arr(I, res); tot = 1
    for _ in range(d): tot = zmul(tot, r)
    em('one row per lattice point, one column per coordinate', zand(X.ndim == 2, zeq(X.shape[0], tot), zeq(X.shape[-1], d)))
    if X.ndim != 2: return
    from contextlib import ExitStack
    with ExitStack() as st:
        ks = [st.enter_context(I.gen(r)) for _ in range(d)]; st.enter_context(I.hyp(True))
        def pos(order):
            p = 0
            for h, q in enumerate(order): p = lemma_div(I, p, r, ks[q], 'lattice index') if h else ks[q]
            return p
        import itertools
        goals = []
        for order in itertools.permutations(range(d)):
            p = pos(order); goals.append((p, zand(*[zeq(X.data(p, c), lin(b[c], r, ks[c])) for c in range(d)])))
        p, g = next((x for x in goals if I.check(Z(x[1]))), goals[-1])
        em('every lattice position is a row', zand(zle(0, p), zlt(p, tot))); em('the row of every lattice position holds its evenly spaced values', g)
MG = [Contract(R + 'grid_design.multigrid', s_mg(d), p_mg, name=R + 'grid_design.multigrid (%d coordinates)' % d) for d in (1, 2, 3)]
# grid design: r^d points, d continuous variables, r the integer root (contracts of iroot and multigrid proved above)
def s_grid(I):
    sp, o = sp_cont_abs(I); n = integer(I, 'n', 1); c_fill(I, sp); I.fl = (sp, n); I.gh = stub(I, 'ghost', s=None, r=None)
    def c_root(I2, a, fv):
        k, m = ZI(a['k']), ZI(a['n']); I2.prove(zand(k >= 1, m >= 1), 'iroot precondition: positive'); r = integer(I2, 'r', 1); I2.assume(zand(IP(r, k) <= m, m < IP(r + 1, k), IP(r, k) >= 1)); I2.gh.fields['r'] = (r, k, m); return r
    def c_mg(I2, a, fv):
        b, r = a['bounds'], a['points_count']; m, g = iterate(I2, b); X = mat(I2, NP.ipow(I2, r, m), m, 'grid')
        I2.assume_forall([X.shape[0], m], lambda i, j: zand(zle(at(I2, g(j), 0), X.data(i, j)), zle(X.data(i, j), at(I2, g(j), 1)))); I2.gh.fields['s'] = (r, m, X); return X
    I.contracts[R + 'grid_design.iroot'] = c_root; I.contracts[R + 'grid_design.multigrid'] = c_mg
    return [newobj(I, R + 'grid_design.GridDesign', space=o), n]
def p_grid(I, em, a, res):
    sp, n = I.fl; X = as_arr(I, res); nc, d, P = I.cp; g, rt = I.gh.fields['s'], I.gh.fields['r']
    if g is None: em('without continuous variables there is no grid', zeq(nc, 0)); return legal_all(I, em, sp, X, n)
    r, m, L = g; N = IP(ZI(r), nc)
    em('the lattice has one coordinate per continuous variable', zeq(m, nc))
    em('r is the integer root of the request', rt is not None and zand(zeq(r, rt[0]), zeq(rt[1], nc), zeq(rt[2], n)))
    legal_all(I, em, sp, X, N)
    with I.gen(N) as i:
        with I.gen(nc) as c:
            with I.hyp(True): em('continuous coordinates are those of the lattice', zeq(X.data(i, d(c)), L.data(i, c)))
GRID = Contract(R + 'grid_design.GridDesign.get_samples', s_grid, p_grid)
# --- constructors reject constraints, the named designs are the ones selected
CLS = {'random': 'random_design.RandomDesign', 'latin': 'latin_design.LatinDesign', 'sobol': 'sobol_design.SobolDesign', 'grid': 'grid_design.GridDesign'}
def s_ctor(hc):
    def f(I): I.sp = stub(I, 'Space', has_constraints=native('has_constraints', lambda I2: hc)); return [I.sp]
    return f
CTOR = [Contract(R + CLS[k], s_ctor(False), lambda I, em, a, r: em('the space is kept', I.getattr(r, 'space') is I.sp), name=R + CLS[k] + ' (no constraints)') for k in CLS]
CTOR += [Contract(R + CLS[k], s_ctor(True), lambda I, em, a, r: em('constraints are rejected', False), raises=lambda I, em, a, e: em('with InvalidConfigError', e.clsname == 'InvalidConfigError'), name=R + CLS[k] + ' (constraints)') for k in CLS if k != 'random']
def s_initial(nm):
    def f(I):
        n = integer(I, 'n', 1); I.sp = stub(I, 'Space'); I.gh = stub(I, 'ghost', made=None, drawn=None)
        for k, q in CLS.items():
            def mk_(I2, a, fv, k=k):
                o = stub(I2, 'Design', kind=k); I2.gh.fields['made'] = (k, a['args'], a['kwargs'])
                def get(I3, *x, **kw): I3.gh.fields['drawn'] = (k, x, kw); return stub(I3, 'Points', of=k)
                o.fields['get_samples'] = native('get_samples', get); return o
            I.contracts[R + q] = mk_
        return [nm, I.sp, n]
    return f
def p_initial(nm):
    def post(I, em, a, r):
        m, dr = I.gh.fields['made'], I.gh.fields['drawn']
        em('the named design is built on the given space', m is not None and m[0] == nm and (list(m[1]) + list(m[2].values()))[0] is I.sp)
        em('the requested number of points is drawn from it once', dr is not None and dr[0] == nm and zeq((list(dr[1]) + list(dr[2].values()))[0], a[2]))
        em('and returned', isinstance(r, ObjV) and r.fields.get('of') == nm)
    return post
INITIAL = [Contract(R + 'initial_design', s_initial(k), p_initial(k), name=R + 'initial_design (%s)' % k) for k in CLS]
INITIAL += [Contract(R + 'initial_design', s_initial('something else'), lambda I, em, a, r: em('an unknown name is rejected', False), raises=lambda I, em, a, e: em('rejected with an error', True), name=R + 'initial_design (unknown name)')]
DESIGNS = [LHS, SOB, GRID, ROOT] + MG + CTOR + INITIAL
# --- constraints of the space: K declared expressions, each an arbitrary real function of a row (or one that cannot be evaluated)
def s_ind(nd, bad):
    def f(I):
        D, n, K = integer(I, 'D', 1), integer(I, 'n', 1), integer(I, 'K', 1 if bad else 0); c = z3.Function('constraint!%d' % uid(), z3.IntSort(), Row, z3.RealSort()); w = integer(I, 'w', 0)
        x = vec(I, D, 'x') if nd == 1 else mat(I, n, D, 'x'); I.ic = (n if nd == 2 else 1, K, c, (lambda i: NP.rowfn(I, x)(i)) if nd == 2 else (lambda i: x.vec), snapshot_arr(I, x) if nd == 2 else None, x)
        if bad: I.assume(w < K)
        def descr(I2, i):
            def run(I3, v):
                if bad and I3.branch(ZI(i) == w): raise PyRaise('SyntaxError', ())
                if v is None: return None
                X = NP.as_arr(I3, v); r = NP.rowfn(I3, NP.atleast_2d(I3, X)); return mk(I3, (NP.atleast_2d(I3, X).shape[0],), lambda q: c(ZI(i), r(ZI(q))))
            o = Opaque('str'); o.sym = run
            d = stub(I2, 'constraint descriptor'); d.getitemf = lambda I3, s_, key: o if key == 'constraint' else Opaque('str'); d.substf = lambda I3, pairs: descr(I3, NP.subst_term(ZI(i), pairs)); return d
        cs = ListV.sym(I, K, lambda i: descr(I, i)); o = newobj(I, S, constraints=cs); return [o, x]
    return f
def holds(c, row, k): q = z3.Int('q!ic%d' % uid()); return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < ZI(k)), c(q, row) <= 0), patterns=[c(q, row)])
def hook_ind(I, view):
    n, K, c, row, X0, x = I.ic; out = []; from pyvc.npmodel import mentions_arith
    for l in view.arrs(2):
        i = z3.Int('i!ic')
        out.append(('%s: one entry per point' % l.name, lambda st, k, l=l: zand(zeq(st[l.key].shape[0], n), zeq(st[l.key].shape[1], 1))))
        def inv(st, k, l=l):
            t = Z(st[l.key].data(i, 0)); ok = z3.And(0 <= i, i < ZI(n))
            return z3.ForAll([i], z3.Implies(ok, z3.And(z3.Or(t == 1, t == 0), (t == 1) == holds(c, row(i), k))))
        out.append(('%s: one exactly where the constraints seen so far hold' % l.name, inv))
    return out
def p_ind(bad):
    def post(I, em, a, r):
        n, K, c, row, X0, x = I.ic; A = as_arr(I, r)
        if bad: return em('a constraint that cannot be evaluated raises an error', False)
        em('one entry per point', zand(A.ndim == 2, zeq(A.shape[0], n), zeq(A.shape[-1], 1)))
        if A.ndim == 2:
            with I.gen(n) as i:
                with I.hyp(True):
                    em('one where every constraint is at most zero', zimp(holds(c, row(i), K), zeq(A.data(i, 0), 1)))
                    em('zero where some constraint is positive', zimp(znot(holds(c, row(i), K)), zeq(A.data(i, 0), 0)))
        if X0 is not None: em.forall([n, X0.shape[1]], lambda i, j: zeq(x.data(i, j), X0.data(i, j)), 'the points are left alone')
    return post
IND = [Contract(S + '.indicator_constraints', s_ind(nd, bad), p_ind(bad), raises=(lambda I, em, a, e: em('raised', True)) if bad else None, name=S + '.indicator_constraints (%s%s)' % ('one point' if nd == 1 else 'points', ', one cannot be evaluated' if bad else ''),
                hooks={S + '.indicator_constraints': hook_ind}) for nd in (1, 2) for bad in (False, True)]
def s_noc(I): D, n = integer(I, 'D', 1), integer(I, 'n', 1); return [newobj(I, S, constraints=None), mat(I, n, D, 'x')]
def p_noc(I, em, a, r):
    A = as_arr(I, r); em('one entry per point', zand(A.ndim == 2, zeq(A.shape[0], a[1].shape[0]), zeq(A.shape[-1], 1))); em.forall([A.shape[0]], lambda i: zeq(A.data(i, 0), 1), 'every point is feasible without constraints')
IND += [Contract(S + '.indicator_constraints', s_noc, p_noc, name=S + '.indicator_constraints (none declared)')]
HASC = [Contract(S + '.has_constraints', (lambda I: [newobj(I, S, constraints=None)]), lambda I, em, a, r: em('no constraints declared', r is False), name=S + '.has_constraints (none)'),
        Contract(S + '.has_constraints', (lambda I: [newobj(I, S, constraints=ListV.sym(I, integer(I, 'K', 1), lambda i: stub(I, 'c')))]), lambda I, em, a, r: em('constraints declared', r is True), name=S + '.has_constraints (some)')]
CONSTR = IND + HASC
T1 = CONSTR
CONTRACTS = UNIF + SPACE + RANDOMS + DESIGNS
