"""Contracts of entropy search (acquisitions/ES.py) and of the joint-minimum approximation (util/epmgp.py)."""
from .lib import *
from .acq import sum_apps, field_eq, factors, em_field
U, E_ = 'GPyOpt.util.epmgp.', 'GPyOpt.acquisitions.ES.AcquisitionEntropySearch'
ISINF, ISNEG, ISNAN = z3.Function('ISINF', z3.RealSort(), z3.BoolSort()), z3.Function('ISNEGINF', z3.RealSort(), z3.BoolSort()), z3.Function('ISNAN', z3.RealSort(), z3.BoolSort())
def expand(t):
    """exp(a + b) = exp(a) exp(b), exp(-a) = 1 / exp(a), exp(log x) = x; gives the term and the arguments of the logarithms that have to be positive"""
    pos = []
    def ex(a, sg):
        """product form of exp(sg a)"""
        d = a.decl().kind() if z3.is_app(a) else None
        if d == z3.Z3_OP_ADD: r = z3.RealVal(1); [r := r * ex(c, sg) for c in a.children()]; return r
        if d == z3.Z3_OP_SUB: c = a.children(); r = ex(c[0], sg); [r := r * ex(x, -sg) for x in c[1:]]; return r
        if d == z3.Z3_OP_UMINUS: return ex(a.arg(0), -sg)
        if d == z3.Z3_OP_MUL and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) and a.arg(0).as_fraction() == -1: return ex(a.arg(1), -sg)
        if z3.is_app(a) and a.decl().name() == 'LOG': pos.append(a.arg(0)); e = go(a.arg(0)); return e if sg > 0 else 1 / e
        if z3.is_rational_value(a) and a.as_fraction() == 0: return z3.RealVal(1)
        e = NP.EXP(a); return e if sg > 0 else 1 / e
    def go(x):
        if z3.is_app(x) and x.num_args():
            if x.decl().name() == 'EXP': return ex(x.arg(0), 1)
            if z3.is_arith(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS): return x.decl()(*[go(c) for c in x.children()])
        return x
    r = go(simp(ZR(t))); return r, pos
def normalised(I, em, n, F, name):
    """sum over i < n of exp(F(i)) is 1.  A sum S of n positive terms b(k) occurs in F with exp(F(i)) S = b(i); sums scale termwise"""
    if I.replaying() or I.silent: em(name, zeq(NP.ssum(I, n, lambda k: NP.s_exp(I, F(k))), 1)); return
    tab = {f.name(): (ks, holes, body) for f, ks, holes, body in I.sumtab.values()}
    with I.gen(n) as i:
        with I.hyp(True):
            t = simp(ZR(F(i)))
            for S in sum_apps(t):
                if not I.check(zeq(S.arg(0), n), 2000): continue
                ks, holes, b = tab[S.decl().name()]; body = lambda k: z3.substitute(b, (ks, ZI(k)), *zip(holes, S.children()[1:]))
                lhs, pos = expand(NP.EXP(t) * S); rhs, p2 = expand(body(i)); ok, ds = field_eq(I, lhs, rhs)
                if not ok: continue
                em(name + ': the terms of the normalising sum are positive', zlt(0, simp(rhs)) if not pos else zlt(0, body(i)))
                em(name + ': the normalising sum has a term', zle(1, n)); I.assume(S > 0)                 # a sum of at least one positive term is positive (Finset.sum_pos)
                for x in pos + p2: em(name + ': logarithms of positive numbers', zlt(0, x))
                for d in ds: em(name + ': denominators are nonzero', z3.Or(znot(zeq(d, 0))))
                em_field(I, em, lhs, rhs, name); return
    em(name, zeq(NP.ssum(I, n, lambda k: NP.s_exp(I, F(k))), 1))
def isfn(rel):
    def f(I, a, k):
        if not isinstance(a[0], Arr): return False                              # computed from finite numbers
        return NP.emap(I, lambda x: rel(ZR(x)), a[0], dtype='bool')
    return f
# --- joint_min: min_faktor is assumed to yield log Z_k (possibly minus infinity) and derivatives of the documented shapes
def s_joint(deriv):
    def f(I):
        D = integer(I, 'D', 1); w = I.es = stub(I, 'state'); w.D = D; w.lz, w.col = I.fresh('logZ', 'Real', ['Int']), I.fresh('asColumn', 'Bool', ['Int'])
        mu = rvec(I, D, 'mu'); var = mat(I, D, D, 'Sigma'); w.mu, w.var = mu, var
        I.natives['numpy.isinf'] = isfn(ISINF); I.assume(z3.Not(ISINF(z3.RealVal(-500))))
        def mf(I2, b, fv):
            same_arr(I2, b['Mu'], mu, 'each factor is computed from the given mean'); same_arr(I2, b['Sigma'], var, 'each factor is computed from the given covariance'); k = b['k']
            g = stub(I2, 'generator', pos=0)
            def nxt(I3):
                p = g.fields['pos']; g.fields['pos'] = p + 1; fr = lambda m: I3.fresh('deriv', 'Real', ['Int'] * m)
                if p == 0: return w.lz(ZI(k))
                if p == 2: h = fr(3); return mk(I3, (D, D), lambda i, j: h(ZI(k), ZI(i), ZI(j)))
                n = D if p == 1 else NP.b_int(I3, [zmul(Fraction(1, 2), zmul(D, zadd(D, 1)))], {}); h = fr(2)
                if p > 3: I3.prove(False, 'no more derivatives are taken than a factor yields')
                return mk(I3, (n, 1), lambda i, j: h(ZI(k), ZI(i))) if I3.branch(w.col(ZI(k))) else mk(I3, (n,), lambda i: h(ZI(k), ZI(i)))
            g.nextf = nxt; return g
        I.contracts[U + 'min_faktor'] = mf
        base = NP.np_minmax(-1, 'max')
        def mx(I2, a, k):
            A = as_arr(I2, a[0])
            if A.ndim == 1: I2.prove_forall([A.shape[0]], lambda i: znot(ISINF(ZR(A.data(i)))), 'the scale of the probabilities is taken over finite numbers')
            return base(I2, a, k)
        for q in ('numpy.max', 'numpy.amax'): I.natives[q] = mx
        return ([mu, var], {'with_derivatives': True}) if deriv else [mu, var]
    return f
def p_joint(deriv):
    def post(I, em, a, res):
        w = I.es; D = w.D
        if deriv: em('the belief and three derivatives', isinstance(res, tuple) and len(res) == 4); P, dM, dS, dMM = [as_arr(I, x) for x in res]
        else: P = as_arr(I, res)
        em('one log-probability per point', zand(P.ndim == 1, zeq(P.shape[0], D)))
        if deriv:
            T = NP.b_int(I, [zmul(Fraction(1, 2), zmul(D, zadd(D, 1)))], {})
            em('derivative with respect to the mean: point by point', zand(dM.ndim == 2, zeq(dM.shape[0], D), zeq(dM.shape[-1], D)))
            em('derivative with respect to the covariance: point by distinct entry', zand(dS.ndim == 2, zeq(dS.shape[0], D), zeq(dS.shape[-1], T)))
            em('second derivative with respect to the mean: point by point by point', zand(dMM.ndim == 3, *[zeq(s, D) for s in dMM.shape]))
        F = P.data; inf = lambda i: ISINF(w.lz(ZI(i)))
        em.forall([D, D], lambda i, j: zimp(zand(znot(inf(i)), znot(inf(j))), zeq(zsub(F(i), F(j)), zsub(w.lz(ZI(i)), w.lz(ZI(j))))), 'ratios of probabilities are those of the factors')
        normalised(I, em, D, F, 'the probabilities sum to one')
    return post
JOINT = [Contract(U + 'joint_min', s_joint(d), p_joint(d), name=U + 'joint_min (%s derivatives)' % ('with' if d else 'without')) for d in (False, True)]
# --- the belief: kept representer points, their logs and the probabilities belong together
def s_upd(mode):
    """mode: 'valid' log values (finite or minus infinity, at least one finite) or 'invalid' (one is not a number or plus infinity)"""
    def f(I):
        n, d = integer(I, 'n', 1), integer(I, 'd', 1); w = I.es = stub(I, 'state'); w.n, w.d = n, d
        w.X, w.L = mat(I, n, d, 'points'), column(I, n, 'logs'); w.prop = stub(I, 'proposal'); w.calls = {'sample': 0, 'joint': 0}
        w.log = w.L.data; lg = lambda i: w.log(i, 0); w.lg = lg
        bad = lambda i: zor(ISNAN(lg(i)), zand(ISINF(lg(i)), znot(ISNEG(lg(i)))))
        I.assume_forall([n], lambda i: zimp(ISNEG(lg(i)), zand(ISINF(lg(i)), znot(ISNAN(lg(i))))))
        for q, r in (('isinf', ISINF), ('isneginf', ISNEG), ('isnan', ISNAN), ('isposinf', lambda x: zand(ISINF(x), znot(ISNEG(x))))): I.natives['numpy.' + q] = isfn(r)
        k = I.fresh('one', 'Int'); I.assume(zand(zle(0, k), zlt(k, n)))
        if mode == 'valid': I.assume_forall([n], lambda i: znot(bad(i))); I.assume(znot(ISNEG(lg(k))))
        else: I.assume(bad(k))
        w.burn = integer(I, 'burn')
        def draw(I2, m, logp, burn_in_steps=50):
            I2.prove(zand(zeq(m, n), zeq(burn_in_steps, w.burn)), 'the asked number of samples and burn-in steps'); I2.prove(logp is w.prop, 'drawn from the proposal'); return (w.X, w.L)
        w.MU = z3.Function('mu!%d' % uid(), Row, z3.RealSort()); w.COV = z3.Function('cov!%d' % uid(), Row, Row, z3.RealSort())
        def pred(I2, X, with_noise=True): r = NP.rowfn(I2, X); return (mk(I2, (X.shape[0], 1), lambda i, j: w.MU(r(ZI(i)))), mk(I2, (X.shape[0], 1), lambda i, j: I2.fresh('v')))
        def cov(I2, X): r = NP.rowfn(I2, X); return mk(I2, (X.shape[0], X.shape[0]), lambda i, j: w.COV(r(ZI(i)), r(ZI(j))))
        def jm(I2, b, fv):
            mu, var = b['mu'], b['var']; m = mu.shape[0]; o.fields['joint'] = (mu, var, m); I2.prove(zeq(b['with_derivatives'], True), 'with derivatives'); I2.prove(zand(mu.ndim == 1, var.ndim == 2, zeq(var.shape[0], m), zeq(var.shape[-1], m)), 'a mean vector and a square covariance')
            T = NP.b_int(I2, [zmul(Fraction(1, 2), zmul(m, zadd(m, 1)))], {}); A = lambda *sh: (lambda h: mk(I2, sh, lambda *ix: h(*[ZI(q) for q in ix])))(I2.fresh('der', 'Real', ['Int'] * len(sh)))
            P = A(m); o.fields['belief'] = P; return (P, A(m, m), A(m, T), A(m, m, m))
        I.contracts[U + 'joint_min'] = jm
        o = newobj(I, E_, sampler=stub(I, 'sampler', get_samples=native('get_samples', draw)), model=stub(I, 'model', predict=native('predict', pred), predict_covariance=native('predict_covariance', cov)), num_repr_points=n, proposal_function=w.prop, burn_in_steps=w.burn, repr_points=None, repr_points_log=None, logP=None)
        return [o]
    return f
def p_upd(I, em, a, res):
    w = I.es; o = a[0]; f = o.fields; mu, var, m = f['joint']; P0 = f['belief']; X, L, P = f['repr_points'], f['repr_points_log'], f['logP']
    em('one row per representer point', zand(X.ndim == 2, zeq(X.shape[0], m), zeq(X.shape[-1], w.d)))
    em('one log value per representer point', zeq(L.shape[0], m)); em('one log-probability per representer point, as a column', zand(P.ndim == 2, zeq(P.shape[0], m), zeq(P.shape[-1], 1)))
    em.forall([m], lambda i: zeq(P.data(i, 0), P0.data(i)), 'the belief is the joint-minimum approximation')
    r, rx = NP.rowfn(I, w.X), NP.rowfn(I, X); lk = (lambda i: L.data(i, 0)) if L.ndim == 2 else L.data
    em.forall([m], lambda i: exists(I, 'Int', lambda k: zand(zle(0, k), zlt(k, w.n), zeq(rx(ZI(i)), r(k)), zeq(lk(i), w.lg(k)), znot(ISNEG(w.lg(k))))), 'a representer point is a sample of positive density, kept with its own log value')
    with I.gen(w.n) as k:
        I.assume(NP.MENTION(ZI(k)))
        with I.hyp(True): em('every sample of positive density is kept', zimp(znot(ISNEG(w.lg(k))), exists(I, 'Int', lambda i: zand(zle(0, i), zlt(i, ZI(m)), zeq(rx(i), r(ZI(k))), zeq(lk(i), w.lg(k))))))
    em.forall([m], lambda i: zeq(mu.data(i), w.MU(rx(ZI(i)))), 'the mean at the representer points')
    em.forall([m, m], lambda i, j: zeq(var.data(i, j), w.COV(rx(ZI(i)), rx(ZI(j)))), 'the covariance at the representer points')
    for nm, nd in (('dlogPdMu', 2), ('dlogPdSigma', 2), ('dlogPdMudMu', 3)): em('derivatives of the belief are kept (%s)' % nm, zand(f[nm].ndim == nd, zeq(f[nm].shape[0], m)))
UPD = [Contract(E_ + '._update_parameters', s_upd('valid'), p_upd, name=E_ + '._update_parameters'),
       Contract(E_ + '._update_parameters', s_upd('invalid'), lambda I, em, a, r: em('log values that are no numbers or infinite are rejected', False), name=E_ + '._update_parameters (invalid log values)', raises=lambda I, em, a, e: em('a RuntimeError', e.clsname == 'RuntimeError'))]
# --- the sampler hands on what the chain ended with: one row and one log value per walker
SM = 'GPyOpt.util.mcmc_sampler.AffineInvariantEnsembleSampler'
def s_smp(I):
    n, d = integer(I, 'n', 1), integer(I, 'd', 1); w = I.es = stub(I, 'state'); w.n, w.d = n, d; w.X, w.l, w.start, w.logp, w.burn = mat(I, n, d, 'ends'), rvec(I, n, 'ends log'), mat(I, n, d, 'starts'), stub(I, 'log density'), integer(I, 'burn')
    sp = stub(I, 'space', input_dim=native('input_dim', lambda I2: d))
    def des(I2, b, fv):
        I2.prove(b['space'] is sp, 'starts are drawn in the space'); I2.prove(zeq(b['init_points_count'], n), 'one start per sample'); return w.start
    I.contracts['GPyOpt.experiment_design.initial_design'] = des; I.contracts['GPyOpt.experiment_design.base.initial_design'] = des
    def ens(I2, a, k):
        I2.prove(zand(zeq(a[0], n), zeq(a[1], d)), 'one walker per sample, in the dimension of the space'); I2.prove(a[2] is w.logp, 'the chain samples the given density')
        def run(I3, p0, m, **kw): same_arr(I3, p0, w.start, 'the chain starts at the design'); I3.prove(zeq(m, w.burn), 'the asked number of steps'); return (w.X, w.l, stub(I3, 'state'))
        return stub(I2, 'chain', run_mcmc=native('run_mcmc', run))
    I.natives['emcee.EnsembleSampler'] = ens
    return [newobj(I, SM, space=sp), n, w.logp, w.burn]
def p_smp(I, em, a, res):
    w = I.es; em('samples and their log values', isinstance(res, tuple) and len(res) == 2); X, L = as_arr(I, res[0]), as_arr(I, res[1])
    em('one row per sample', zand(X.ndim == 2, zeq(X.shape[0], w.n), zeq(X.shape[-1], w.d))); em('one log value per sample', zeq(L.shape[0], w.n))
    em.forall([w.n, w.d], lambda i, j: zeq(X.data(i, j), w.X.data(i, j)), 'the positions of the walkers'); em.forall([w.n], lambda i: zeq(L.data(i, 0) if L.ndim == 2 else L.data(i), w.l.data(i)), 'their log values')
SAMPLER = [Contract(SM + '.get_samples', s_smp, p_smp)]
CONTRACTS = JOINT + UPD + SAMPLER
