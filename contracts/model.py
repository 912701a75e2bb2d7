"""Contracts of the Gaussian-process surrogates (GPyOpt/models/gpmodel.py) on top of GPy's regression.

GPy is external: a regression holds data, a kernel and a vector of parameters; what it predicts at a row is an uninterpreted function of the parameters in
force (those at the last trigger) and the row.  Assigning through the model's index triggers; writing to its parameter array does not (paramz)."""
from .lib import *
from .bo import snapshot_arr
G = 'GPyOpt.models.gpmodel.'; FLOOR = Fraction(1, 10 ** 10)
I_, R_ = z3.IntSort(), z3.RealSort()
def is_all(key): return isinstance(key, SliceV) and key.lo is None and key.hi is None and key.step is None
class GP(object):
    """an arbitrary regression with n training points of dimension d and p parameters"""
    def __init__(self, I, fixes=False):
        F = lambda nm, *s: z3.Function('%s!%d' % (nm, uid()), *(list(s) + [R_])); self.I = I
        n, d, p = self.n, self.d, self.p = integer(I, 'n', 1), integer(I, 'd', 1), integer(I, 'p', 1)
        self.MEAN, self.VAR, self.COV = F('gpmean', Row, Row), F('gpvar', Row, Row, z3.BoolSort()), F('gpcov', Row, Row, Row, z3.BoolSort())
        self.DM, self.DV = F('gpdmean', Row, Row, I_), F('gpdvar', Row, Row, I_)
        self.X, self.Y = mat(I, n, d, 'X'), column(I, n, 'Y'); P = I.fresh('theta', 'Row'); self.P0 = mk(I, (p,), lambda j: el(P, ZI(j)), vec=P)
        pa = self.pa = mk(I, (p,), lambda j: el(P, ZI(j)), vec=P)
        self.SETF = z3.Function('setfree!%d' % uid(), Row, Row); self.fixes = None
        o = self.obj = stub(I, 'GP regression', X=self.X, Y=self.Y, param_array=pa, theta=mk(I, (p,), lambda j: el(P, ZI(j)), vec=P), _fixes_=None, kern=stub(I, 'kernel'), sets=0)
        if fixes:
            m = self.mask = I.fresh('free', 'Bool', ['Int']); pos = self.pos = I.fresh('pos', 'Int', ['Int']); o.fields['_fixes_'] = self.fixes = mk(I, (p,), lambda j: m(ZI(j)), dtype='bool')
            j = z3.Int('j!fix'); r = z3.Const('r!fix', Row)
            I.raw_fact([r, j], z3.Implies(z3.And(0 <= j, j < ZI(p)), el(self.SETF(r), j) == z3.If(m(j), el(r, pos(j)), el(P, j))), [el(self.SETF(r), j)])
        def theta(I2): return NP.vecterm(I2, o.fields['theta'])
        def trig(I2): o.fields['theta'] = NP.copy_arr(I2, o.fields['param_array'])
        def setitem(I2, _, key, v):
            V = as_arr(I2, v); rs = NP.vecterm(I2, V); q = o.fields['param_array']
            if is_all(key):
                I2.prove(zeq(V.shape[0], p), 'a value for every parameter') if not fixes else I2.prove(False, 'only the parameters that are not fixed are set')
                q.set(V.data); q.vec = rs
            else:
                I2.prove(self.fixes is not None and key is self.fixes, 'exactly the parameters that are not fixed are set'); d0 = q.data
                with I2.gen(p) as j_:
                    with I2.hyp(True): I2.prove(zimp(znot(m(ZI(j_))), zeq(d0(j_), el(P, ZI(j_)))), 'the fixed parameters have their original values')
                t = self.SETF(rs); q.set(lambda j_: el(t, ZI(j_))); q.vec = t
            trig(I2)
        o.setitemf = setitem; o.getitemf = lambda I2, _, key: NP.getitem(I2, o.fields['param_array'], key)
        def predict(I2, Xnew, full_cov=False, Y_metadata=None, kern=None, likelihood=None, include_likelihood=True):
            if not (kern is None and likelihood is None and Y_metadata is None): raise Unsupported('predict with other arguments')
            A_ = as_arr(I2, Xnew); I2.prove(zand(A_.ndim == 2, zeq(A_.shape[-1], d)), 'queries are rows of the input dimension'); r = NP.rowfn(I2, A_); t = theta(I2); b = z3.BoolVal(include_likelihood) if isinstance(include_likelihood, bool) else include_likelihood
            k = A_.shape[0]
            if full_cov is not False and full_cov is not True: raise Unsupported('full_cov')
            v = mk(I2, (k, k), lambda i, j: self.COV(t, r(ZI(i)), r(ZI(j)), b)) if full_cov else mk(I2, (k, 1), lambda i, j: self.VAR(t, r(ZI(i)), b))
            return (mk(I2, (k, 1), lambda i, j: self.MEAN(t, r(ZI(i)))), v)
        def grads(I2, Xnew):
            A_ = as_arr(I2, Xnew); I2.prove(zand(A_.ndim == 2, zeq(A_.shape[-1], d)), 'queries are rows of the input dimension'); r = NP.rowfn(I2, A_); t = theta(I2); k = A_.shape[0]
            return (mk(I2, (k, d, 1), lambda i, j, q: self.DM(t, r(ZI(i)), ZI(j))), mk(I2, (k, d), lambda i, j: self.DV(t, r(ZI(i)), ZI(j))))
        o.fields.update(predict=native('predict', predict), predictive_gradients=native('predictive_gradients', grads), _trigger_params_changed=native('_trigger_params_changed', trig))
    def undisturbed(self, I, em):
        f = self.obj.fields; em('the same regression', f['param_array'] is self.pa and f['X'] is self.X and f['Y'] is self.Y)
        A_, T = as_arr(I, f['param_array']), as_arr(I, f['theta'])
        em.forall([self.p], lambda j: zeq(A_.data(j), self.P0.data(j)), 'predicting leaves the parameters as they were')
        em.forall([self.p], lambda j: zeq(T.data(j), self.P0.data(j)), 'the parameters in force are those again')
def sdev(I, v): return NP.s_sqrt(I, zite(zlt(v, FLOOR), FLOOR, v))
def query(I, g, nd):
    if nd == 1: q = vec(I, g.d, 'x'); return q, 1, (lambda i: q.vec)
    q = mat(I, integer(I, 'k', 1), g.d, 'x'); return q, q.shape[0], NP.rowfn(I, q)
# --- GPModel
def s_gp(meth, nd):
    def f(I):
        g = I.gpx = GP(I); o = newobj(I, G + 'GPModel', model=g.obj, hmc_samples=None)
        if meth == 'get_fmin': return [o]
        q, k, r = query(I, g, nd); I.gpq = (q, k, r, snapshot_arr(I, q) if nd == 2 else None)
        if meth in ('predict', 'predict_covariance'): w = I.gpw = I.fresh('with_noise', 'Bool'); return [o, q, w]
        return [o, q]
    return f
def em_col(I, em, A_, k, f, name): A_ = as_arr(I, A_); em(name + ': one row per query', zand(A_.ndim == 2, zeq(A_.shape[0], k), zeq(A_.shape[-1], 1))); em.forall([k], lambda i: zeq(A_.data(i, 0), f(i)), name)
def em_wide(I, em, A_, k, d, f, name): A_ = as_arr(I, A_); em(name + ': one row per query', zand(A_.ndim == 2, zeq(A_.shape[0], k), zeq(A_.shape[-1], d))); em.forall([k, d], lambda i, j: zeq(A_.data(i, j), f(i, j)), name)
def em_min(I, em, v, n, f, name):
    with I.gen(n) as i:
        with I.hyp(True): em(name + ': none is smaller', zle(v, f(i)))
    em(name + ': it is one of them', exists(I, 'Int', lambda i: zand(0 <= i, i < ZI(n), zeq(v, f(i)))))
def p_gp(meth):
    def post(I, em, a, res):
        g = I.gpx; t = g.P0.vec
        if meth == 'get_fmin':
            r = NP.rowfn(I, g.X); em_min(I, em, NP.scalar_of(res), g.n, lambda i: g.MEAN(t, r(ZI(i))), 'the smallest posterior mean over the training inputs')
        else:
            q, k, r, _ = I.gpq
            if meth == 'predict':
                em('mean and deviation', isinstance(res, tuple) and len(res) == 2)
                em_col(I, em, res[0], k, lambda i: g.MEAN(t, r(ZI(i))), 'the mean of the regression'); em_col(I, em, res[1], k, lambda i: sdev(I, g.VAR(t, r(ZI(i)), I.gpw)), 'the root of its floored variance')
                em.forall([k], lambda i: zlt(0, as_arr(I, res[1]).data(i, 0)), 'the deviation is positive')
            elif meth == 'predict_covariance':
                C = as_arr(I, res); em('one entry per pair of queries', zand(C.ndim == 2, zeq(C.shape[0], k), zeq(C.shape[-1], k)))
                em.forall([k, k], lambda i, j: (lambda c: zeq(C.data(i, j), zite(zlt(c, FLOOR), FLOOR, c)))(g.COV(t, r(ZI(i)), r(ZI(j)), I.gpw)), 'the floored covariance of the regression')
            else:
                em('four results', isinstance(res, tuple) and len(res) == 4); em_grad(I, em, g, t, r, k, res)
        g.undisturbed(I, em)
    return post
def em_grad(I, em, g, t, r, k, res):
    TT = z3.BoolVal(True)
    em_col(I, em, res[0], k, lambda i: g.MEAN(t, r(ZI(i))), 'the mean of the regression'); em_col(I, em, res[1], k, lambda i: sdev(I, g.VAR(t, r(ZI(i)), TT)), 'the root of its floored variance')
    em_wide(I, em, res[2], k, g.d, lambda i, j: g.DM(t, r(ZI(i)), ZI(j)), 'the gradient of the mean')
    A_ = as_arr(I, res[3]); em('the gradient of the deviation: one row per query', zand(A_.ndim == 2, zeq(A_.shape[0], k), zeq(A_.shape[-1], g.d)))
    em.forall([k, g.d], lambda i, j: zimp(zle(FLOOR, g.VAR(t, r(ZI(i)), TT)), zeq(zmul(A_.data(i, j), zmul(2, NP.s_sqrt(I, g.VAR(t, r(ZI(i)), TT)))), g.DV(t, r(ZI(i)), ZI(j)))), 'the gradient of the deviation (chain rule of the root, where the floor is inactive)')
GPM = [Contract(G + 'GPModel.' + m, s_gp(m, nd), p_gp(m), name=G + 'GPModel.%s%s' % (m, '' if m == 'get_fmin' else ' (%s)' % ('points' if nd == 2 else 'one point'))) for m in ('predict', 'predict_covariance', 'predict_withGradients', 'get_fmin') for nd in ((2,) if m == 'get_fmin' else (2, 1))]
# --- GPModel_MCMC
def s_mc(meth, nd, fixes):
    def f(I):
        g = I.gpx = GP(I, fixes); g.K = integer(I, 'K', 1); g.S = mat(I, g.K, g.p if not fixes else integer(I, 'free', 1), 'samples')
        o = newobj(I, G + 'GPModel_MCMC', model=g.obj, hmc_samples=g.S)
        if meth == 'get_fmin': return [o]
        q, k, r = query(I, g, nd); I.gpq = (q, k, r, None); return [o, q]
    return f
def hook_mc(I, view):
    g = I.gpx
    if g.fixes is None: return []
    out = []
    for l in view.arrs(1):
        def inv(st, k, l=l):
            j = z3.Int('j!hk'); return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ZI(g.p), z3.Not(g.mask(j))), Z(zeq(st[l.key].data(j), el(g.P0.vec, j)))))
        out.append(('fixed parameters keep their values (%s)' % l.name, inv))
    return out
def p_mc(meth):
    def post(I, em, a, res):
        g = I.gpx; K = g.K; R = NP.rowfn(I, g.S); th = (lambda k: R(ZI(k))) if g.fixes is None else (lambda k: g.SETF(R(ZI(k)))); TT = z3.BoolVal(True)
        lists = (res,) if meth == 'get_fmin' else res
        if meth != 'get_fmin': em('one list per quantity', isinstance(res, tuple) and len(res) == {'predict': 2, 'predict_withGradients': 4}[meth])
        for l in lists: em('one result per sample', zeq(seqlen(l), K))
        with I.gen(K) as s:
            with I.hyp(True):
                if meth == 'get_fmin':
                    r = NP.rowfn(I, g.X); em_min(I, em, NP.scalar_of(item(I, res, s)), g.n, lambda i: g.MEAN(th(s), r(ZI(i))), 'the smallest posterior mean over the training inputs for this sample')
                else:
                    q, k, r, _ = I.gpq; t = th(s); it = [item(I, l, s) for l in res]
                    if meth == 'predict': em_col(I, em, it[0], k, lambda i: g.MEAN(t, r(ZI(i))), 'the mean of the regression with this sample'); em_col(I, em, it[1], k, lambda i: sdev(I, g.VAR(t, r(ZI(i)), TT)), 'the root of its floored variance')
                    else: em_grad(I, em, g, t, r, k, it)
        g.undisturbed(I, em)
    return post
MCM = [Contract(G + 'GPModel_MCMC.' + m, s_mc(m, nd, fx), p_mc(m), hooks={G + 'GPModel_MCMC.' + m: hook_mc}, name=G + 'GPModel_MCMC.%s (%s%s)' % (m, '' if m == 'get_fmin' else 'points, ' if nd == 2 else 'one point, ', 'a fixed parameter' if fx else 'no fixed parameter'))
       for m in ('predict', 'predict_withGradients', 'get_fmin') for nd in ((2,) if m == 'get_fmin' else (2, 1)) for fx in (False, True)]
# --- construction, update and copy
WNAMES = {'output warped': ['X', 'Y', 'kernel', 'warping_function', 'warping_terms', 'normalizer'], 'input warped': ['X', 'Y', 'kernel', 'normalizer', 'warping_function', 'warping_indices', 'Xmin', 'Xmax', 'epsilon']}
MATERN, RBF = 'GPy.kern.Matern52', 'GPy.kern.RBF'
class World(object):
    """GPy's constructors, recording what they are given"""
    def __init__(self, I):
        w = self.w = stub(I, 'ghost', regs=[], kerns=[], noise=[], opts=[], sets=[], hmc=[])
        def kern(which):
            def f(I2, a, k):
                b = dict(zip(['input_dim', 'variance', 'lengthscale', 'ARD'], a)); b.update(k); o = stub(I2, 'kernel', set_prior=native('set_prior', lambda I3, *x: None)); w.fields['kerns'] = w.fields['kerns'] + [(which, b, o)]; return o
            return f
        for nm in ('Matern52', 'Matern32', 'RBF', 'ExpQuad'): I.natives['GPy.kern.' + nm] = kern(nm)
        def reg(which):
            def f(I2, a, k):
                names = WNAMES[which] if which in WNAMES else ['X', 'Y', 'kernel', 'Y_metadata', 'normalizer', 'noise_var', 'mean_function'] if which == 'plain' else ['X', 'Y', 'kernel', 'Z', 'num_inducing', 'X_variance', 'mean_function', 'normalizer', 'mpi_comm', 'name']
                b = dict(zip(names, a)); b.update(k); o = stub(I2, 'GP regression'); n = len(w.fields['regs'])
                rec = lambda nm: native(nm, lambda I3, *x, **kw: w.fields.update(noise=w.fields['noise'] + [(n, nm, x)]))
                o.fields.update(X=b['X'], Y=b['Y'], kern=b.get('kernel'), Gaussian_noise=stub(I2, 'noise', constrain_fixed=rec('fixed'), constrain_bounded=rec('bounded'), constrain_positive=rec('positive')),
                    likelihood=stub(I2, 'likelihood', variance=stub(I2, 'variance', set_prior=native('set_prior', lambda I3, *x: None))),
                    optimize=native('optimize', lambda I3, **kw: w.fields.update(opts=w.fields['opts'] + [(n, 'once', kw)])), optimize_restarts=native('optimize_restarts', lambda I3, **kw: w.fields.update(opts=w.fields['opts'] + [(n, 'restarts', kw)])))
                def setxy(I3, X=None, Y=None): w.fields['sets'] = w.fields['sets'] + [(n, X, Y)]; o.fields.update(X=X, Y=Y)
                o.fields['set_XY'] = native('set_XY', setxy); pa = vec(I2, integer(I2, 'p', 1), 'theta'); o.fields['param_array'] = pa
                w.fields['regs'] = w.fields['regs'] + [(which, b, o)]; return o
            return f
        I.natives['GPy.models.GPRegression'] = reg('plain'); I.natives['GPy.models.SparseGPRegression'] = reg('sparse')
        I.natives['GPy.models.WarpedGP'] = reg('output warped'); I.natives['GPy.models.InputWarpedGP'] = reg('input warped')
        I.natives['GPy.priors.Gamma.from_EV'] = lambda I2, a, k: stub(I2, 'prior')
    def __getattr__(self, k): return self.__dict__['w'].fields[k]
GPF = ('noise_var', 'exact_feval', 'optimizer', 'max_iters', 'optimize_restarts', 'sparse', 'num_inducing', 'verbose', 'ARD')
MCF = ('noise_var', 'exact_feval', 'n_samples', 'n_burnin', 'subsample_interval', 'step_size', 'leapfrog_steps', 'verbose')
def settings(I, names, **fix):
    out = {}
    for nm in names:
        if nm in fix: out[nm] = fix[nm]
        elif nm in ('max_iters', 'optimize_restarts', 'num_inducing'): out[nm] = integer(I, nm, 0)
        elif nm in ('n_samples', 'subsample_interval', 'leapfrog_steps'): out[nm] = integer(I, nm, 1)
        elif nm == 'n_burnin': out[nm] = integer(I, nm, 0)
        elif nm in ('noise_var', 'step_size'): out[nm] = real(I, nm)
        elif nm == 'optimizer': out[nm] = 'lbfgs'
        else: out[nm] = I.fresh(nm, 'Bool')
    return out
def same(a, b):
    if a is b: return True
    if is_sym(a) or is_sym(b): return Z(a) == Z(b)
    return a == b
def s_new(mc, kern, nv, sparse, exact):
    def f(I):
        w = I.mw = World(I); w.n, w.d = integer(I, 'n', 1), integer(I, 'd', 1); w.X, w.Y = mat(I, w.n, w.d, 'X'), column(I, w.n, 'Y'); fix = dict(exact_feval=exact, noise_var=real(I, 'noise_var') if nv else None)
        if not mc: fix['sparse'] = sparse
        w.set = settings(I, MCF if mc else GPF, **fix); w.kern = stub(I, 'kernel', set_prior=native('set_prior', lambda I3, *x: None)) if kern else None; w.mf = stub(I, 'mean function')
        extra = {} if mc else dict(mean_function=w.mf)
        return [newobj(I, G + ('GPModel_MCMC' if mc else 'GPModel'), kernel=w.kern, model=None, **dict(w.set, **extra)), w.X, w.Y]
    return f
def p_new(mc, kern, nv, sparse, exact):
    def post(I, em, a, r):
        w = I.mw; em('one regression', len(w.regs) == 1 and a[0].fields['model'] is w.regs[0][2]); which, b, o = w.regs[0]
        em('sparse exactly when asked for', which == ('sparse' if sparse else 'plain'))
        same_arr(I, b['X'], w.X, 'the inputs given', em); same_arr(I, b['Y'], w.Y, 'the outputs given', em)
        if kern: em('the kernel given', b.get('kernel') is w.kern)
        else:
            em('the default kernel', len(w.kerns) == 1 and b.get('kernel') is w.kerns[0][2] and w.kerns[0][0] == ('RBF' if mc else 'Matern52'))
            em('over the input dimension', zeq(w.kerns[0][1]['input_dim'], w.d))
            if not mc: em('with the relevance determination asked for', same(w.kerns[0][1].get('ARD', False), w.set['ARD']))
        if not sparse and nv: em('the noise variance given', zeq(b['noise_var'], w.set['noise_var']))
        if sparse: em('the number of inducing points asked for', zeq(b['num_inducing'], w.set['num_inducing']))
        if not mc: em('the mean function given', b.get('mean_function') is w.mf)
        em('noise: fixed and small exactly for exact evaluations', len(w.noise) == 1 and w.noise[0][1] == ('fixed' if exact else 'positive' if mc else 'bounded'))
        if exact: em('the small value', zeq(w.noise[0][2][0], Fraction(1, 10 ** 6)))
    return post
NEW = [Contract(G + ('GPModel_MCMC' if mc else 'GPModel') + '._create_model', s_new(mc, k, nv, sp, ex), p_new(mc, k, nv, sp, ex), name=G + '%s._create_model (%s)' % ('GPModel_MCMC' if mc else 'GPModel', ', '.join([('own kernel' if k else 'default kernel'), ('noise given' if nv else 'noise estimated')] + (['sparse'] if sp else []) + (['exact'] if ex else []))))
       for mc in (False, True) for k in (False, True) for nv in (False, True) for sp in ((False,) if mc else (False, True)) for ex in (False, True)]
def s_upm(first, mc):
    def f(I):
        w = I.mw = World(I); w.n, w.d = integer(I, 'n', 1), integer(I, 'd', 1); w.X, w.Y = mat(I, w.n, w.d, 'X'), column(I, w.n, 'Y'); w.set = settings(I, MCF if mc else GPF); w.made = stub(I, 'ghost', n=0)
        cls = G + ('GPModel_MCMC' if mc else 'GPModel'); old = None if first else I.natives['GPy.models.GPRegression'](I, [stub(I, 'old X'), stub(I, 'old Y')], {})
        o = newobj(I, cls, kernel=None, model=old, **w.set)
        def create(I2, b, fv):
            w.made.fields['n'] += 1; I2.prove(b['self'] is o, 'its own regression'); same_arr(I2, b['X'], w.X, 'created with all inputs'); same_arr(I2, b['Y'], w.Y, 'created with all outputs'); o.fields['model'] = I2.natives['GPy.models.GPRegression'](I2, [b['X'], b['Y']], {})
        I.contracts[cls + '._create_model'] = create
        if mc:
            P = w.P = integer(I, 'free', 1)
            def hmc(I2, a, k):
                b = dict(zip(['model', 'M', 'stepsize'], a)); b.update(k); I2.prove(b['model'] is o.fields['model'], 'samples of this regression'); I2.prove(zeq(b['stepsize'], w.set['step_size']), 'the step size given')
                def sample(I3, num_samples=1000, hmc_iters=20): I3.prove(zeq(hmc_iters, w.set['leapfrog_steps']), 'the leapfrog steps given'); S = mat(I3, num_samples, P, 'hmc'); w.w.fields['hmc'] = w.w.fields['hmc'] + [S]; return S
                return stub(I2, 'HMC', sample=native('sample', sample))
            I.natives['GPy.inference.mcmc.HMC'] = hmc
        return [o, w.X, w.Y, None, None]
    return f
def p_upm(first, mc):
    def post(I, em, a, r):
        w = I.mw; F = a[0].fields
        em('created exactly when there was no regression', w.made.fields['n'] == (1 if first else 0)); em('one regression', len(w.regs) == 1 and F['model'] is w.regs[0][2])
        same_arr(I, F['model'].fields['X'], w.X, 'its inputs are all inputs', em); same_arr(I, F['model'].fields['Y'], w.Y, 'its outputs are all outputs', em)
        if mc:
            em('one run of the sampler', len(w.hmc) == 1); S = as_arr(I, F['hmc_samples']); em('as many samples as asked for', zeq(S.shape[0], w.set['n_samples']))
            with I.gen(w.set['n_samples']) as k:
                with I.gen(w.P) as j:
                    with I.hyp(True): em('sample k is draw burnin + k interval', zeq(S.data(k, j), w.hmc[0].data(zadd(w.set['n_burnin'], zmul(k, w.set['subsample_interval'])), j)))
        else:
            ran = len(w.opts); em('hyper-parameters are fitted at most once', ran <= 1); em('exactly when iterations are allowed', zlt(0, w.set['max_iters']) if ran else zle(w.set['max_iters'], 0))
            if ran:
                n_, kind, kw = w.opts[0]; em('by the optimizer and within the iterations given', kw.get('optimizer') == w.set['optimizer'] and True); em('iterations', zeq(kw['max_iters'], w.set['max_iters']))
                em('restarts', zeq(kw['num_restarts'], w.set['optimize_restarts']) if kind == 'restarts' else zeq(w.set['optimize_restarts'], 1))
    return post
UPM = [Contract(G + ('GPModel_MCMC' if mc else 'GPModel') + '.updateModel', s_upm(f, mc), p_upm(f, mc), name=G + '%s.updateModel (%s)' % ('GPModel_MCMC' if mc else 'GPModel', 'first' if f else 'later')) for mc in (False, True) for f in (True, False)]
def s_copy(mc, mf):
    def f(I):
        w = I.mw = World(I); w.n, w.d = integer(I, 'n', 1), integer(I, 'd', 1); w.X, w.Y = mat(I, w.n, w.d, 'X'), column(I, w.n, 'Y'); w.set = settings(I, MCF if mc else GPF); cls = G + ('GPModel_MCMC' if mc else 'GPModel')
        w.kcopy, w.mcopy = stub(I, 'kernel copy'), stub(I, 'mean function copy'); w.kern = stub(I, 'kernel', copy=native('copy', lambda I2: w.kcopy)); w.mfn = stub(I, 'mean function', copy=native('copy', lambda I2: w.mcopy)) if mf else None
        w.reg = stub(I, 'GP regression', X=w.X, Y=w.Y, kern=w.kern)
        o = newobj(I, cls, kernel=None, model=w.reg, **dict(w.set, **({} if mc else dict(mean_function=w.mfn)))); log = w.log = stub(I, 'ghost', calls=[]); w.o = o; w.before = dict(o.fields)
        def create(I2, b, fv):
            log.fields['calls'] = log.fields['calls'] + [('create', b['self'], b['X'], b['Y'], b['self'].fields.get('kernel'))]; b['self'].fields['model'] = stub(I2, 'new regression', X=b['X'], Y=b['Y'])
        def upd(I2, b, fv): log.fields['calls'] = log.fields['calls'] + [('update', b['self'], b['X_all'], b['Y_all'], None)]
        I.contracts[cls + '._create_model'] = create; I.contracts[cls + '.updateModel'] = upd
        return [o]
    return f
def p_copy(mc, mf):
    def post(I, em, a, c):
        w = I.mw; calls = w.log.fields['calls']
        em('a new surrogate of the same class', isinstance(c, ObjV) and c is not w.o and c.cls is w.o.cls)
        for nm in (MCF if mc else GPF): em('same setting: %s' % nm, same(c.fields.get(nm), w.set[nm]))
        em('with a regression of its own', c.fields['model'] is not w.reg)
        em('created once', sum(k == 'create' for k, *_ in calls) == 1); em('creates and updates only itself', all(s_ is c for _, s_, *_ in calls))
        for k, s_, X, Y, _ in calls: same_arr(I, X, w.X, k + ' with the inputs of the original', em); same_arr(I, Y, w.Y, k + ' with the outputs of the original', em)
        em('with a copy of the fitted kernel', any(k == 'create' and kn is w.kcopy for k, _, _, _, kn in calls))
        if not mc: em('with a copy of the mean function', c.fields.get('mean_function') is (w.mcopy if mf else None))
        em('the original is left alone', all(w.o.fields.get(k) is v for k, v in w.before.items()))
    return post
CPY = [Contract(G + ('GPModel_MCMC' if mc else 'GPModel') + '.copy', s_copy(mc, mf), p_copy(mc, mf), name=G + '%s.copy%s' % ('GPModel_MCMC' if mc else 'GPModel', ' (mean function)' if mf else '')) for mc, mf in ((False, False), (False, True), (True, False))]
# --- the warped variant
WG = 'GPyOpt.models.warpedgpmodel.WarpedGPModel'
def s_wg(meth, nd):
    def f(I):
        g = I.gpx = GP(I); o = newobj(I, WG, model=g.obj)
        if meth == 'get_fmin': return [o]
        q, k, r = query(I, g, nd); I.gpq = (q, k, r, None); I.gpw = z3.BoolVal(True); return [o, q]
    return f
WGP = [Contract(WG + '.' + m, s_wg(m, nd), p_gp(m), name=WG + '.%s%s' % (m, '' if m == 'get_fmin' else ' (%s)' % ('points' if nd == 2 else 'one point'))) for m in ('predict', 'get_fmin') for nd in ((2,) if m == 'get_fmin' else (2, 1))]
IWG = 'GPyOpt.models.input_warped_gpmodel.InputWarpedGPModel'
def s_wnew(inp, kern, exact):
    def f(I):
        w = I.mw = World(I); w.n, w.d = integer(I, 'n', 1), integer(I, 'd', 1); w.X, w.Y = mat(I, w.n, w.d, 'X'), column(I, w.n, 'Y'); w.wf, w.terms, w.idx = stub(I, 'warping function'), integer(I, 'terms', 1), stub(I, 'warped columns'); w.ard = I.fresh('ARD', 'Bool')
        w.kern = stub(I, 'kernel', set_prior=native('set_prior', lambda I3, *x: None)) if kern else None
        return [newobj(I, IWG if inp else WG, kernel=w.kern, model=None, noise_var=None, exact_feval=exact, optimizer='bfgs', max_iters=integer(I, 'iters', 0), optimize_restarts=5, verbose=False, warping_function=w.wf, **(dict(warping_indices=w.idx, ARD=w.ard) if inp else dict(warping_terms=w.terms))), w.X, w.Y]
    return f
def p_wnew(inp, kern, exact):
    def post(I, em, a, r):
        w = I.mw; em('one regression', len(w.regs) == 1 and a[0].fields['model'] is w.regs[0][2]); which, b, o = w.regs[0]
        em('the warped regression', which == ('input warped' if inp else 'output warped')); same_arr(I, b['X'], w.X, 'the inputs given', em); same_arr(I, b['Y'], w.Y, 'the outputs given', em)
        if kern: em('the kernel given', b.get('kernel') is w.kern)
        else: em('the default kernel over the input dimension', len(w.kerns) == 1 and b.get('kernel') is w.kerns[0][2] and w.kerns[0][0] == ('Matern52' if inp else 'Matern32')); em('its dimension', zeq(w.kerns[0][1]['input_dim'], w.d))
        em('the warping function given', b.get('warping_function') is w.wf)
        if inp:
            em('the warped columns given', b.get('warping_indices') is w.idx)
            for nm, lt in (('Xmin', zle), ('Xmax', lambda u, v: zle(v, u))):
                B = as_arr(I, b[nm]); em('one bound per column', zand(B.ndim == 1, zeq(B.shape[0], w.d)))
                em.forall([w.n, w.d], lambda i, j: lt(B.data(j), w.X.data(i, j)), nm + ' bounds every input')
        else: em('the number of terms given', zeq(b.get('warping_terms'), w.terms))
        em('noise: fixed and small exactly for exact evaluations', len(w.noise) == 1 and w.noise[0][1] == ('fixed' if exact else 'bounded' if inp else 'positive'))
        if exact: em('the small value', zeq(w.noise[0][2][0], Fraction(1, 10 ** 6)))
    return post
WNEW = [Contract((IWG if i else WG) + '._create_model', s_wnew(i, k, e), p_wnew(i, k, e), name=(IWG if i else WG) + '._create_model (%s%s)' % ('own kernel' if k else 'default kernel', ', exact' if e else '')) for i in (False, True) for k in (False, True) for e in (False, True)]
def s_wup(first):
    def f(I):
        w = I.mw = World(I); w.n, w.d = integer(I, 'n', 1), integer(I, 'd', 1); w.X, w.Y = mat(I, w.n, w.d, 'X'), column(I, w.n, 'Y'); w.iters = integer(I, 'iters', 0); w.made = stub(I, 'ghost', n=0)
        old = None if first else I.natives['GPy.models.WarpedGP'](I, [stub(I, 'old X'), stub(I, 'old Y')], {}); o = newobj(I, WG, kernel=None, model=old, optimizer='bfgs', max_iters=w.iters, optimize_restarts=5, verbose=False)
        def create(I2, b, fv):
            w.made.fields['n'] += 1; I2.prove(b['self'] is o, 'its own regression'); same_arr(I2, b['X'], w.X, 'created with all inputs'); same_arr(I2, b['Y'], w.Y, 'created with all outputs'); o.fields['model'] = I2.natives['GPy.models.WarpedGP'](I2, [b['X'], b['Y']], {})
        I.contracts[WG + '._create_model'] = create; return [o, w.X, w.Y, None, None]
    return f
def p_wup(first):
    def post(I, em, a, r):
        w = I.mw; F = a[0].fields; em('created exactly when there was no regression', w.made.fields['n'] == (1 if first else 0)); em('one regression', len(w.regs) == 1 and F['model'] is w.regs[0][2])
        same_arr(I, F['model'].fields['X'], w.X, 'its inputs are all inputs', em); same_arr(I, F['model'].fields['Y'], w.Y, 'its outputs are all outputs', em)
        for n_, kind, kw in w.opts: em('by the optimizer given', kw.get('optimizer') == 'bfgs'); em('within the iterations given', zeq(kw['max_iters'], w.iters))
    return post
WUP = [Contract(WG + '.updateModel', s_wup(f), p_wup(f), name=WG + '.updateModel (%s)' % ('first' if f else 'later')) for f in (True, False)]
# --- what is recorded of a surrogate
def s_par(cls):
    def f(I):
        g = I.gpx = GP(I); return [newobj(I, G + cls, model=g.obj)]
    return f
def p_par(I, em, a, r):
    g = I.gpx; A_ = as_arr(I, r); em('one row with a column per parameter', zand(A_.ndim == 2, zeq(A_.shape[0], 1), zeq(A_.shape[-1], g.p)))
    em.forall([g.p], lambda j: zeq(A_.data(0, j), g.P0.data(j)), 'its parameters'); before = A_.data; g.obj.fields['param_array'].set(lambda *i: I.fresh('later', 'Real'))
    em.forall([g.p], lambda j: zeq(A_.data(0, j), g.P0.data(j)), 'later updates of the surrogate do not change what was recorded')
PAR = [Contract(G + c + '.get_model_parameters', s_par(c), p_par) for c in ('GPModel', 'GPModel_MCMC')]
CONTRACTS = GPM + MCM + NEW + UPM + CPY + WGP
