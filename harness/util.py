"""Generators and independent oracles shared by the concrete drivers."""
import numpy as np, math
class Violation(Exception):
    def __init__(self, msg, key=None): Exception.__init__(self, msg); self.key = key
class Skip(Exception): pass
def check(cond, msg, key=None):
    if not cond: raise Violation(msg, key)
def close(a, b, tol=1e-8):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b)))

# ------------------------------------------------------------------------------------------------ search spaces
class SP(object):
    """a declared search space and what it means (computed from the declaration only)"""
    def __init__(self, cfg, constraints=None, feasible=None):
        self.cfg = cfg; self.constraints = constraints; self.feasible = feasible
        self.vars = []          # expanded: (kind, data, name)
        for i, d in enumerate(cfg):
            n = d.get('dimensionality'); nm = d.get('name', 'var_%d' % i); t = d.get('type', 'continuous')
            if t == 'bandit': self.vars.append((t, np.asarray(d['domain'], dtype=float), nm)); continue
            for k in range(n or 1): self.vars.append((t, d['domain'], nm if not n or n == 1 else nm + '_%d' % (k + 1)))
        self.bandit = any(v[0] == 'bandit' for v in self.vars)
        self.D = sum(v[1].shape[1] if v[0] == 'bandit' else 1 for v in self.vars)
        self.MD = sum(v[1].shape[1] if v[0] == 'bandit' else len(v[1]) if v[0] == 'categorical' else 1 for v in self.vars)
    def build(self):
        import copy
        from GPyOpt.core.task.space import Design_space
        return Design_space(copy.deepcopy(self.cfg), copy.deepcopy(self.constraints))
    def legal1(self, k, x):
        t, d, _ = self.vars[k]
        if t == 'continuous': return d[0] <= x <= d[1]
        return any(x == v for v in d)
    def why_illegal(self, row):
        """None when the row is legal, else a description"""
        row = np.asarray(row, dtype=float)
        if row.ndim != 1 or row.shape[0] != self.D: return 'has shape %s instead of (%d,)' % (row.shape, self.D)
        if not np.all(np.isfinite(row)): return 'is not finite'
        c = 0
        for k, (t, d, nm) in enumerate(self.vars):
            w = d.shape[1] if t == 'bandit' else 1
            if t == 'bandit':
                if not any(np.array_equal(row[c:c + w], a) for a in d): return '%s is not a declared arm: %s' % (nm, row[c:c + w])
            elif not self.legal1(k, row[c]): return '%s = %r is not legal for %s %s' % (nm, row[c], t, tuple(d))
            c += w
        return None
    def legal(self, X, what='point'):
        X = np.asarray(X)
        check(X.ndim == 2, '%s: not a matrix: shape %s' % (what, X.shape))
        for i, r in enumerate(X):
            w = self.why_illegal(r)
            check(w is None, '%s %d %s: %s' % (what, i, r.tolist(), w))
    def encode(self, row):
        out = []; c = 0
        for t, d, nm in self.vars:
            if t == 'bandit': out += list(row[c:c + d.shape[1]]); c += d.shape[1]; continue
            if t == 'categorical': out += [1.0 if j == int(row[c]) else 0.0 for j in range(len(d))]
            else: out.append(float(row[c]))
            c += 1
        return np.array(out)
    def encode_all(self, X): return np.array([self.encode(r) for r in X])
    def sample(self, rng, n, edge=.1):
        """legal points, values deliberately at the boundary now and then"""
        out = []
        for _ in range(n):
            r = []
            for t, d, nm in self.vars:
                if t == 'continuous': r.append(float(d[0]) if rng.rand() < edge else float(d[1]) if rng.rand() < edge else float(d[0] + (d[1] - d[0]) * rng.rand()))
                elif t == 'bandit': r += list(d[rng.randint(len(d))])
                else: r.append(float(d[rng.randint(len(d))]))
            out.append(r)
        return np.array(out, dtype=float).reshape(n, self.D)
    def blocks(self):
        """(variable index, first model column, width)"""
        o = []; c = 0
        for k, (t, d, nm) in enumerate(self.vars):
            w = d.shape[1] if t == 'bandit' else len(d) if t == 'categorical' else 1
            o.append((k, c, w)); c += w
        return o

def gen_var(rng, i, kinds):
    t = kinds[rng.randint(len(kinds))]; d = {'name': 'v%d' % i, 'type': t}
    if rng.rand() < .1 and t == 'continuous': del d['type']
    if t == 'continuous':
        lo = float(np.round(rng.uniform(-5, 5), 2)); d['domain'] = (lo, lo + float(np.round(rng.uniform(.1, 8), 2)))
        if rng.rand() < .15: d['domain'] = (0, 1)
    elif t == 'discrete':
        m = rng.randint(1, 6); vals = [float(v) for v in rng.choice(np.arange(-8, 9), m, replace=False)]
        if rng.rand() < .12: vals = [float(v) for v in rng.choice(np.arange(-90, 90), rng.randint(6, 40), replace=False)]
        if rng.rand() < .5: vals = sorted(vals)
        if rng.rand() < .3: vals = [v / 4. for v in vals]
        if rng.rand() < .3: vals = [int(v * 4) for v in vals]
        d['domain'] = tuple(vals)
    else: d['domain'] = tuple(range(rng.randint(2, 5)))
    if rng.rand() < .25: d['dimensionality'] = int(rng.randint(1, 4))
    return d
def gen_bandit(rng, several=True):
    out = []
    for k in range(2 if several and rng.rand() < .3 else 1):
        w = rng.randint(1, 4); m = rng.randint(1, 6)
        arms = [tuple(float(x) for x in rng.randint(-3, 4, w)) for _ in range(m)]
        arms = list(dict.fromkeys(arms))
        out.append({'name': 'b%d' % k, 'type': 'bandit', 'domain': arms if rng.rand() < .5 else np.array(arms)})
    return out
ALLK = ['continuous', 'discrete', 'categorical']
def gen_space(rng, bandit=.15, kinds=ALLK, maxvars=4, constrained=0., minvars=1):
    if rng.rand() < bandit: return SP(gen_bandit(rng))
    cfg = [gen_var(rng, i, kinds) for i in range(rng.randint(minvars, maxvars + 1))]
    sp = SP(cfg)
    if rng.rand() < constrained:
        cont = [k for k, v in enumerate(sp.vars) if v[0] == 'continuous']
        if cont:
            cons = []; fs = []
            k = cont[rng.randint(len(cont))]; lo, hi = sp.vars[k][1]; mid = lo + (hi - lo) * rng.uniform(.2, .8)
            cons.append({'name': 'c1', 'constraint': 'x[:,%d] - %r' % (k, mid)}); fs.append(lambda X, k=k, mid=mid: X[:, k] - mid)
            if rng.rand() < .5:
                k2 = cont[rng.randint(len(cont))]; lo, hi = sp.vars[k2][1]; m2 = lo + (hi - lo) * rng.uniform(.05, .3)
                if k2 != k or m2 < mid - .1 * (hi - lo):
                    cons.append({'name': 'c2', 'constrain' if rng.rand() < .3 else 'constraint': '%r - x[:,%d]' % (m2, k2)}); fs.append(lambda X, k=k2, m=m2: m - X[:, k])
            sp = SP(cfg, cons, lambda X: np.all([f(X) <= 0 for f in fs], axis=0))
    return sp
def describe(sp): return {'space': [{k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()} for d in sp.cfg], 'constraints': sp.constraints}

# ------------------------------------------------------------------------------------------------ a deterministic surrogate
def make_stub(rng, MD, mcmc=0):
    from GPyOpt.models.base import BOModel
    class Inner(object):
        def __init__(self, o): self.o = o; self.input_dim = MD; self.X = None; self.Y = None
        def predict(self, X, full_cov=False, include_likelihood=True):
            m, s, _, _ = self.o.raw(np.atleast_2d(X)); return m, s ** 2
        def predictive_gradients(self, X):
            m, s, dm, ds = self.o.raw(np.atleast_2d(X)); return dm[:, :, None], 2 * s * ds
    class Stub(BOModel):
        analytical_gradient_prediction = True
        def __init__(self):
            self.W = rng.uniform(-2, 2, (3, MD)); self.b = rng.uniform(0, 6, 3); self.a = rng.uniform(.2, 1., 3)
            self.V = rng.uniform(-1, 1, MD); self.updates = []; self.model = Inner(self); self.shift = 0.
        def raw(self, X):
            X = np.asarray(X, dtype=float)
            T = X.dot(self.W.T) + self.b
            m = (np.sin(T) * self.a).sum(1)[:, None] + self.shift; dm = (np.cos(T) * self.a).dot(self.W)
            z = X.dot(self.V)[:, None]; s = .4 + .3 * np.sin(z); ds = .3 * np.cos(z) * self.V[None, :]
            return m, s, dm, ds
        def updateModel(self, X_all, Y_all, X_new, Y_new):
            self.updates.append((np.array(X_all, copy=True), np.array(Y_all, copy=True))); self.model.X = np.array(X_all, copy=True); self.model.Y = np.array(Y_all, copy=True)
            self.shift = 0.
        def predict(self, X, with_noise=True):
            m, s, _, _ = self.raw(np.atleast_2d(X)); return m, s
        def predict_withGradients(self, X): return self.raw(np.atleast_2d(X))
        def get_fmin(self): return -.5 if self.model.X is None else self.raw(self.model.X)[0].min()
        def get_model_parameters(self): return np.atleast_2d(np.r_[self.a, len(self.updates)])
        def get_model_parameters_names(self): return ['a0', 'a1', 'a2', 'n']
        def copy(self): return self
    class StubMC(Stub):
        MCMC_sampler = True
        def each(self, X):
            out = []
            for k in range(mcmc):
                self.shift = .37 * k; out.append(self.raw(np.atleast_2d(X))); self.shift = 0.
            return out
        def predict(self, X): r = self.each(X); return [t[0] for t in r], [t[1] for t in r]
        def predict_withGradients(self, X): r = self.each(X); return tuple([t[j] for t in r] for j in range(4))
        def get_fmin(self): return [-.5 + .05 * k for k in range(mcmc)] if self.model.X is None else [self.raw(self.model.X)[0].min() + .37 * k for k in range(mcmc)]
    return StubMC() if mcmc else Stub()

class LocalSearch(object):
    """stand-in for scipy's L-BFGS: arbitrary answers of the right shape (mode), every call recorded"""
    def __init__(self, rng, mode='wild'):
        self.rng = rng; self.mode = mode; self.calls = []
    def __call__(self, func, x0, fprime=None, args=(), approx_grad=0, bounds=None, **kw):
        if bounds is None: return self.old(func, x0, fprime=fprime, args=args, approx_grad=approx_grad, bounds=bounds, **kw)    # GPy's own hyper-parameter search
        x0 = np.asarray(x0, dtype=float).flatten(); rec = {'x0': x0.copy(), 'bounds': None if bounds is None else list(bounds), 'func': func, 'approx': bool(approx_grad)}
        self.calls.append(rec); r = self.rng; mode = self.mode
        if mode == 'mixed': mode = ['wild', 'stay', 'abnormal', 'inside', 'step'][r.randint(5)]
        lo = np.array([b[0] for b in bounds], dtype=float); hi = np.array([b[1] for b in bounds], dtype=float)
        task = 'CONVERGENCE: REL_REDUCTION_OF_F_<=_FACTR*EPSMCH'
        if mode == 'stay': x = x0.copy()
        elif mode == 'abnormal': x = np.full_like(x0, np.nan) if r.rand() < .5 else lo + (hi - lo) * r.rand(len(x0)); task = 'ABNORMAL_TERMINATION_IN_LNSRCH'
        elif mode == 'inside': x = lo + (hi - lo) * r.rand(len(x0))
        elif mode == 'step': x = np.clip(x0 + .05 * (hi - lo) * r.randn(len(x0)), lo, hi)
        elif r.rand() < .3: x = np.where(r.rand(len(x0)) < .5, lo - (hi - lo) * 10. ** r.uniform(-12, -4), hi + (hi - lo) * 10. ** r.uniform(-12, -4))    # outside by very little
        else: x = lo + (hi - lo) * r.uniform(-.5, 1.5, len(x0))
        rec['task'] = task; rec['x'] = x
        try: fx = func(x if np.all(np.isfinite(x)) else x0)
        except Exception: raise
        rec['value'] = fx
        if isinstance(fx, tuple): fx = fx[0]
        return x, float(np.asarray(fx).flatten()[0]), {'task': task if r.rand() < .7 else task.encode(), 'warnflag': 0, 'grad': None, 'funcalls': 1, 'nit': 1}
    def __enter__(self):
        import scipy.optimize as so, sys
        self.old = so.fmin_l_bfgs_b; so.fmin_l_bfgs_b = self; self.mods = []
        # also where the name was imported directly
        for nm, m in list(sys.modules.items()):
            if nm.startswith('GPyOpt') and getattr(m, 'fmin_l_bfgs_b', None) is self.old: setattr(m, 'fmin_l_bfgs_b', self); self.mods.append(m)
        return self
    def __exit__(self, *a):
        import scipy.optimize as so
        so.fmin_l_bfgs_b = self.old
        for m in self.mods: m.fmin_l_bfgs_b = self.old

class Objective(object):
    """deterministic objective that records every row it is called on"""
    def __init__(self, D, rng=None, shape=2, f=None):
        self.calls = []; self.D = D; self.shape = shape; self.w = None if rng is None else rng.uniform(-1, 1, D); self.f = f
    def value(self, row):
        row = np.asarray(row, dtype=float)
        if self.f is not None: return self.f(row)
        return float(np.sin(row.dot(self.w)) + .1 * (row ** 2).sum())
    def __call__(self, x):
        x = np.asarray(x)
        check(x.ndim == 2 and x.shape[0] == 1, 'the objective was called with shape %s' % (x.shape,))
        self.calls.append(x[0].copy())
        v = self.value(x[0])
        return np.array([[v]]) if self.shape == 2 else v

def build(rng, sp, evaluator='sequential', batch=1, acq='EI', dedup=False, X=None, Y=None, objective=None, model=None, update_interval=1, normalize=True, cost=None, optimizer='lbfgs', jitter=.01, weight=2., transform='none', **okw):
    """a Bayesian optimizer from components"""
    import GPyOpt
    from GPyOpt.optimization import AcquisitionOptimizer
    from GPyOpt.core.task.objective import SingleObjective
    from GPyOpt.core.task.cost import CostModel
    from GPyOpt.methods import ModularBayesianOptimization
    from GPyOpt.core.evaluators import Sequential, RandomBatch, ThompsonBatch, LocalPenalization
    from GPyOpt.acquisitions import AcquisitionEI, AcquisitionMPI, AcquisitionLCB, AcquisitionLP
    space = sp.build()
    if model is None:
        model = make_stub(rng, sp.MD)
        if rng.rand() < .15: model.analytical_gradient_prediction = False    # the search then works from values alone
    cm = cost if isinstance(cost, CostModel) else CostModel(cost)
    opt = AcquisitionOptimizer(space, optimizer, model=model, **okw)
    A = {'EI': lambda: AcquisitionEI(model, space, opt, cm.cost_withGradients, jitter), 'MPI': lambda: AcquisitionMPI(model, space, opt, cm.cost_withGradients, jitter), 'LCB': lambda: AcquisitionLCB(model, space, opt, None, weight)}[acq]()
    if evaluator == 'sequential': ev = Sequential(A)
    elif evaluator == 'random': ev = RandomBatch(A, batch)
    elif evaluator == 'thompson_sampling': ev = ThompsonBatch(A, batch)
    else: A = AcquisitionLP(model, space, opt, A, transform); ev = LocalPenalization(A, batch)
    obj = None if objective is None else SingleObjective(objective)
    bo = ModularBayesianOptimization(model, space, obj, A, ev, X, Y_init=Y, cost=cm, normalize_Y=normalize, model_update_interval=update_interval, de_duplication=dedup)
    bo.gp = model; bo.acq_ = A; bo.opt_ = opt; bo.sp = sp
    return bo

_cache = {}
def small_samples(n=60):
    """fewer candidates per search, so that many searches fit in the time: patches only the default sample counts of the generators"""
    from GPyOpt.optimization import anchor_points_generator as A
    for nm in ('ObjectiveAnchorPointsGenerator', 'ThompsonSamplingAnchorPointsGenerator', 'RandomAnchorPointsGenerator'):
        c = getattr(A, nm, None)
        if c is None: continue
        f = c.__init__
        d = f.__defaults__
        if d and isinstance(d[-1], int) and d[-1] >= 500:
            _cache.setdefault(nm, d); f.__defaults__ = d[:-1] + (n,)
def full_samples():
    from GPyOpt.optimization import anchor_points_generator as A
    for nm, d in _cache.items(): getattr(A, nm).__init__.__defaults__ = d
def feasible_start(sp, rng, n):
    X = sp.sample(rng, n)
    return X
def fd_grad(f, x, h=1e-6):
    g = np.zeros(len(x))
    for j in range(len(x)):
        a = x.copy(); b = x.copy(); a[j] += h; b[j] -= h
        g[j] = (f(a) - f(b)) / (2 * h)
    return g
def distinct_rows(X): return len({tuple(r) for r in np.asarray(X).tolist()}) == len(X)
