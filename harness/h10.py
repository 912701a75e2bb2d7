"""Local penalization."""
from util import *
from scipy.stats import norm
RULE = 'random surrogates, base acquisitions, transforms and batches; the searched function at every stage of a batch against an independent formula, gradients against its derivative'
SECONDS = 25
def case(rng, i, desc):
    from GPyOpt.acquisitions import AcquisitionEI, AcquisitionMPI, AcquisitionLCB, AcquisitionLP, AcquisitionLCB_MCMC, AcquisitionEI_MCMC
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    sp = gen_space(rng, bandit=.1); space = sp.build(); mc = int(rng.randint(1, 3)) if rng.rand() < .15 else 0
    model = make_stub(rng, sp.MD, mc); model.model.X = rng.uniform(-2, 2, (4, sp.MD)); model.model.Y = rng.randn(4, 1)
    kind = ['EI', 'MPI', 'LCB'][rng.randint(3)]; tr = ['none', 'softplus', 'Softplus'][rng.randint(3)]
    if mc: kind = ['EI', 'LCB'][rng.randint(2)]; base = {'EI': AcquisitionEI_MCMC, 'LCB': AcquisitionLCB_MCMC}[kind](model, space, None, None, 0. if kind == 'EI' else 2.)
    else: base = {'EI': AcquisitionEI, 'MPI': AcquisitionMPI, 'LCB': AcquisitionLCB}[kind](model, space, None, None, .01 if kind != 'LCB' else 2.)
    soft = tr.lower() == 'softplus' or kind == 'LCB'
    desc.update(describe(sp), kind=kind, transform=tr, samples=mc, what='penalised function')
    LP = AcquisitionLP(model, space, None, base, tr)
    def expected(x, Xb, L, Min):
        a = -np.ravel(base.acquisition_function(x))
        if soft: v = np.where(a >= 40, np.log(np.where(a >= 40, a, 1.)), np.log(np.log1p(np.exp(np.minimum(a, 40)))))
        else: v = np.log(a + 1e-50)
        v = -v
        if Xb is not None:
            m, s = pm.predict(Xb)
            r = (m.ravel() - Min) / L; q = np.sqrt(np.maximum(s.ravel(), 1e-16)) / L
            d = np.sqrt(((x[:, None, :] - Xb[None, :, :]) ** 2).sum(-1))
            v = v - norm.logcdf((d - r) / q).sum(1)
        return v
    pm = model
    if mc: mc_first(LP, desc, expected, rng, sp, base); return
    X = sp.encode_all(sp.sample(rng, 3)) + rng.uniform(-.1, .1, (3, sp.MD))
    LP.update_batches(None, None, None)
    check(close(LP.acquisition_function(X.copy()), expected(X, None, 1, 0)), 'unpenalised: %s instead of %s' % (LP.acquisition_function(X.copy()), expected(X, None, 1, 0)))
    nb = rng.randint(1, 4) if rng.rand() < .7 else rng.randint(4, 9); Xb = sp.encode_all(sp.sample(rng, nb)) + rng.uniform(-.3, .3, (nb, sp.MD)); L = float(rng.uniform(.2, 5)); Min = float(rng.uniform(-1.5, .5))
    desc.update(L=L, Min=Min, batch_points=Xb.tolist(), X=X.tolist())
    keep = Xb.copy(); LP.update_batches(Xb, L, Min)
    e = expected(X, keep, L, Min); g = LP.acquisition_function(X.copy())
    check(close(g, e, 1e-7), 'penalised value %s instead of %s' % (g, e))
    for stage in (0, 1):
        x = X[:1]; V, G = LP.acquisition_function_withGradients(x.copy()); b = keep if stage == 0 else None
        check(close(V, expected(x, b, L, Min), 1e-7), 'value with gradient')
        a = -np.ravel(base.acquisition_function(x)); G = np.asarray(G)
        check(G.shape == x.shape, 'gradient shape %s' % (G.shape,))
        z = 0.
        if b is not None:
            m, s = model.predict(b); d = np.sqrt(((x - b) ** 2).sum(1)); z = np.max(np.abs((d - (m.ravel() - Min) / L) / (np.sqrt(s.ravel()) / L)))
        if a[0] < 40 and (soft or a[0] > 1e-6) and z < 8 and (b is None or d.min() > 1e-3):
            fg = fd_grad(lambda t: float(expected(t[None, :], b, L, Min)[0]), x[0])
            check(np.all(np.abs(fg - G[0]) <= 2e-4 * (1 + np.abs(fg).max())), 'gradient %s, derivative %s' % (G[0], fg))
        LP.update_batches(None, None, None)
    # ---- a whole batch
    if rng.rand() < .75: return
    batch = int(rng.randint(1, 5) if rng.rand() < .7 else rng.randint(5, 9)); small_samples(12); desc.update(what='batch', batch=batch)
    X0 = sp.sample(rng, 4); stages = []
    with LocalSearch(rng, 'mixed'):
        bo = build(rng, sp, 'local_penalization', batch, kind, X=X0, Y=rng.randn(4, 1), objective=Objective(sp.D, rng), transform=tr, model=model); LP = bo.acquisition; base = LP.acq
        oo = LP.optimizer.optimize
        if LP.optimizer is not None:
            probe = sp.encode_all(sp.sample(rng, 3))
            def opt(f=None, **k):
                r = oo(f=f, **k); stages.append((np.ravel(f(probe.copy())).copy(), np.ravel(r[0]).copy())); return r
            LP.optimizer.optimize = opt
            Ls = []; ub = LP.update_batches
            def upd(Xb, L, Min):
                if L is not None: Ls.append(L)
                return ub(Xb, L, Min)
            LP.update_batches = upd
            for rep in range(2):
                del stages[:]; del Ls[:]; model.a = model.a * [1, 4][rep]        # the surrogate changes between the batches
                try: S = np.asarray(bo.suggest_next_locations())
                except FullyExploredOptimizationDomainError: raise Skip()
                check(S.shape == (batch, sp.D), 'batch shape %s' % (S.shape,)); check(len(stages) == batch, '%d searches for a batch of %d' % (len(stages), batch))
                check(close(stages[0][0], expected(probe, None, 1, 0)), 'the first point is searched with a penalty')
                check(np.array_equal(sp.encode_all(S), np.array([p for _, p in stages])), 'the batch is not the sequence of optima')
                # each further stage: base plus a nonnegative penalty that grows with every point
                for k in range(1, batch):
                    inc = stages[k][0] - stages[k - 1][0]
                    check(np.all(inc >= -1e-9), 'stage %d penalises less than stage %d' % (k, k - 1))
                if batch > 1 and Ls:
                    G = np.sqrt((np.asarray(model.model.predictive_gradients(model.model.X)[0])[:, :, 0] ** 2).sum(1)).max()
                    check(Ls[-1] >= G * (1 - 1e-6) or G < 1e-6, 'the scale %r is below the slope %r of the surrogate at a recorded input' % (Ls[-1], G))
                    # the Lipschitz constant is an estimate with a random start: use the value the evaluator passed on
                    pts = np.array([p for _, p in stages]); Minv = model.model.Y.min()
                    check(all(l == Ls[-1] and l > 0 for l in Ls[-(batch - 1):]), 'different Lipschitz constants within a batch: %s' % Ls)
                    for k in range(1, batch): check(close(stages[k][0], expected(probe, pts[:k], Ls[-1], Minv), 1e-6), 'stage %d does not penalise exactly the points already chosen' % k)
                check(close(LP.acquisition_function(probe.copy()), expected(probe, None, 1, 0)), 'a penalty remains after the batch')
def mc_first(LP, desc, expected, rng, sp, base):
    X = sp.encode_all(sp.sample(rng, 3)); LP.update_batches(None, None, None)
    check(close(LP.acquisition_function(X.copy()), expected(X, None, 1, 0)), 'unpenalised value with hyper-parameter samples')
