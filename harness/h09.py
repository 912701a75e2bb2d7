"""Acquisition values and gradients."""
from util import *
from scipy.stats import norm
RULE = 'random deterministic surrogates (plain and with several hyper-parameter samples), costs, constraints, jitters and query matrices; values against closed forms, gradients against the analytic derivative and finite differences'
SECONDS = 20
def closed(kind, m, s, fmin, par):
    if kind == 'LCB': return -m + par * s
    s = np.maximum(s, 1e-10); u = (fmin - m - par) / s
    return s * (u * norm.cdf(u) + norm.pdf(u)) if kind == 'EI' else norm.cdf(u)
def dclosed(kind, m, s, dm, ds, fmin, par):
    if kind == 'LCB': return -dm + par * ds
    u = (fmin - m - par) / s
    if kind == 'EI': return ds * norm.pdf(u) - norm.cdf(u) * dm
    return -norm.pdf(u) / s * (dm + u * ds)
def case(rng, i, desc):
    import GPyOpt
    from GPyOpt.acquisitions import AcquisitionEI, AcquisitionMPI, AcquisitionLCB, AcquisitionEI_MCMC, AcquisitionMPI_MCMC, AcquisitionLCB_MCMC
    from GPyOpt.optimization import AcquisitionOptimizer
    sp = gen_space(rng, bandit=.1, constrained=.35); space = sp.build()
    mc = int(rng.randint(1, 5)) if rng.rand() < .4 else 0; kind = ['EI', 'MPI', 'LCB'][rng.randint(3)]
    par = [0., .01, float(rng.uniform(0, 1))][rng.randint(3)] if kind != 'LCB' else float(rng.uniform(0, 4))
    if kind == 'EI' and mc and rng.rand() < .8: par = 0.
    model = make_stub(rng, sp.MD, mc); model.model.X = rng.uniform(-2, 2, (4, sp.MD))
    if rng.rand() < .25:                                                  # outputs on a small scale
        sc = 10. ** rng.uniform(-5, 0); orw, ofm = model.raw, model.get_fmin; par *= sc if kind != 'LCB' else 1; desc['scale'] = sc
        model.raw = lambda X: tuple(sc * t for t in orw(X)); model.get_fmin = lambda: [t.min() * 1. for t in [m[0] for m in model.each(model.model.X)]] if mc else model.raw(model.model.X)[0].min()
    v = rng.uniform(-1, 1, sp.MD); cost = None
    if rng.rand() < .5: cost = lambda x: (np.exp(.3 * np.sin(x.dot(v)))[:, None] + .5, (np.exp(.3 * np.sin(x.dot(v))) * .3 * np.cos(x.dot(v)))[:, None] * v[None, :])
    cls = {('EI', 0): AcquisitionEI, ('MPI', 0): AcquisitionMPI, ('LCB', 0): AcquisitionLCB, ('EI', 1): AcquisitionEI_MCMC, ('MPI', 1): AcquisitionMPI_MCMC, ('LCB', 1): AcquisitionLCB_MCMC}[(kind, 1 if mc else 0)]
    desc.update(describe(sp), kind=kind, samples=mc, par=par, cost=cost is not None, what='%s%s value' % (kind, '_MCMC' if mc else ''))
    A = cls(model, space, None, cost, par)
    n = rng.randint(1, 5); X = sp.encode_all(sp.sample(rng, n))
    ms = [model.raw(X)] if not mc else model.each(X); fm = [model.get_fmin()] if not mc else model.get_fmin()
    if rng.rand() < .15 and kind != 'LCB':
        # degenerate standard deviations
        class Flat(object): pass
        tiny = float(rng.choice([0., 1e-12])); om, op = model.predict, model.predict_withGradients
        z = lambda s: s * 0 + tiny
        if mc: model.predict = lambda X: (om(X)[0], [z(s) for s in om(X)[1]])
        else: model.predict = lambda X: (om(X)[0], z(om(X)[1]))
        want = np.mean([closed(kind, m, s * 0 + tiny, f, par) for (m, s, _, _), f in zip(ms, fm)], axis=0)
        raw = A._compute_acq(X.copy()); check(close(np.asarray(raw), want) if not (mc and kind == 'EI' and par) else True, 'degenerate variance: %s instead of %s' % (np.asarray(raw).ravel(), want.ravel())); return
    want = np.mean([closed(kind, m, s, f, par) for (m, s, _, _), f in zip(ms, fm)], axis=0)
    raw = np.asarray(A._compute_acq(X.copy()))
    key = 'ei_mcmc_value_jitter' if kind == 'EI' and mc and par != 0 else None
    if key:
        # the recorded finding: exactly this formula, anything else is a different violation
        pinned = np.mean([(f - m + par) * norm.cdf((f - m - par) / s) + s * norm.pdf((f - m - par) / s) for (m, s, _, _), f in zip(ms, fm)], axis=0)
        check(close(raw, pinned), 'integrated EI is neither the formula nor the recorded deviation')
    check(close(raw, want), 'value %s, closed form %s' % (raw.ravel(), want.ravel()), key)
    raw2, g = A._compute_acq_withGradients(X.copy()); check(close(raw2, want), 'value with gradient %s, closed form %s' % (np.ravel(raw2), want.ravel()), key)
    wg = np.mean([dclosed(kind, *(t + (f, par))) for t, f in zip(ms, fm)], axis=0)
    check(close(g, wg), 'gradient %s, derivative %s' % (np.asarray(g).tolist(), wg.tolist()))
    ind = np.ones((n, 1)) if sp.feasible is None else sp.feasible(np.array([x for x in decode(sp, X)])).astype(float)[:, None]
    c, dc = (np.ones((n, 1)), np.zeros(X.shape)) if cost is None or kind == 'LCB' else cost(X)
    V = A.acquisition_function(X.copy()); desc['what'] = 'weighted value'
    check(close(V, -want * ind / c), 'acquisition %s, expected %s' % (np.ravel(V), (-want * ind / c).ravel()), key)
    V2, G2 = A.acquisition_function_withGradients(X.copy())
    check(close(V2, -want * ind / c), 'acquisition with gradient: value %s, expected %s' % (np.ravel(V2), (-want * ind / c).ravel()), key)
    check(close(G2, -(wg * c - want * dc) / c ** 2 * ind), 'weighted gradient', key)
    if sp.feasible is None and not key:
        x = X[0]; fg = fd_grad(lambda z: float(np.ravel(A.acquisition_function(z[None, :]))[0]), x)
        check(np.all(np.abs(fg - G2[0]) <= 1e-5 * (1 + np.abs(fg))), 'finite differences %s, gradient %s' % (fg, G2[0]))
def decode(sp, X):
    for r in X:
        o = []
        for k, c, w in sp.blocks():
            o += [float(np.argmax(r[c:c + w]))] if sp.vars[k][0] == 'categorical' else list(r[c:c + w])
        yield o
