"""Surrogate predictions."""
from util import *
import warnings
RULE = 'real Gaussian-process surrogates on random data (plain, sparse, noiseless, custom kernel, mean function, sampled hyper-parameters): predictions, gradients, incumbent, copies and restoration of parameters against the underlying GPy regression'
SECONDS = 30; MIN = 12
def case(rng, i, desc):
    import GPy, GPyOpt
    from GPyOpt.models import GPModel, GPModel_MCMC
    d = int(rng.randint(1, 4)); n = int(rng.randint(3, 12)); X = rng.uniform(-2, 2, (n, d)); Y = np.sin(X.sum(1))[:, None] + .1 * rng.randn(n, 1)
    Q = np.vstack([rng.uniform(-3, 3, (int(rng.randint(1, 5)), d)), X[:1]])
    desc.update(d=d, n=n)
    if i == 6:
        desc['what'] = 'incumbent over many training inputs'; n = 1300; X = np.linspace(0, 1, n)[:, None]; desc['n'] = n
        for s in (1, -1, 1, -1):
            M = GPModel(sparse=True, num_inducing=5, max_iters=0, verbose=False); M.updateModel(X, s * X, None, None); m = M.model.predict(X)[0]
            check(abs(float(M.get_fmin()) - m.min()) <= 1e-9, 'the incumbent %r is not the smallest mean %r over the training inputs' % (M.get_fmin(), m.min()))
        return
    mcmc = i % 4 == 3
    if mcmc:
        desc['what'] = 'sampled hyper-parameters'; exact = bool(rng.rand() < .4)
        kern = None if rng.rand() < .6 else GPy.kern.Matern32(d)
        ns = int(rng.randint(2, 5)); desc.update(exact=exact, samples=ns)
        M = GPModel_MCMC(kernel=kern, exact_feval=exact, n_samples=ns, n_burnin=4, subsample_interval=2, step_size=.05, leapfrog_steps=3); M.updateModel(X, Y, None, None)
        check(len(M.hmc_samples) == ns, '%d samples instead of %d' % (len(M.hmc_samples), ns))
        # arbitrary (distinct) samples
        hs = np.array(M.hmc_samples) * np.exp(.3 * rng.randn(*np.shape(M.hmc_samples))); M.hmc_samples = hs
        p0 = M.model.param_array.copy(); pred0 = [a.copy() for a in M.model.predict(Q)]
        res = []
        for call in (lambda: M.predict(Q.copy()), M.get_fmin, lambda: M.predict_withGradients(Q.copy())):
            res.append(call()); check(np.array_equal(M.model.param_array, p0), 'predicting changed the parameters'); pred1 = M.model.predict(Q); check(close(pred0[0], pred1[0]) and close(pred0[1], pred1[1]), 'predicting changed the predictions of the regression')
        (ms, ss), f, g = res
        check(len(ms) == ns and len(ss) == ns and len(f) == ns and all(len(t) == ns for t in g), 'one result per sample')
        for k in range(ns):
            if M.model._fixes_ is None: M.model[:] = hs[k]
            else: M.model[M.model._fixes_] = hs[k]
            M.model._trigger_params_changed()
            m, v = M.model.predict(Q); v = np.maximum(v, 1e-10)
            check(close(ms[k], m) and close(ss[k], np.sqrt(v)), 'sample %d: mean/sdev are not those of the regression with these parameters' % k); check(close(g[0][k], m) and close(g[1][k], np.sqrt(v)), 'sample %d: values with gradients' % k)
            dm, dv = M.model.predictive_gradients(Q); check(close(g[2][k], dm[:, :, 0]) and close(g[3][k], dv / (2 * np.sqrt(v))), 'sample %d: gradients' % k)
            check(abs(f[k] - M.model.predict(X)[0].min()) < 1e-8, 'sample %d: incumbent' % k)
        M.model.param_array[:] = p0; M.model._trigger_params_changed()
        desc['what'] = 'copy of the sampled surrogate'
        C = M.copy(); check(C is not M and C.model is not M.model, 'copy shares the regression')
        for a in ('noise_var', 'exact_feval', 'n_samples', 'subsample_interval', 'n_burnin', 'step_size', 'leapfrog_steps', 'verbose'): check(getattr(C, a) == getattr(M, a), 'copy has another %s' % a)
        check(np.array_equal(C.model.X, M.model.X) and np.array_equal(C.model.Y, M.model.Y), 'copy has other data'); check(type(C.model.kern) is type(M.model.kern), 'copy has another kernel')
        C.updateModel(X[:2], Y[:2] + 1, None, None); check(np.array_equal(np.asarray(M.model.X), X), 'updating the copy changed the original')
        return
    sparse = bool(rng.rand() < .25); exact = bool(rng.rand() < .3); ard = bool(rng.rand() < .3); mf = None
    if rng.rand() < .2 and not sparse:
        mf = GPy.mappings.Constant(d, 1, value=.3)
    kern = None if rng.rand() < .6 else GPy.kern.RBF(d)
    nv = None if rng.rand() < .6 else .05; its = int(rng.choice([0, 5, 30]))
    desc.update(sparse=sparse, exact=exact, ARD=ard, mean=mf is not None, kernel=kern is not None, noise=nv, what='predictions')
    M = GPModel(kernel=kern, noise_var=nv, exact_feval=exact, max_iters=its, optimize_restarts=1, sparse=sparse, num_inducing=4, verbose=False, ARD=ard, mean_function=mf, optimizer='lbfgs')
    M.updateModel(X, Y, None, None); check(np.array_equal(np.asarray(M.model.X), X) and np.array_equal(np.asarray(M.model.Y), Y), 'training data of the surrogate')
    p0 = M.model.param_array.copy()
    for noise in (True, False):
        m, v = M.model.predict(Q, include_likelihood=noise); v = np.maximum(v, 1e-10); a, b = M.predict(Q.copy(), with_noise=noise)
        check(close(a, m) and close(b, np.sqrt(v)), 'mean/sdev (noise %s)' % noise); check(a.shape == (len(Q), 1) and b.shape == (len(Q), 1) and np.all(b > 0), 'one row per query, positive')
        cov = M.predict_covariance(Q.copy(), with_noise=noise); check(close(cov, np.maximum(M.model.predict(Q, full_cov=True, include_likelihood=noise)[1], 1e-10)), 'predictive covariance')
    a, b = M.predict(Q[0].copy()); m, v = M.model.predict(Q[:1]); check(close(a, m) and close(b, np.sqrt(np.maximum(v, 1e-10))), 'vector query')
    a, b, da, db = M.predict_withGradients(Q.copy()); m, v = M.model.predict(Q); v = np.maximum(v, 1e-10); check(close(a, m) and close(b, np.sqrt(v)), 'values with gradients')
    dm, dv = M.model.predictive_gradients(Q); check(close(da, dm[:, :, 0]) and close(db, dv / (2 * np.sqrt(v))), 'gradients')
    if its and not sparse and mf is None:
        q = Q[0]; fm = fd_grad(lambda z: float(M.predict(z[None, :])[0][0, 0]), q, 1e-5); fs = fd_grad(lambda z: float(M.predict(z[None, :])[1][0, 0]), q, 1e-5)
        if b[0, 0] > 1e-3: check(np.all(np.abs(fm - da[0]) < 1e-3 * (1 + np.abs(fm))) and np.all(np.abs(fs - db[0]) < 1e-2 * (1 + np.abs(fs))), 'derivatives by finite differences')
    check(abs(M.get_fmin() - M.model.predict(X)[0].min()) < 1e-10, 'incumbent')
    check(np.array_equal(M.model.param_array, p0), 'predicting changed the parameters')
    X2 = np.vstack([X, Q[:1]]); Y2 = np.vstack([Y, [[.5]]]); desc['what'] = 'copy'
    C = M.copy(); check(C is not M and C.model is not M.model, 'copy shares the regression')
    for at in ('noise_var', 'exact_feval', 'optimizer', 'max_iters', 'optimize_restarts', 'sparse', 'num_inducing', 'verbose', 'ARD'): check(getattr(C, at) == getattr(M, at), 'copy has another %s' % at)
    check((C.mean_function is None) == (M.mean_function is None), 'copy has another mean function'); check(type(C.model) is type(M.model), 'copy is a %s' % type(C.model)); check(type(C.model.kern) is type(M.model.kern) and C.model.kern is not M.model.kern, 'copy shares or changes the kernel')
    check(np.array_equal(np.asarray(C.model.X), X) and np.array_equal(np.asarray(C.model.Y), Y), 'copy has other data')
    if sparse: check(len(C.model.inducing_inputs) == len(M.model.inducing_inputs), 'inducing points')
    C.updateModel(X2, Y2, None, None); check(np.array_equal(np.asarray(M.model.X), X) and np.array_equal(M.model.param_array, p0), 'updating the copy changed the original')
    M.updateModel(X2, Y2, None, None); check(np.array_equal(np.asarray(M.model.X), X2) and np.array_equal(np.asarray(M.model.Y), Y2), 'update replaces the data')
