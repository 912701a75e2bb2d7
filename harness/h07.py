"""Optimum and convergence trace."""
from util import *
RULE = 'random outputs with ties and repeated inputs, runs of several lengths; reported optimum and trace against the recorded data'
SECONDS = 15
def newbo():
    from GPyOpt.core.bo import BO
    return BO.__new__(BO)
def case(rng, i, desc):
    from GPyOpt.util.general import best_value
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    n = rng.randint(1, 30) if rng.rand() < .9 else rng.randint(30, 400); Y = rng.randn(n, 1) * 10 ** rng.randint(-3, 4) + rng.choice([0, 0, 50, -50])
    if rng.rand() < .4: Y = np.round(Y)
    if rng.rand() < .15: Y = np.sort(Y, axis=0)                          # the first evaluation is the best one
    if rng.rand() < .3: Y = Y.flat[0] + 10. ** rng.randint(-14, -3) * rng.randint(-3, 4, Y.shape)      # almost equal outputs
    desc.update(Y=Y.ravel().tolist(), what='best_value')
    t = best_value(Y.copy()); check(np.array_equal(np.asarray(t).ravel(), np.minimum.accumulate(Y.ravel())), 'convergence trace %s' % np.asarray(t).tolist())
    t = best_value(Y.copy(), -1); check(np.array_equal(np.asarray(t).ravel(), np.maximum.accumulate(Y.ravel())), 'maximum trace %s' % np.asarray(t).tolist())
    bo = newbo(); bo.X = rng.randint(0, 3, (n, 2)).astype(float); bo.Y = Y.copy(); Xc = bo.X.copy(); bo._compute_results()
    m = Y.min(); desc['what'] = 'results'
    check(bo.fx_opt == m, 'reported optimum %r, smallest output %r' % (bo.fx_opt, m))
    check(any(np.array_equal(Xc[k], np.asarray(bo.x_opt).ravel()) for k in range(n) if Y[k, 0] == m), 'reported location %s does not attain the minimum' % bo.x_opt)
    check(np.array_equal(bo.Y, Y) and np.array_equal(bo.X, Xc), 'the records changed')
    if rng.rand() < .8: return
    sp = gen_space(rng); small_samples(30); X0 = sp.sample(rng, n)
    w = rng.uniform(-1, 1, sp.D); f = Objective(sp.D, f=lambda r: float(np.round(r.dot(w), int(rng.randint(0, 3)) if False else 1)))
    desc.update(describe(sp), what='run')
    with LocalSearch(rng, 'mixed'):
        try:
            bo = build(rng, sp, ['sequential', 'random'][rng.randint(2)], int(rng.randint(1, 3)), X=X0.copy(), Y=Y.copy() if rng.rand() < .7 else None, objective=f)
            if rng.rand() < .4:                          # the surrogate fails numerically at some update
                up, cnt = bo.gp.updateModel, [0]; at = int(rng.randint(0, 5)); desc['surrogate_fails_at_update'] = at
                def fails(*a):
                    cnt[0] += 1
                    if cnt[0] - 1 == at: raise np.linalg.LinAlgError('not positive definite')
                    return up(*a)
                bo.gp.updateModel = fails
            for it in (rng.randint(0, 3), rng.randint(0, 3)):
                bo.run_optimization(it, eps=-1, verbosity=bool(rng.rand() < .3))
                y = bo.Y.ravel(); m = y.min()
                check(bo.fx_opt == m, 'reported optimum %r, smallest output %r' % (bo.fx_opt, m))
                check(any(np.array_equal(bo.X[k], np.asarray(bo.x_opt).ravel()) for k in range(len(y)) if y[k] == m), 'reported location %s does not attain the minimum' % bo.x_opt)
                check(np.array_equal(np.asarray(bo.Y_best).ravel(), np.minimum.accumulate(y)), 'convergence trace')
        except FullyExploredOptimizationDomainError: raise Skip()
