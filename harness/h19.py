"""Parallel evaluation gives the same values in the same order."""
from util import *
import os
RULE = 'random batches (1 to 40 rows, now and then thousands), 1 to 6 cores, objectives that return arrays, floats or fail in a worker'
def case(rng, i, desc):
    import GPyOpt, copy, multiprocessing as mpx
    from GPyOpt.core.task.objective import SingleObjective
    from GPyOpt.core.evaluators import RandomBatch
    D = int(rng.randint(1, 5)); n = int(rng.randint(1, 41)) if i % 40 else 40000; k = int(rng.randint(2, 7)) if i % 40 else 2; w = rng.uniform(-1, 1, D); form = rng.randint(3)
    X = rng.randn(n, D); parent = os.getpid(); fail = [None, None, 'raise', 'exit', 'shape'][rng.randint(5)] if i % 40 else None; bad = int(rng.randint(n)); dup = rng.rand() < .2
    if dup: X = X[rng.randint(0, n, n)]
    desc.update(rows=n, cores=k, fail=fail, form=int(form), what='batch')
    def val(x): return float(np.sin(x.dot(w) * 3) + x[0])
    def f(x):
        check(np.asarray(x).shape == (1, D), 'the objective was called with shape %s' % (np.asarray(x).shape,))
        if os.getpid() != parent and fail and np.array_equal(x[0], X[bad]):
            if fail == 'raise': raise [ValueError, ZeroDivisionError, RuntimeError, FloatingPointError, KeyError, np.linalg.LinAlgError, MemoryError, AssertionError, KeyboardInterrupt, StopIteration][bad % 10]('worker')
            if fail == 'exit': os._exit(3)
            return 'nothing'
        v = val(x[0])
        return np.array([[v]]) if form == 0 else np.array([v]) if form == 1 else v
    want = np.array([[val(x)] for x in X]); keep = X.copy()
    procs = []; P = mpx.Process.start
    def start(self): procs.append(self); return P(self)
    kind = i % 3
    mpx.Process.start = start
    try:
        if kind < 2 or n > 100:
            ob = SingleObjective(f, k)
            if rng.rand() < .5:                          # another batch through the same objective first, perhaps with a failing worker
                desc['what'] = 'second batch'; g, c = ob.evaluate(X[rng.randint(0, n, int(rng.randint(1, 12)))] if n < 100 and rng.rand() < .5 else X[:200]); procs[:] = []
            g, c = ob.evaluate(X)
        else:
            desc['what'] = 'BayesianOptimization(num_cores)'
            bo = GPyOpt.methods.BayesianOptimization(f, domain=[{'name': 'x', 'type': 'continuous', 'domain': (-20, 20), 'dimensionality': D}], X=X.copy(), maximize=bool(rng.rand() < .5), num_cores=k, batch_size=k, evaluator_type='random', model=make_stub(rng, D))
            if bo.maximize: want = -want
            if rng.rand() < .5:
                procs[:] = []; g, c = bo.objective.evaluate(X)
            else:
                g, c = bo.Y, None
                if g is None: procs[:] = []; bo.run_optimization(0); g = bo.Y
    finally: mpx.Process.start = P
    check(np.asarray(g).shape == (n, 1), 'values of shape %s for %d rows' % (np.asarray(g).shape, n))
    check(np.array_equal(np.asarray(g, dtype=float), want), 'values %s instead of %s' % (np.ravel(g)[:6], want.ravel()[:6]))
    check(np.array_equal(X, keep), 'the batch was modified')
    started = len({id(p) for p in procs})
    check(started == k if n >= k else started <= k, '%d workers started for %d cores' % (started, k))
    if c is not None:
        check(np.size(c) == n, '%d costs for %d rows' % (np.size(c), n))
        if fail is None: check(np.all(np.ravel(c) == 1), 'costs of a parallel evaluation: %s' % np.ravel(c)[:5])
