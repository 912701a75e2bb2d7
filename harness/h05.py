"""The history is append-only and aligned with the objective."""
from util import *
RULE = 'random spaces, histories of runs/resumptions with all evaluators, maximisation, supplied inputs with or without outputs, update intervals; every row is compared with a recording objective'
SECONDS = 25
def case(rng, i, desc):
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    import GPyOpt, copy
    sp = gen_space(rng); ev = ['sequential', 'random', 'thompson_sampling', 'local_penalization'][rng.randint(4)]; batch = 1 if ev == 'sequential' else rng.randint(1, 4) if rng.rand() < .85 else rng.randint(4, 9)
    dedup = bool(rng.rand() < .2); shape = 2 if rng.rand() < .6 else 0
    desc.update(describe(sp), evaluator=ev, batch=int(batch), dedup=dedup)
    small_samples(8 * batch + 20)
    f = Objective(sp.D, rng, shape)
    def aligned(bo, sign, X0, Y0):
        X, Y = np.asarray(bo.X), np.asarray(bo.Y)
        check(X.ndim == 2 and Y.shape == (len(X), 1), 'shapes of the history: %s and %s' % (X.shape, Y.shape))
        n0 = 0 if X0 is None else len(X0)
        if X0 is not None: check(np.array_equal(X[:n0], X0), 'the supplied inputs changed or moved')
        if Y0 is not None: check(np.array_equal(Y[:n0], Y0), 'the supplied outputs changed')
        start = n0 if Y0 is not None else 0
        for r in range(start, len(X)): check(Y[r, 0] == sign * f.value(X[r]), 'output row %d is %r, the objective at that input is %r' % (r, Y[r, 0], sign * f.value(X[r])))
        want = [tuple(x) for x in X[start:].tolist()]; got = [tuple(c.tolist()) for c in f.calls]
        check(len(want) == len(got) and want == got, 'evaluations made (%d) differ from the recorded rows (%d)' % (len(got), len(want)))
    with LocalSearch(rng, ['mixed', 'inside', 'step'][rng.randint(3)]):
        try:
            if rng.rand() < .35:
                desc['what'] = 'BayesianOptimization'
                maxim = bool(rng.rand() < .5); mode = rng.randint(3); X0 = Y0 = None
                if mode: X0 = sp.sample(rng, rng.randint(1, 5))
                if mode == 2: Y0 = rng.randn(len(X0), 1)
                model = make_stub(rng, sp.MD); desc.update(maximize=maxim, supplied=['none', 'X', 'X and Y'][mode])
                if ev == 'local_penalization': ev = 'random'; desc['evaluator'] = ev
                interval = int(rng.randint(1, 4))
                bo = GPyOpt.methods.BayesianOptimization(f, domain=copy.deepcopy(sp.cfg), X=None if X0 is None else X0.copy(), Y=None if Y0 is None else Y0.copy(), initial_design_numdata=int(rng.randint(2, 6) if rng.rand() < .9 else rng.randint(6, 120)), maximize=maxim, model=model, evaluator_type=ev, batch_size=int(batch), de_duplication=dedup, model_update_interval=interval)
                sign = -1 if maxim else 1
            else:
                desc['what'] = 'modular'; sign = 1
                X0 = sp.sample(rng, rng.randint(1, 5)); Y0 = rng.randn(len(X0), 1) if rng.rand() < .5 else None
                bo = build(rng, sp, ev, batch, ['EI', 'LCB', 'MPI'][rng.randint(3)], dedup, X=X0.copy(), Y=None if Y0 is None else Y0.copy(), objective=f, update_interval=rng.randint(1, 3), normalize=bool(rng.rand() < .5))
                if Y0 is None: bo.run_optimization(0)
            if rng.rand() < .25:                     # an evaluator of the user that repeats points
                ce = bo.evaluator.compute_batch; desc['repeats'] = True
                def repeated(*a, **k):
                    r = np.atleast_2d(np.asarray(ce(*a, **k))); return r[np.sort(rng.randint(0, len(r), len(r)))] if rng.rand() < .7 else np.vstack([r, r[:1], r[:1]])
                bo.evaluator.compute_batch = repeated
            aligned(bo, sign, X0, Y0); prev = (bo.X.copy(), bo.Y.copy()); steps = []
            for _ in range(rng.randint(1, 4)):
                it = int(rng.randint(0, 4)); steps.append(it)
                if rng.rand() < .25: steps.append('suggest'); bo.suggest_next_locations()
                kw = {}
                if rng.rand() < .3 and not sp.bandit and len(sp.vars) > 1: q = rng.randint(len(sp.vars)); kw['context'] = {sp.vars[q][2]: sp.sample(rng, 1)[0][q]}
                if rng.rand() < .3: kw['verbosity'] = True
                keepX, keepY = bo.X, bo.Y; cX, cY = bo.X.copy(), bo.Y.copy()
                desc['steps'] = steps
                bo.run_optimization(it, eps=-1 if rng.rand() < .7 else 1e-8, **kw)
                check(np.array_equal(keepX, cX) and np.array_equal(keepY, cY), 'arrays held by the caller were modified in place')
                aligned(bo, sign, X0, Y0)
                n = len(prev[0]); check(len(bo.X) >= n and np.array_equal(bo.X[:n], prev[0]) and np.array_equal(bo.Y[:n], prev[1]), 'earlier rows changed')
                gx, gy = bo.get_evaluations(); check(np.array_equal(gx, bo.X) and np.array_equal(gy, bo.Y), 'get_evaluations differs from the history'); sx, sy = bo.X.copy(), bo.Y.copy(); gx[:] = 1e9; gy[:] = 1e9
                check(np.array_equal(bo.X, sx) and np.array_equal(bo.Y, sy), 'get_evaluations exposes the internal arrays')
                prev = (bo.X.copy(), bo.Y.copy())
        except FullyExploredOptimizationDomainError: raise Skip()
