"""Batch size and composition."""
from util import *
RULE = 'random spaces, evaluators, batch sizes; batch against the acquisition optimum and the sampled candidates (recorded through the random source of the designs)'
SECONDS = 25
def case(rng, i, desc):
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    from GPyOpt.core.evaluators import Sequential, RandomBatch, ThompsonBatch
    import GPyOpt.optimization.anchor_points_generator as apg
    sp = gen_space(rng, bandit=.15, constrained=.2 if i % 3 == 0 else 0); ev = ['sequential', 'random', 'thompson_sampling', 'local_penalization'][rng.randint(4)]; batch = 1 if ev == 'sequential' else int(rng.randint(1, 6)); dedup = bool(rng.rand() < .4)
    ns = int(rng.choice([batch * 5 + 1, 60])); small_samples(ns)
    desc.update(describe(sp), evaluator=ev, batch=batch, dedup=dedup, what='batch')
    X0 = sp.sample(rng, int(rng.randint(2, 6)))
    if rng.rand() < .15 and all(v[0] != 'continuous' for v in sp.vars): X0 = sp.sample(rng, 30)
    mode = ['mixed', 'stay', 'inside', 'step'][rng.randint(4)]; desc['mode'] = mode; draws = []
    oi = apg.initial_design
    def rec(name, space, n): 
        r = oi(name, space, n); draws.append((space, np.array(r, copy=True))); return r
    apg.initial_design = rec
    try:
        with LocalSearch(rng, mode) as ls:
            bo = build(rng, sp, ev, batch, ['EI', 'LCB', 'MPI'][rng.randint(3)], dedup, X=X0.copy(), Y=rng.randn(len(X0), 1))
            opt = []; ao = bo.acquisition.optimize
            def opti(*a, **k):
                r = ao(*a, **k); opt.append(np.array(r[0], copy=True)); return r
            bo.acquisition.optimize = opti
            try: S = np.asarray(bo.suggest_next_locations())
            except FullyExploredOptimizationDomainError: raise Skip()
            check(S.ndim == 2 and S.shape[1] == sp.D, 'batch shape %s' % (S.shape,))
            if not dedup or ev in ('sequential', 'local_penalization'): check(len(S) == batch, '%d points instead of %d' % (len(S), batch))
            else: check(1 <= len(S) <= batch, '%d points, requested %d' % (len(S), batch))
            E = sp.encode_all(S)
            cands = []
            for space, r in draws: cands += [tuple(t) for t in np.asarray(r).tolist()]
            cands = set(cands)
            if ev == 'sequential': check(len(opt) >= 1 and np.array_equal(E, np.atleast_2d(opt[-1])), 'the suggestion %s is not the acquisition optimum %s' % (E.tolist(), opt[-1].tolist()))
            if ev == 'random':
                check(len(opt) >= 1 and np.array_equal(E[:1], np.atleast_2d(opt[0])), 'the first point %s is not the acquisition optimum' % E[:1].tolist())
                for r in S[1:]: check(tuple(r.tolist()) in cands, 'point %s was not sampled' % r.tolist())
            if ev == 'thompson_sampling':
                refined = set()
                for c in ls.calls:
                    x = c['x0'] if str(c['task']).startswith('ABNORMAL') else c['x']
                    refined.add(tuple(np.ravel(bo.space.round_optimum(x)).tolist()))
                for r, e in zip(S, E): check(tuple(r.tolist()) in cands or tuple(e.tolist()) in refined, 'point %s is neither sampled nor a refinement' % r.tolist())
    finally: apg.initial_design = oi
