"""The acquisition search returns the best candidate it examined."""
from util import *
RULE = 'random spaces, contexts, duplicate managers and acquisition tables, arbitrary local-search answers (recorded); the result is compared with every refined candidate'
def case(rng, i, desc):
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    from GPyOpt.optimization.acquisition_optimizer import AcquisitionOptimizer, ContextManager
    from GPyOpt.optimization.optimizer import apply_optimizer, choose_optimizer, OptLbfgs
    from GPyOpt.util.duplicate_manager import DuplicateManager
    import GPyOpt.optimization.anchor_points_generator as apg
    sp = gen_space(rng, bandit=.12); s = sp.build(); nS = int(rng.choice([3, 5, 6, 40])); small_samples(nS)
    amp = 10. ** rng.uniform(-9, 3) if rng.rand() < .3 else 1.; W = rng.uniform(-2, 2, (2, sp.MD)); flat = rng.rand() < .15; grad = bool(rng.rand() < .6)
    def f(X):
        X = np.atleast_2d(X); v = np.sin(X.dot(W[0])) + .3 * np.cos(X.dot(W[1]))
        return amp * (np.round(v) if flat else v)[:, None]
    def df(X):
        X = np.atleast_2d(X); return amp * (np.cos(X.dot(W[0]))[:, None] * W[0] - .3 * np.sin(X.dot(W[1]))[:, None] * W[1])
    f_df = (lambda X: (f(X), df(X))) if grad else None
    ctx = {}
    if rng.rand() < .5 and not sp.bandit and len(sp.vars) > 1:
        p = sp.sample(rng, 1)[0]; ctx = {sp.vars[t][2]: float(p[t]) for t in rng.permutation(len(sp.vars))[:rng.randint(1, len(sp.vars))]}
    dm = None; ban = set()
    if rng.rand() < .5:
        Z = sp.sample(rng, int(rng.randint(1, 8))); dm = DuplicateManager(s, Z); ban = {tuple(r) for r in sp.encode_all(Z).tolist()}
    mode = ['mixed', 'wild', 'stay', 'abnormal', 'inside', 'step'][rng.randint(6)]
    desc.update(describe(sp), context=ctx, duplicates=len(ban), mode=mode, samples=nS, what='search')
    ao = AcquisitionOptimizer(s, 'lbfgs', model=None); ao.context_manager = ContextManager(s, ctx or None); cm = ao.context_manager
    if rng.rand() < .4 and not sp.bandit and len(sp.vars) > 1:      # an earlier request, with another context
        p = sp.sample(rng, 1)[0]; old = {sp.vars[t][2]: float(p[t]) for t in rng.permutation(len(sp.vars))[:rng.randint(1, len(sp.vars))]}
        desc['earlier'] = old; ao.context_manager = ContextManager(s, old)
        with LocalSearch(rng, mode): ao.optimize(f=f, f_df=f_df)
        ao.context_manager = cm
    free = [c for k, c0, w in sp.blocks() if sp.vars[k][2] not in ctx for c in range(c0, c0 + w)]
    fixed = {}
    for k, c0, w in sp.blocks():
        if sp.vars[k][2] in ctx:
            v = ctx[sp.vars[k][2]]
            for c in range(w): fixed[c0 + c] = (1. if w > 1 and c == int(v) else 0.) if sp.vars[k][0] == 'categorical' else v
    B = []
    for k, c0, w in sp.blocks():
        t, d, _ = sp.vars[k]
        B += [(0, 1)] * w if t == 'categorical' else [(d[0], d[1])] if t == 'continuous' else [(min(d), max(d))] if t == 'discrete' else [(d[:, c].min(), d[:, c].max()) for c in range(w)]
    draws = []; oi = apg.initial_design
    def rec(name, space, n):
        r = oi(name, space, n); draws.append(np.array(r, copy=True)); return r
    scored = []
    def fs(X):
        r = f(X)
        if not scored: scored.append((np.array(X, copy=True), r.flatten().copy()))
        return r
    apg.initial_design = rec
    try:
        with LocalSearch(rng, mode) as ls:
            if i % 3 == 2 and not ctx:
                desc['what'] = 'apply_optimizer'
                x0 = sp.encode_all(sp.sample(rng, 1))
                if tuple(x0[0].tolist()) in ban: raise Skip()
                o = OptLbfgs(s.get_bounds())
                if rng.rand() < .4 and not grad:
                    x, fx = o.optimize(x0.flatten(), f=f); c = ls.calls[-1]; ab = str(c['task']).startswith('ABNORMAL')
                    check(np.array_equal(np.ravel(x), x0.ravel() if ab else c['x']), 'the local search answered %s (%s), returned %s' % (c['x'], c['task'], x)); check(np.size(x) == sp.MD and close(np.ravel(fx)[:1], f(np.atleast_2d(x)).ravel()), 'value of the local search: %r instead of %r' % (fx, f(np.atleast_2d(x)))); return
                x, fx = apply_optimizer(o, x0.copy(), f=f, df=None, f_df=f_df, duplicate_manager=dm, space=s); got = [(x, fx)]
            else:
                try: x, fx = ao.optimize(f=fs, f_df=f_df, duplicate_manager=dm)
                except FullyExploredOptimizationDomainError:
                    if dm is None: raise Violation('fully explored without exclusions')
                    C = sp.encode_all(draws[0]) if not ctx else None
                    if C is not None: check(all(tuple(r) in ban for r in C.tolist()), 'fully explored although a candidate is not excluded')
                    return
                x0 = None
    finally: apg.initial_design = oi
    x = np.atleast_2d(x); check(x.shape == (1, sp.MD), 'the search returned shape %s' % (x.shape,))
    check(close(np.ravel(fx), f(x).ravel(), 1e-12), 'returned value %r, acquisition there %r' % (fx, f(x)))
    # the searched problem: bounds, start, function
    refined = []
    for c in ls.calls:
        check(len(c['x0']) == len(free), 'local search over %d coordinates, %d are free' % (len(c['x0']), len(free)))
        check([tuple(map(float, b)) for b in c['bounds']] == [tuple(map(float, B[q])) for q in free], 'local search bounds %s instead of %s' % (c['bounds'], [B[q] for q in free]))
        full = np.zeros(sp.MD); full[free] = c['x0']
        for q, v in fixed.items(): full[q] = v
        c['full0'] = full
        y = full.copy(); ab = str(c['task']).startswith('ABNORMAL')
        if not ab: y[free] = c['x']
        r = np.ravel(s.round_optimum(y))
        refined.append(tuple(full.tolist()) if tuple(r.tolist()) in ban else tuple(r.tolist()))
        if np.all(np.isfinite(c['x'])):
            z = full.copy(); z[free] = c['x']; v = c['value']
            if isinstance(v, tuple): check(close(np.ravel(v[0]), f(z).ravel(), 1e-12) and close(np.ravel(v[1]), df(z).ravel()[free], 1e-12), 'the function handed to the local search differs from the acquisition at %s' % z)
            else: check(close(np.ravel(v), f(z).ravel(), 1e-12), 'the function handed to the local search differs from the acquisition at %s' % z)
    check(tuple(x[0].tolist()) in refined, 'the result %s is not one of the refined candidates %s' % (x[0].tolist(), refined))
    best = min(float(f(np.array(r))[0, 0]) for r in refined); check(float(f(x)[0, 0]) <= best, 'the result has value %r, a refined candidate has %r' % (float(f(x)[0, 0]), best))
    if i % 3 == 2 and not ctx: return
    # starts: the best-scoring non-excluded candidates
    check(len(draws) == 1 and len(scored) == 1, 'candidates were drawn %d times' % len(draws))
    C = [tuple(r) for r in (sp.encode_all(draws[0]).tolist() if not ctx else scored[0][0].tolist()) if tuple(r) not in ban]
    starts = [tuple(c['full0'].tolist()) for c in ls.calls]
    check(len(starts) == min(5, len(C)), '%d starts from %d candidates' % (len(starts), len(C)))
    for t in starts: check(t in C, 'start %s is not a candidate or is excluded' % (t,))
    sc = sorted(float(v) for v in f(np.array(C)).ravel()); ss = sorted(float(f(np.array(t))[0, 0]) for t in starts)
    check(close(ss, sc[:len(ss)], 1e-12), 'the starts score %s, the best candidates %s' % (ss, sc[:len(ss)]))
