"""Context values."""
from util import *
RULE = 'random spaces and contexts (any subset leaving a free variable), all evaluators, adversarial local search; the functions handed to the local search are compared with the full acquisition'
SECONDS = 25
def case(rng, i, desc):
    import itertools
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    from GPyOpt.optimization.acquisition_optimizer import ContextManager
    from GPyOpt.optimization.optimizer import OptimizationWithContext
    sp = gen_space(rng, bandit=0, maxvars=5, minvars=2, constrained=.3 if i % 4 == 0 else 0)
    nv = len(sp.vars); k = rng.randint(1, nv); fixed = [int(q) for q in rng.permutation(nv)[:k]]
    vals = sp.sample(rng, 1)[0]; free = [q for q in range(nv) if q not in fixed]
    if sp.constraints:
        for _ in range(50):
            if sp.feasible(vals[None, :])[0]: break
            vals = sp.sample(rng, 1)[0]
        else: raise Skip()
    ctx = {sp.vars[q][2]: (int(vals[q]) if rng.rand() < .3 and vals[q] == int(vals[q]) else vals[q]) for q in fixed}
    desc.update(describe(sp), context={a: float(b) for a, b in ctx.items()}, what='context manager')
    s = sp.build(); cm = ContextManager(s, ctx); B = np.array(s.get_bounds(), dtype=float)
    cols = [c + j for q, c, w in sp.blocks() if q in free for j in range(w)]
    nb = np.array(cm.noncontext_bounds, dtype=float); check(np.array_equal(nb, B[cols]), 'search bounds %s instead of %s' % (nb.tolist(), B[cols].tolist()))
    full = sp.encode(vals); sub = rng.uniform(-3, 3, (rng.randint(1, 4), len(cols))); want = np.tile(full, (len(sub), 1)); want[:, cols] = sub
    got = cm._expand_vector(sub.copy()); check(np.array_equal(got, want), 'expanding %s gives %s' % (sub.tolist(), np.asarray(got).tolist()))
    desc['what'] = 'restricted function'
    w = rng.uniform(-1, 1, sp.MD)
    f = lambda x: np.atleast_2d(np.sin(np.atleast_2d(x).dot(w)))[0][:, None]
    fdf = lambda x: (f(x), np.cos(np.atleast_2d(x).dot(w))[:, None] * w[None, :])
    p = OptimizationWithContext(x0=full[None, :], f=f, df=None, f_df=fdf, context_manager=cm)
    check(np.array_equal(np.atleast_2d(p.x0_nocontext)[0], full[cols]), 'starting point %s' % p.x0_nocontext)
    x1 = sub[0]; e1 = want[:1]
    check(close(np.asarray(p.f_nocontext(x1.copy())).flatten(), f(e1).flatten()), 'restricted function value')
    a, b = p.f_df_nocontext(x1.copy()); check(close(np.asarray(a).flatten(), f(e1).flatten()) and close(np.asarray(b).flatten(), fdf(e1)[1][0][cols]), 'restricted gradient %s instead of %s' % (b, fdf(e1)[1][0][cols]))
    ev = ['sequential', 'random', 'thompson_sampling', 'local_penalization'][rng.randint(4)]; batch = 1 if ev == 'sequential' else rng.randint(1, 4)
    desc.update(evaluator=ev, batch=int(batch), what='suggestions'); small_samples(8 * batch + 20)
    X = sp.sample(rng, 3); acq = ['EI', 'MPI', 'LCB'][rng.randint(3)]; dedup = bool(rng.rand() < .25)
    with LocalSearch(rng, 'mixed') as ls:
        bo = build(rng, sp, ev, batch, acq, dedup, X=X, Y=rng.randn(3, 1), objective=Objective(sp.D, rng))
        try:
            S = bo.suggest_next_locations(context=dict(ctx)); S = np.asarray(S)
            sp.legal(S, 'suggestion')
            for q in fixed: check(np.all(S[:, q] == vals[q]), 'context %s not respected: %s' % (ctx, S.tolist()))
            for c in ls.calls:
                check(np.array_equal(np.array(c['bounds'], dtype=float), B[cols]), 'local search bounds %s' % c['bounds'])
                check(len(c['x0']) == len(cols), 'local search dimension %d' % len(c['x0']))
            if ls.calls and ev != 'local_penalization':
                c = ls.calls[rng.randint(len(ls.calls))]; z = B[cols, 0] + (B[cols, 1] - B[cols, 0]) * rng.rand(len(cols)); e = full.copy(); e[cols] = z
                v = c['func'](z.copy()); A = bo.acquisition
                if isinstance(v, tuple):
                    check(close(np.asarray(v[0]).flatten(), A.acquisition_function(e[None, :]).flatten()), 'searched value'); check(close(np.asarray(v[1]).flatten(), A.acquisition_function_withGradients(e[None, :])[1][0][cols]), 'searched gradient')
                else: check(close(np.asarray(v).flatten(), A.acquisition_function(e[None, :]).flatten()), 'searched value')
            n0 = len(ls.calls)
            if rng.rand() < .6:
                desc['what'] = 'request without context after one with'
                S2 = bo.suggest_next_locations(); sp.legal(S2, 'suggestion')
                for c in ls.calls[n0:]: check(np.array_equal(np.array(c['bounds'], dtype=float), B), 'after a context the search is still restricted: bounds %s' % c['bounds'])
            if rng.rand() < .4:
                desc['what'] = 'run with context'; n = len(bo.X)
                bo.run_optimization(1, eps=-1, context=dict(ctx)); sp.legal(bo.X, 'evaluated')
                for q in fixed: check(np.all(bo.X[n:, q] == vals[q]), 'context %s not respected in a run: %s' % (ctx, bo.X[n:].tolist()))
        except FullyExploredOptimizationDomainError: raise Skip()
