"""Constraints."""
from util import *
np.seterr(invalid="ignore")
RULE = 'random constrained spaces and points (also at the boundary): indicator against direct evaluation, designs, search starting points, acquisition values at infeasible points'
SECONDS = 20
def case(rng, i, desc):
    import copy
    from GPyOpt.experiment_design import initial_design
    from GPyOpt.optimization.anchor_points_generator import ObjectiveAnchorPointsGenerator, ThompsonSamplingAnchorPointsGenerator, RandomAnchorPointsGenerator
    from GPyOpt.optimization.acquisition_optimizer import ContextManager
    sp = gen_space(rng, bandit=0, kinds=['continuous'], maxvars=3) if rng.rand() < .5 else gen_space(rng, bandit=0, maxvars=4)
    D = sp.D; m = rng.randint(0, 4); cons = []; fs = []; names = []
    for k in range(m):
        w = np.round(rng.uniform(-1, 1, D), 2); w[rng.rand(D) < .3] = 0; c0 = float(np.round(rng.uniform(-3, 3), 2)); t = rng.randint(4) if rng.rand() < .85 else 4
        lin = ' + '.join('%r*x[:,%d]' % (float(w[j]), j) for j in range(D))
        if t == 0: e, f = '%s - %r' % (lin, c0), lambda X, w=w, c0=c0: sum(w[j] * X[:, j] for j in range(D)) - c0
        elif t == 1: j = rng.randint(D); q = float(sp.sample(rng, 1)[0][j]); e, f = 'x[:,%d] - %r' % (j, q), lambda X, j=j, q=q: X[:, j] - q
        elif t == 2: j = rng.randint(D); q = float(sp.sample(rng, 1)[0][j]); e, f = '-x[:,%d] + %r' % (j, q), lambda X, j=j, q=q: -X[:, j] + q
        elif t == 4:      # not a number at some points: such a point does not satisfy it
            j = rng.randint(D); q = float(sp.sample(rng, 1)[0][j]); e, f = 'np.sqrt(%r - x[:,%d]) - 4.' % (q, j), lambda X, j=j, q=q: np.sqrt(q - X[:, j]) - 4.
        else: j = rng.randint(D); e, f = 'x[:,%d]**2 - %r' % (j, abs(c0)), lambda X, j=j, c0=c0: X[:, j] ** 2 - abs(c0)
        cons.append({'name': 'c%d' % k, ('constrain' if rng.rand() < .3 else 'constraint'): e}); fs.append(f)
    feas = lambda X: np.all([f(X) <= 0 for f in fs], axis=0) if fs else np.ones(len(X), dtype=bool)
    sp = SP(sp.cfg, cons if (cons or rng.rand() < .5) else None, feas); s = sp.build()
    X = sp.sample(rng, rng.randint(1, 8))
    if rng.rand() < .5: X = X + np.where(rng.rand(*X.shape) < .5, 0, 10. ** rng.uniform(-12, -3, X.shape) * rng.choice([-1, 1], X.shape))     # violations by very little
    desc.update(describe(sp), X=X.tolist(), what='indicator')
    I = np.asarray(s.indicator_constraints(X.copy()), dtype=float); w = feas(X).astype(float)[:, None]
    check(I.shape == w.shape and np.array_equal(I, w), 'indicator %s, constraints say %s' % (I.ravel(), w.ravel()))
    I1 = np.asarray(s.indicator_constraints(X[0].copy())); check(np.array_equal(I1, w[:1]), 'indicator of a single point')
    check(s.has_constraints() == (sp.constraints is not None), 'has_constraints')
    if rng.rand() < .2:
        bad = SP(sp.cfg, cons + [{'name': 'bad', 'constraint': ['x[:,', 'undefined_name_(x)', 'x[:,%d]' % (D + 3), '1/0 + x[:,0]'][rng.randint(4)]}]).build(); desc['what'] = 'invalid expression'
        try: bad.indicator_constraints(X)
        except Exception: pass
        else: raise Violation('an expression that cannot be evaluated was accepted')
    if i % 16 == 5:
        # a very small feasible region: the design is feasible all the same
        desc['what'] = 'random design in a small region'; w = 10. ** rng.uniform(-3.3, -1.5); c0 = rng.uniform(0, 1 - w); sm = SP([{'name': 'a', 'type': 'continuous', 'domain': (0, 1), 'dimensionality': int(rng.randint(1, 3))}], [{'name': 'lo', 'constraint': '%r - x[:,0]' % c0}, {'name': 'hi', 'constraint': 'x[:,0] - %r' % (c0 + w)}])
        Z = np.asarray(initial_design('random', sm.build(), int(rng.randint(1, 3)))); sm.legal(Z); check(np.all((c0 - Z[:, 0] <= 0) & (Z[:, 0] - (c0 + w) <= 0)), 'infeasible design point %s for a feasible interval of width %g' % (Z.tolist(), w)); return
    P = sp.sample(rng, 400, 0); frac = feas(P).mean()
    if frac < .05:
        # a small feasible region is found all the same
        Q = sp.sample(rng, 20000, 0); frac = feas(Q).mean()
        if frac < .001 or i % 2: raise Skip()
        desc['what'] = 'random design in a small region'; X = np.asarray(initial_design('random', s, 2)); check(X.shape == (2, D), 'design shape %s' % (X.shape,)); sp.legal(X); check(np.all(feas(X)), 'infeasible design point'); return
    desc['what'] = 'random design'; n = int(rng.randint(1, 12))
    X = np.asarray(initial_design('random', s, n)); check(X.shape == (n, D), 'design shape %s' % (X.shape,)); sp.legal(X); check(np.all(feas(X)), 'infeasible design point')
    desc['what'] = 'starting points'; model = make_stub(rng, sp.MD); ctx = None
    if len(sp.vars) > 1 and rng.rand() < .4:
        k = rng.randint(len(sp.vars)); base = P[feas(P)][0]; ctx = {sp.vars[k][2]: base[k]}; desc['context'] = {a: float(b) for a, b in ctx.items()}
        Q = P.copy(); Q[:, k] = base[k]
        if feas(Q).mean() < .05: ctx = None
    cm = ContextManager(s, ctx); f = lambda X: model.predict(X)[0]
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    g = [lambda: ObjectiveAnchorPointsGenerator(s, 'random', f, 60), lambda: ThompsonSamplingAnchorPointsGenerator(s, 'random', model, 60), lambda: RandomAnchorPointsGenerator(s, 'random', 60)][rng.randint(3)]()
    try: A = g.get(num_anchor=int(rng.randint(1, 9)), context_manager=cm if rng.rand() < .8 or ctx else None, unique=bool(rng.rand() < .3))
    except FullyExploredOptimizationDomainError: raise Skip()
    Z = s.zip_inputs(A); sp.legal(Z, 'starting point'); check(np.all(feas(Z)), 'infeasible starting point %s' % Z[~feas(Z)][:1].tolist())
    desc['what'] = 'acquisition'
    from GPyOpt.acquisitions import AcquisitionEI, AcquisitionMPI
    for C in (AcquisitionEI, AcquisitionMPI):
        a = C(model, s, None); U = sp.encode_all(P[:40]); V = np.asarray(a.acquisition_function(U)); ok = feas(P[:40])
        check(np.all(V[~ok] == 0), 'infeasible point with acquisition %s' % V[~ok].ravel()[:3]); check(close(V[ok], -np.asarray(a._compute_acq(U))[ok]), 'acquisition of feasible points')
        V2, G2 = a.acquisition_function_withGradients(U); check(np.all(V2[~ok] == 0) and np.all(G2[~ok] == 0), 'infeasible point with gradient'); check(close(V2, V), 'value with gradient')
    if rng.rand() < .25:
        desc['what'] = 'suggestion'; small_samples(40); C = ['EI', 'MPI'][rng.randint(2)]
        with LocalSearch(rng, 'mixed'):
            bo = build(rng, sp, 'sequential', 1, C, X=X, Y=rng.randn(len(X), 1), model=model)
            try: S = bo.suggest_next_locations()
            except FullyExploredOptimizationDomainError: raise Skip()
            v = bo.acquisition.acquisition_function(sp.encode_all(np.asarray(S)))
            check(feas(np.asarray(S))[0] or v[0, 0] == 0, 'infeasible suggestion with acquisition %s' % v)
