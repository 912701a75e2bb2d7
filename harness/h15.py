"""Evaluation cost."""
from util import *
import time
RULE = 'runs with the three cost modes (fake clock for evaluation times), several updates; cost values, gradients and the data of the cost model'
SECONDS = 25; MIN = 15
def case(rng, i, desc):
    from GPyOpt.core.task.cost import CostModel, constant_cost_withGradients
    import GPyOpt, copy
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    n, d = int(rng.randint(1, 6)), int(rng.randint(1, 5)); X = rng.randn(n, d); desc.update(n=n, d=d, what='no cost')
    c = CostModel(None); a, b = c.cost_withGradients(X.copy()); check(np.array_equal(a, np.ones((n, 1))) and np.array_equal(b, np.zeros((n, d))), 'cost without a cost model')
    for k in range(2): c.update_cost_model(X, rng.rand(n) + .1)
    a, b = c.cost_withGradients(X.copy()); check(np.array_equal(a, np.ones((n, 1))) and np.array_equal(b, np.zeros((n, d))), 'cost without a cost model, after updates')
    desc['what'] = 'user cost'; u = lambda x: (2 + np.sin(x[:, :1]), np.cos(x[:, :1]) * np.eye(1, x.shape[1]))
    c = CostModel(u); c.update_cost_model(X, rng.rand(n) + .1); a, b = c.cost_withGradients(X.copy()); w = u(X); check(np.array_equal(a, w[0]) and np.array_equal(b, w[1]), 'user cost changed')
    if rng.rand() < .6 and i % 2: return
    desc['what'] = 'evaluation time (direct)'; c = CostModel('evaluation_time'); check(c.cost_type == 'evaluation_time', 'evaluation-time cost is labelled %r' % c.cost_type)
    if hasattr(c.cost_model, 'optimize_restarts'): c.cost_model.optimize_restarts = 1; c.cost_model.max_iters = 10; c.cost_model.verbose = False
    a, b = c.cost_withGradients(X.copy()); check(np.all(a > 0) and np.shape(a) == (n, 1) and np.shape(b) == X.shape, 'cost before any evaluation')
    allX = np.zeros((0, d)); allT = []
    for r in range(int(rng.randint(1, 4))):
        m = int(rng.randint(1, 4)) if rng.rand() < .93 else int(rng.randint(40, 130)); x = rng.randn(m, d); t = ((rng.rand(m) + .05) * 10. ** rng.choice([0, 0, 0, -3, -9, -12, 4])).tolist()
        c.update_cost_model(x.copy(), [list(t), np.array(t), np.array(t)[:, None]][rng.randint(3)]); allX = np.vstack([allX, x]); allT += t
        check(close(np.asarray(c.cost_model.model.X), allX), 'inputs of the cost model'); check(close(np.asarray(c.cost_model.model.Y), np.log(allT)[:, None]), 'log times %s instead of %s' % (np.asarray(c.cost_model.model.Y).ravel(), np.log(allT)))
        a, b = c.cost_withGradients(X.copy()); m_, _, dm, _ = c.cost_model.predict_withGradients(X.copy()); check(close(a, np.exp(m_)) and close(b, np.exp(m_) * dm) and np.all(a > 0), 'cost is not the exponential of the predicted mean')
    if rng.rand() < .5: return
    # ---- a run with fake evaluation times
    sp = gen_space(rng, bandit=.1, maxvars=3); small_samples(20); desc.update(describe(sp)); desc['what'] = 'evaluation time (run)'
    clock = [1e6]; times = []; real = time.time; f0 = Objective(sp.D, rng)
    def f(x):
        dt = .1 + abs(np.sin(17 * x.sum() + len(times))); clock[0] += dt; times.append((x[0].copy(), dt)); return f0(x)
    time.time = lambda: clock[0]
    try:
        with LocalSearch(rng, 'mixed'):
            kind = rng.randint(3); sup = rng.randint(2)
            if kind == 0:
                X0 = sp.sample(rng, 3); c = CostModel('evaluation_time'); quick(c)
                bo = build(rng, sp, ['sequential', 'random'][rng.randint(2)], int(rng.randint(1, 3)), X=X0, Y=None, objective=f, cost=c)
            else:
                cls = GPyOpt.methods.BayesianOptimization
                bo = cls(f, domain=copy.deepcopy(sp.cfg), X=sp.sample(rng, 3) if sup else None, initial_design_numdata=3, cost_withGradients='evaluation_time', model=make_stub(rng, sp.MD), evaluator_type='random', batch_size=int(rng.randint(1, 3)))
                quick(bo.cost)
            for _ in range(rng.randint(1, 3)):
                bo.run_optimization(int(rng.randint(1, 3)), eps=-1)
                E = sp.encode_all(np.array([t[0] for t in times])); check(close(np.asarray(bo.cost.cost_model.model.X), E), 'cost model inputs are not the encoded evaluated points'); check(np.shape(bo.cost.cost_model.model.Y) == (len(times), 1) and close(np.asarray(bo.cost.cost_model.model.Y).ravel(), np.log([t[1] for t in times]), 1e-5), 'cost model holds %s, observed log times %s' % (np.asarray(bo.cost.cost_model.model.Y).ravel(), np.log([t[1] for t in times])))
            g = bo.acquisition.cost_withGradients(E)[0]; check(close(g, np.exp(bo.cost.cost_model.predict_withGradients(E)[0])), 'the acquisition uses another cost')
    except FullyExploredOptimizationDomainError: raise Skip()
    finally: time.time = real
def quick(c):
    m = getattr(c, 'cost_model', None)
    if m is not None: m.optimize_restarts = 1; m.max_iters = 5; m.verbose = False
