"""Saved evaluations, models and reports reproduce the recorded data."""
from util import *
import tempfile, os, csv, re
RULE = 'random histories (after runs of both entry points and set directly), files written and parsed back'
def case(rng, i, desc):
    import GPyOpt, copy
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    sp = gen_space(rng, bandit=.15); small_samples(40)
    f = Objective(sp.D, rng, 2); scale = float(10. ** rng.randint(-3, 4)); f0 = f.f
    desc.update(describe(sp), what='files')
    n0 = int(rng.randint(2, 6)); X0 = sp.sample(rng, n0)
    if rng.rand() < .5:                              # repeated rows and tied outputs
        X0 = np.vstack([X0, X0[rng.randint(n0)]])
    Y0 = np.array([[scale * f.value(r)] for r in X0])
    if rng.rand() < .2: Y0[:] = Y0[0]
    mc = int(rng.choice([0, 0, 3])); kind = rng.randint(3)
    with LocalSearch(rng, 'mixed'):
        try:
            if kind == 0:
                desc['what'] = 'BayesianOptimization'
                model_type = ['GP', 'sparseGP'][rng.randint(2)]; ev = ['sequential', 'random'][rng.randint(2)]; batch = 1 if ev == 'sequential' else int(rng.randint(1, 4))
                bo = GPyOpt.methods.BayesianOptimization(f, domain=copy.deepcopy(sp.cfg), X=X0.copy(), Y=Y0.copy(), model_type=model_type, evaluator_type=ev, batch_size=batch, max_iters=3, optimize_restarts=1)
            else:
                desc['what'] = 'modular'; bo = build(rng, sp, 'sequential', 1, 'EI', X=X0.copy(), Y=Y0.copy(), objective=f)
            states = []; gm = bo.model.get_model_parameters
            def rec():
                r = gm(); states.append(np.array(r, copy=True)); return r
            bo.model.get_model_parameters = rec
            for _ in range(rng.randint(1, 3)):
                states[:] = []
                d = tempfile.mkdtemp(prefix='vp17'); P = [os.path.join(d, n) for n in ('r.txt', 'e.txt', 'm.txt')]
                try:
                    it = int(rng.randint(0, 4)); desc['iterations'] = it
                    viarun = bool(rng.rand() < .5)
                    if viarun: bo.run_optimization(it, eps=-1, report_file=P[0], evaluations_file=P[1], models_file=P[2])
                    else: bo.run_optimization(it, eps=-1)
                    if rng.rand() < .4:                  # any history, as a user who restores one would have
                        m = int(rng.choice([1, 2, 5, 30])); bo.X = sp.sample(rng, m); bo.Y = np.array([[scale * f.value(r)] for r in bo.X])
                        if rng.rand() < .3: bo.Y[rng.randint(m)] = bo.Y.min()
                        if rng.rand() < .2: bo.Y = np.round(bo.Y)
                        viarun = False
                    if not viarun:
                        bX, bY, bM = bo.X, bo.Y, bo.model_parameters_iterations; keep = (bX.copy(), bY.copy(), bM.copy())
                        bo.save_report(P[0]); bo.save_evaluations(P[1]); bo.save_models(P[2])
                        check(bo.X is bX and bo.Y is bY and np.array_equal(bX, keep[0]) and np.array_equal(bY, keep[1]) and np.array_equal(bo.model_parameters_iterations, keep[2]), 'saving changed the recorded data')
                    X, Y = np.asarray(bo.X), np.asarray(bo.Y)
                    rows = [r for r in csv.reader(open(P[1]), delimiter='\t') if r]
                    check(rows[0] == ['Iteration', 'Y'] + ['var_%d' % (k + 1) for k in range(X.shape[1])], 'header of the evaluations file: %s' % rows[0])
                    check(len(rows) == 1 + len(X), 'evaluations file: %d lines for %d evaluations' % (len(rows) - 1, len(X)))
                    for k, r in enumerate(rows[1:]):
                        v = [float(t) for t in r]
                        check(v == [k + 1.] + [Y[k, 0]] + X[k].tolist(), 'evaluations file line %d: %s instead of %s' % (k + 1, v, [k + 1.] + [Y[k, 0]] + X[k].tolist()))
                    S = np.vstack(states)
                    check(len(states) >= 1 and np.array_equal(S, bo.model_parameters_iterations), 'the recorded surrogate parameters are not those of the surrogate, state by state')
                    rows = [r for r in csv.reader(open(P[2]), delimiter='\t') if r]
                    check(rows[0] == ['Iteration'] + list(bo.model.get_model_parameters_names()), 'header of the models file: %s' % rows[0])
                    check(len(rows) == 1 + len(S), 'models file: %d lines for %d states' % (len(rows) - 1, len(S)))
                    for k, r in enumerate(rows[1:]): check([float(t) for t in r] == [k + 1.] + S[k].tolist(), 'models file line %d: %s instead of %s' % (k + 1, r, S[k].tolist()))
                    t = open(P[0]).read()
                    m = re.search(r'(\d+) samples collected', t); check(m and int(m.group(1)) == len(X), 'the report states %s samples, %d were collected' % (m and m.group(1), len(X)))
                    m = re.search(r'Value at minimum:\s+(\S.*)\n', t); check(m is not None, 'no value at minimum in the report')
                    v = float(m.group(1).strip('[] ')); check(abs(v - Y.min()) <= 1e-6 * abs(Y.min()) + 2e-8, 'the report states the minimum %r, it is %r' % (v, Y.min()))
                    m = re.search(r'Best found minimum location:\s+(\S[^-]*?(?:-[^-]+?)*)\n--', t, re.S); check(m is not None, 'no minimum location in the report')
                    loc = np.array([float(q) for q in m.group(1).replace('[', ' ').replace(']', ' ').split()])
                    ok = any(loc.shape == X[k].shape and np.all(np.abs(loc - X[k]) <= 1e-6 * (1 + np.abs(X[k]).max())) for k in range(len(X)) if Y[k, 0] == Y.min())
                    check(ok, 'the reported location %s is not a recorded one with the minimal output' % loc)
                finally:
                    for p in P:
                        if os.path.exists(p): os.unlink(p)
                    os.rmdir(d)
        except FullyExploredOptimizationDomainError: raise Skip()
