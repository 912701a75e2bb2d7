"""Asking for suggestions changes no recorded data and evaluates nothing."""
from util import *
RULE = 'sequences of requests with random contexts, pending and ignored points, compared with a request made first on a fresh optimizer'
def case(rng, i, desc):
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    import GPyOpt, copy
    sp = gen_space(rng, bandit=.12, maxvars=3, kinds=ALLK if i % 2 else ['discrete', 'categorical']); ev = ['sequential', 'random', 'thompson_sampling', 'local_penalization'][rng.randint(4)]; batch = 1 if ev == 'sequential' else int(rng.randint(1, 4))
    dedup = bool(rng.rand() < .6); small_samples(40); desc.update(describe(sp), evaluator=ev, batch=batch, dedup=dedup, what='requests')
    f = Objective(sp.D, rng, 2); X0 = sp.sample(rng, int(rng.randint(1, 6))); Y0 = np.array([[f.value(r)] for r in X0]); s0 = rng.randint(2**31 - 1); acq = ['EI', 'LCB', 'MPI'][rng.randint(3)]; norm = bool(rng.rand() < .5); upd = int(rng.randint(1, 4))
    def make():
        r2 = np.random.RandomState(s0)
        return build(r2, sp, ev, batch, acq, dedup, X=X0.copy(), Y=Y0.copy(), objective=f, normalize=norm, update_interval=upd)
    def request():
        kw = {}
        if rng.rand() < .5 and not sp.bandit and len(sp.vars) > 1:
            q = rng.permutation(len(sp.vars))[:rng.randint(1, len(sp.vars))]; p = sp.sample(rng, 1)[0]; kw['context'] = {sp.vars[t][2]: float(p[t]) for t in q}
        if dedup and rng.rand() < .6: kw['pending_X'] = sp.sample(rng, int(rng.randint(1, 6)))
        if dedup and rng.rand() < .5: kw['ignored_X'] = sp.sample(rng, int(rng.randint(1, 6)))
        return kw
    def ask(bo, kw, seed):
        np.random.seed(seed)
        ls.rng = np.random.RandomState(seed)
        try: return np.array(bo.suggest_next_locations(**copy.deepcopy(kw)), copy=True)
        except FullyExploredOptimizationDomainError: return 'explored'
    with LocalSearch(rng, 'mixed') as ls:
        bo = make()
        if rng.rand() < .3:
            try: bo.run_optimization(int(rng.randint(0, 3)), eps=-1)
            except FullyExploredOptimizationDomainError: raise Skip()
        X0, Y0 = bo.X.copy(), bo.Y.copy(); ncalls = len(f.calls); hist = []; desc['requests'] = hist
        for k in range(int(rng.randint(2, 5))):
            kw = request(); seed = int(rng.randint(2**31 - 1)); hist.append({a: (b.tolist() if isinstance(b, np.ndarray) else b) for a, b in kw.items()})
            bX, bY = bo.X, bo.Y; nu = len(bo.gp.updates)
            got = ask(bo, kw, seed)
            check(len(f.calls) == ncalls, 'the objective was called %d times by a request' % (len(f.calls) - ncalls))
            check(bo.X is bX and bo.Y is bY and np.array_equal(bX, X0) and np.array_equal(bY, Y0), 'the recorded data changed')
            check(len(bo.gp.updates) > nu, 'the surrogate was not fitted'); u = bo.gp.updates[-1]
            check(np.array_equal(u[0], sp.encode_all(X0)) and len(u[1]) == len(Y0) and (norm or np.array_equal(u[1], Y0)) and (not norm or np.array_equal(np.argsort(u[1].ravel(), kind='stable'), np.argsort(Y0.ravel(), kind='stable')) or len(set(Y0.ravel())) < len(Y0)), 'the surrogate was fitted on other data')
            fresh = make(); want = ask(fresh, kw, seed)
            if isinstance(want, str) or isinstance(got, str): check(isinstance(want, str) and isinstance(got, str), 'request %d %s differs from the same request made first: %s and %s' % (k, hist[-1], got, want))
            else:
                check(got.shape == want.shape and np.array_equal(got, want), 'request %d %s gives %s; made first it gives %s' % (k, hist[-1], got.tolist(), want.tolist()))
                sp.legal(got, 'suggestion')
                check(dedup or len(got) == batch, '%d suggestions' % len(got))
                for nm, v in kw.get('context', {}).items():
                    col = [t[2] for t in sp.vars].index(nm); check(np.all(got[:, col] == v), 'the context value of %s is %r, suggested %s' % (nm, v, got[:, col]))
                if dedup:
                    ban = {tuple(r) for M in [X0, kw.get('pending_X', []), kw.get('ignored_X', [])] for r in np.asarray(M).tolist()}
                    for r in got.tolist(): check(tuple(r) not in ban, 'an excluded point is suggested: %s' % r)
