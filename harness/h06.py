"""Budget and stopping."""
from util import *
RULE = 'random budgets, tolerances, time limits (fake clock), numerically failing surrogates and repeated points; the number of steps is compared with the stated reasons to stop'
SECONDS = 25
class Clock(object):
    def __init__(self, rng): self.t = 1e6; self.rng = rng; self.step = 0.
    def time(self): return self.t
def case(rng, i, desc):
    import GPyOpt.core.bo as B, time
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    sp = gen_space(rng, bandit=.1); ev = ['sequential', 'random'][rng.randint(2)]; batch = 1 if ev == 'sequential' else rng.randint(1, 4)
    small_samples(8 * batch + 20); f = Objective(sp.D, rng)
    clock = Clock(rng); per = float(rng.uniform(.5, 2)); evals = [0]
    real = time.time
    class Obj(object):
        def __call__(self, x): clock.t += per / batch; return f(x)
    fail_at = rng.randint(0, 6) if rng.rand() < .2 else None
    model = make_stub(rng, sp.MD); um = model.updateModel; cnt = [0]
    def upd(*a):
        cnt[0] += 1
        if fail_at is not None and cnt[0] - 1 == fail_at: raise np.linalg.LinAlgError('not positive definite')
        um(*a)
    model.updateModel = upd
    nx = rng.randint(1, 5); X0 = sp.sample(rng, nx); haveY = rng.rand() < .7
    desc.update(describe(sp), evaluator=ev, batch=int(batch), n0=int(nx))
    with LocalSearch(rng, ['mixed', 'inside', 'stay'][rng.randint(3)]):
        bo = build(rng, sp, ev, batch, X=X0.copy(), Y=rng.randn(nx, 1) if haveY else None, objective=Obj(), model=model, update_interval=int(rng.randint(1, 4)), normalize=False)
        ncalls = [0]; ce = bo.evaluator.compute_batch
        sizes = []
        forced = rng.rand() < .3
        def cb(*a, **k):
            ncalls[0] += 1; r = ce(*a, **k)
            if forced and rng.rand() < .4: r = np.array([sp.encode(bo.X[-1])] * len(r))
            sizes.append(len(r)); return r
        bo.evaluator.compute_batch = cb
        time.time = clock.time
        try:
            for rep in range(rng.randint(1, 3)):
                mi = [None, 0, int(rng.randint(0, 6)), int(rng.randint(0, 6))][rng.randint(4)]
                mt = [None, np.inf, float(rng.uniform(0, 6)), 0][rng.randint(4)]
                if mi is None and (mt is None or mt == np.inf):
                    if mt is None: pass
                    else: mt = float(rng.uniform(1, 8))
                eps = [1e-8, -1, 1e-8, float(rng.uniform(0, 2))][rng.randint(4)]
                desc.update(max_iter=mi, max_time=mt, eps=eps, seconds_per_step=per, fail_at=fail_at, rep=rep, what='run'); desc['already'] = len(bo.X)
                first_eval = bo.Y is None; c0 = len(f.calls); n0 = len(bo.X); ncalls[0] = 0; del sizes[:]; u0 = cnt[0]; lin0 = fail_at is not None and cnt[0] <= fail_at
                kw = {}
                if rng.rand() < .2: kw['verbosity'] = True
                t_start = clock.t + (per / batch * n0 if first_eval else 0)
                bo.run_optimization(mi, max_time=mt, eps=eps, **kw)
                steps = ncalls[0]; spent = clock.t - t_start
                lim = 0 if (mi is None and mt is None) else (np.inf if mi is None else mi); tl = np.inf if mt is None else mt
                check(len(bo.X) - n0 == sum(sizes), 'recorded rows %d, suggested %d' % (len(bo.X) - n0, sum(sizes)))
                check(len(f.calls) - c0 == sum(sizes) + (n0 if first_eval else 0), 'evaluations %d' % (len(f.calls) - c0))
                check(steps <= lim, '%d acquisition steps with a budget of %s' % (steps, lim))
                check(bo.num_acquisitions == steps, 'num_acquisitions %s after %d steps' % (bo.num_acquisitions, steps))
                d = np.sqrt(((bo.X[-1] - bo.X[-2]) ** 2).sum()) if len(bo.X) > 1 else np.inf
                numfail = lin0 and cnt[0] == fail_at + 1
                reason = steps >= lim or spent >= tl - 1e-9 or d <= eps or numfail
                check(reason, 'stopped after %d of %s steps, %.3g of %s s, last distance %.3g (tolerance %s), without reason' % (steps, lim, spent, tl, d, eps))
                # it does stop for its reasons: before every step there was none
                k = n0
                for q, sz in enumerate(sizes):
                    dd = np.sqrt(((bo.X[k - 1] - bo.X[k - 2]) ** 2).sum()) if k > 1 else np.inf
                    check(not dd <= eps, 'step %d was taken although the last two points are at distance %g <= %g' % (q, dd, eps))
                    k += sz
                if tl < np.inf: check(steps <= int(np.ceil(tl / per - 1e-9)) + 0, '%d steps of %.3g s in a time budget of %s' % (steps, per, tl))
                if tl == 0: check(steps == 0, 'a zero time budget still evaluated')
                for sz in sizes: check(sz == batch, 'batch of %d' % sz)
                if numfail: break
        except FullyExploredOptimizationDomainError: raise Skip()
        finally: time.time = real
