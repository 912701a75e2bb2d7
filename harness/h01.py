"""Every suggested point is legal, whatever the local search returns."""
from util import *
RULE = 'random mixed/bandit space, evaluator, batch size, acquisition, de-duplication, context and an adversarial local search; every suggestion and every evaluated point is checked against the declaration'
SECONDS = 25
def case(rng, i, desc):
    sp = gen_space(rng, constrained=.25 if i % 3 == 0 else 0)
    ev = ['sequential', 'random', 'thompson_sampling', 'local_penalization'][rng.randint(4)]; batch = 1 if ev == 'sequential' else rng.randint(1, 4) if rng.rand() < .8 else rng.randint(4, 12)
    acq = ['EI', 'MPI', 'LCB'][rng.randint(3)]; dedup = bool(rng.rand() < .3); mode = ['wild', 'mixed', 'inside', 'abnormal'][rng.randint(4)]
    desc.update(describe(sp), evaluator=ev, batch=int(batch), acq=acq, dedup=dedup, mode=mode, what='suggestions')
    small_samples(8 * batch + 20) if rng.rand() < .9 else full_samples()
    design = 'random' if sp.constraints or sp.bandit else ['random', 'latin', 'sobol', 'grid'][rng.randint(4)]
    from GPyOpt.experiment_design import initial_design
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    n = rng.randint(2, 7); X = initial_design(design, sp.build(), n); sp.legal(X, design + ' design')
    real = rng.rand() < .08
    with LocalSearch(rng, mode):
        try:
            obj = Objective(sp.D, rng)
            if real:
                import GPyOpt, copy
                desc['what'] = 'BayesianOptimization'
                at = ['EI', 'MPI', 'LCB'][rng.randint(3)]; maxim = bool(rng.rand() < .5)
                bo = GPyOpt.methods.BayesianOptimization(obj, domain=copy.deepcopy(sp.cfg), constraints=copy.deepcopy(sp.constraints), initial_design_numdata=4, initial_design_type=design, acquisition_type=at, evaluator_type=ev, batch_size=int(batch), de_duplication=dedup, maximize=maxim, max_iters=20, optimize_restarts=1)
                bo.run_optimization(2, eps=-1)
                sp.legal(bo.X, 'evaluated point'); sp.legal(np.array(obj.calls), 'objective argument')
                for r in obj.calls: check(r.shape == (sp.D,), 'objective called with %s' % (r.shape,))
            else:
                ctx = None
                bo = build(rng, sp, ev, batch, acq, dedup, X=X, Y=rng.randn(len(X), 1), objective=obj)
                if not sp.bandit and len(sp.vars) > 1 and rng.rand() < .3:
                    k = rng.randint(len(sp.vars)); ctx = {sp.vars[k][2]: sp.sample(rng, 1)[0][k]}; desc['context'] = ctx
                if rng.rand() < .5: sp.legal(bo.suggest_next_locations(context=ctx), 'suggestion')
                else:
                    it = rng.randint(1, 3); bo.run_optimization(it, eps=-1, context=ctx); sp.legal(bo.X, 'evaluated point')
                    if obj.calls: sp.legal(np.array(obj.calls), 'objective argument')
        except FullyExploredOptimizationDomainError: raise Skip()
