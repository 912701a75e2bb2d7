"""Named options and configuration."""
from util import *
import json, copy, tempfile, os
RULE = 'every documented option name with random parameters, unknown names, random nested configurations'
SECONDS = 20; MIN = 60
def rejected(f, what):
    try: f()
    except Exception as e:
        check(not isinstance(e, (AttributeError, NameError, UnboundLocalError)), '%s: %s: %s' % (what, type(e).__name__, e)); return
    raise Violation('%s was accepted' % what)
def merge(new, default):
    out = copy.deepcopy(default)
    for k, v in new.items():
        out[k] = merge(v, default[k]) if isinstance(v, dict) and isinstance(default.get(k), dict) else copy.deepcopy(v)
    return out
def rand_cfg(rng, default, depth=0):
    out = {}
    for k, v in default.items():
        if rng.rand() < .55: continue
        if isinstance(v, dict): out[k] = rand_cfg(rng, v, depth + 1)
        else: out[k] = [3, 'x%d' % rng.randint(9), 2.5, None, [1, 2], True, {'a': 1}, {'a': {'b': 2}}, 0, False, '', [], {}][rng.randint(13)]
    if rng.rand() < .3: out['extra%d' % rng.randint(3)] = [1, {'a': 1, 'b': {'c': 2}}][rng.randint(2)]
    return out
def rand_tree(rng, depth=0):
    return {'k%d' % j: (rand_tree(rng, depth + 1) if depth < 3 and rng.rand() < .4 else int(rng.randint(100))) for j in range(rng.randint(1, 5))}
def case(rng, i, desc):
    import GPyOpt
    from GPyOpt.util.arguments_manager import ArgumentsManager
    from GPyOpt.interface import config_parser as CP
    from GPyOpt.models import GPModel, GPModel_MCMC, WarpedGPModel, InputWarpedGPModel, RFModel, select_model
    import GPyOpt.acquisitions as AC
    from GPyOpt.core import evaluators as EV
    from GPyOpt.optimization.optimizer import choose_optimizer, OptLbfgs, OptDirect, OptCma
    from GPyOpt.experiment_design import initial_design
    from GPyOpt.core.errors import InvalidConfigError
    which = i % 7
    if which == 0:
        desc['what'] = 'configuration merging'
        D = copy.deepcopy(CP.default_config) if rng.rand() < .6 else rand_tree(rng); new = rand_cfg(rng, D); desc.update(new=new)
        n0 = copy.deepcopy(new); want = merge(new, D)
        got = CP.update_config(copy.deepcopy(new), copy.deepcopy(D)); check(got == want, 'merged configuration %s instead of %s' % (got, want))
        base = copy.deepcopy(CP.default_config); new = rand_cfg(rng, base)
        d = tempfile.mkdtemp(prefix='vp16'); p = os.path.join(d, 'c.json')
        try:
            with open(p, 'w') as f: json.dump(new, f)
            o = CP.parser(p); new = json.loads(json.dumps(new))
            check(o == merge(new, base), 'parsed configuration %s instead of %s' % (o, merge(new, base))); check(CP.default_config == base, 'the defaults were changed by parsing')
            o.setdefault('model', {})
            if isinstance(o['model'], dict): o['model']['type'] = 'CHANGED'
            check(CP.default_config == base, 'the defaults share state with the parsed configuration')
        finally:
            os.unlink(p) if os.path.exists(p) else None; os.rmdir(d)
        rejected(lambda: CP.parser(os.path.join(d, 'missing.json')), 'a missing configuration file')
    elif which == 1:
        desc['what'] = 'surrogates'; sp = gen_space(rng, bandit=0); s = sp.build(); kw = {}
        for k, v in (('ARD', True), ('noise_var', .25), ('model_optimizer_type', 'bfgs'), ('max_iters', 17), ('optimize_restarts', 3), ('num_inducing', 7), ('n_samples', 4), ('n_burnin', 9), ('subsample_interval', 3), ('step_size', .02), ('leapfrog_steps', 5), ('verbosity_model', True)):
            if rng.rand() < .5: kw[k] = v
        exact = bool(rng.rand() < .5); desc.update(kwargs=kw, exact=exact); am = ArgumentsManager(kw)
        for nm in ('GP', 'sparseGP'):
            m = am.model_creator(nm, exact, s); check(type(m) is GPModel, '%s gives %s' % (nm, type(m)))
            for a, k, dflt in (('ARD', 'ARD', False), ('noise_var', 'noise_var', None), ('optimizer', 'model_optimizer_type', 'lbfgs'), ('max_iters', 'max_iters', 1000), ('optimize_restarts', 'optimize_restarts', 5), ('num_inducing', 'num_inducing', 10), ('verbose', 'verbosity_model', False)): check(getattr(m, a) == kw.get(k, dflt), '%s: %s is %r' % (nm, a, getattr(m, a)))
            check(m.sparse == (nm == 'sparseGP') and m.exact_feval == exact, '%s: sparse %s, exact %s' % (nm, m.sparse, m.exact_feval))
        m = am.model_creator('GP_MCMC', exact, s); check(type(m) is GPModel_MCMC, 'GP_MCMC gives %s' % type(m))
        for a, k, dflt in (('n_samples', 'n_samples', 10), ('n_burnin', 'n_burnin', 100), ('subsample_interval', 'subsample_interval', 10), ('step_size', 'step_size', .1), ('leapfrog_steps', 'leapfrog_steps', 20), ('noise_var', 'noise_var', None), ('verbose', 'verbosity_model', False)): check(getattr(m, a) == kw.get(k, dflt), 'GP_MCMC: %s is %r' % (a, getattr(m, a)))
        check(m.exact_feval == exact, 'GP_MCMC: exact')
        check(type(am.model_creator('warpedGP', exact, s)) is WarpedGPModel, 'warpedGP'); m = am.model_creator('input_warped_GP', exact, s); check(type(m) is InputWarpedGPModel, 'input_warped_GP')
        for a, k, dflt in (('ARD', 'ARD', False), ('noise_var', 'noise_var', None), ('optimizer', 'model_optimizer_type', 'lbfgs'), ('max_iters', 'max_iters', 1000), ('optimize_restarts', 'optimize_restarts', 5), ('verbose', 'verbosity_model', False)): check(getattr(m, a) == kw.get(k, dflt), 'input_warped_GP: %s is %r' % (a, getattr(m, a)))
        for bad in ('gp', 'GPX', '', 'InputWarped'): rejected(lambda: am.model_creator(bad, exact, s), 'surrogate name %r' % bad)
        for nm, c in (('GP', GPModel), ('GP_MCMC', GPModel_MCMC), ('RF', RFModel), ('warpGP', WarpedGPModel)): check(select_model(nm) is c, 'select_model(%s)' % nm)
        for bad in ('gp', 'GPX', ''): rejected(lambda: select_model(bad), 'select_model name %r' % bad)
    elif which == 2:
        desc['what'] = 'acquisitions'; sp = gen_space(rng); s = sp.build(); kw = {}
        if rng.rand() < .6: kw['acquisition_jitter'] = [0, 0., float(rng.rand())][rng.randint(3)]
        if rng.rand() < .6: kw['acquisition_weight'] = [0, 0., float(rng.rand() * 5)][rng.randint(3)]
        am = ArgumentsManager(kw); m = make_stub(rng, sp.MD); mm = make_stub(rng, sp.MD, 2); cost = lambda x: (2 * np.ones((len(x), 1)), np.zeros(x.shape)); o = object(); desc.update(kwargs=kw)
        for nm, c, mc in ((None, 'EI', 0), ('EI', 'EI', 0), ('MPI', 'MPI', 0), ('LCB', 'LCB', 0), ('EI_MCMC', 'EI_MCMC', 1), ('MPI_MCMC', 'MPI_MCMC', 1), ('LCB_MCMC', 'LCB_MCMC', 1)):
            a = am.acquisition_creator(nm, mm if mc else m, s, o, cost); check(type(a) is getattr(AC, 'Acquisition' + c), '%s gives %s' % (nm, type(a)))
            check(a.model is (mm if mc else m) and a.space is s and a.optimizer is o, '%s: components' % nm)
            if 'LCB' in c: check(a.exploration_weight == kw.get('acquisition_weight', 2), '%s: weight %s' % (nm, a.exploration_weight)); X = np.zeros((2, sp.MD)); check(np.all(a.cost_withGradients(X)[0] == 1), '%s uses the cost' % nm)
            else: check(a.jitter == kw.get('acquisition_jitter', .01), '%s: jitter %s' % (nm, a.jitter)); check(a.cost_withGradients is cost, '%s: cost' % nm)
        for bad in ('ei', 'UCB', '', 'EI_MC'): rejected(lambda: am.acquisition_creator(bad, m, s, o, cost), 'acquisition name %r' % bad); rejected(lambda: AC.select_acquisition(bad), 'select_acquisition name %r' % bad)
        for nm, c in (('EI', 'EI'), ('EI_MCMC', 'EI_MCMC'), ('LCB', 'LCB'), ('LCB_MCMC', 'LCB_MCMC'), ('MPI', 'MPI'), ('MPI_MCMC', 'MPI_MCMC'), ('LP', 'LP'), ('ES', 'EntropySearch')): check(AC.select_acquisition(nm) is getattr(AC, 'Acquisition' + c), 'select_acquisition(%s)' % nm)
        j = float(rng.rand()); check(AC.AcquisitionEI.fromConfig(m, s, o, cost, {'jitter': j}).jitter == j and AC.AcquisitionEI.fromConfig(m, s, o, cost, {'jitter': 0}).jitter == 0 and AC.AcquisitionMPI.fromConfig(m, s, o, cost, {'jitter': 0}).jitter == 0 and AC.AcquisitionMPI.fromConfig(m, s, o, cost, {'jitter': j}).jitter == j, 'jitter from a configuration')
    elif which == 3:
        desc['what'] = 'evaluators'; sp = gen_space(rng); s = sp.build(); tr = ['none', 'softplus'][rng.randint(2)]; kw = {'acquisition_transformation': tr} if rng.rand() < .6 else {}
        am = ArgumentsManager(kw); m = make_stub(rng, sp.MD); o = object(); a = AC.AcquisitionEI(m, s, o); b = int(rng.randint(2, 6)); desc.update(kwargs=kw, batch=b)
        check(type(am.evaluator_creator('sequential', a, b, 'GP', m, s, o)) is EV.Sequential, 'sequential')
        for nm in ('sequential', 'random', 'thompson_sampling', 'local_penalization', None): check(type(am.evaluator_creator(nm, a, 1, 'GP', m, s, o)) is EV.Sequential, 'batch size one with %s' % nm)
        for nm, c in (('random', EV.RandomBatch), (None, EV.RandomBatch), ('thompson_sampling', EV.ThompsonBatch), ('local_penalization', EV.LocalPenalization)):
            e = am.evaluator_creator(nm, a, b, 'GP', m, s, o); check(type(e) is c and e.batch_size == b, '%s gives %s of size %s' % (nm, type(e), e.batch_size))
            if c is EV.LocalPenalization: L = e.acquisition; check(type(L) is AC.AcquisitionLP and L.acq is a and L.optimizer is o and L.model is m and L.transform == kw.get('acquisition_transformation', 'none'), 'local penalization of the given acquisition')
            else: check(e.acquisition is a, '%s: acquisition' % nm)
        L = AC.AcquisitionLP(m, s, o, a); check(am.evaluator_creator('local_penalization', L, b, 'GP', m, s, o).acquisition is L, 'a penalised acquisition given by the user')
        for t in ('RF', 'input_warped_GP'): rejected(lambda: am.evaluator_creator('local_penalization', a, b, t, m, s, o), 'local penalization with %s' % t)
        for bad in ('Random', 'lp', '', 'thompson'): rejected(lambda: am.evaluator_creator(bad, a, b, 'GP', m, s, o), 'evaluator name %r' % bad); rejected(lambda: EV.select_evaluator(bad), 'select_evaluator name %r' % bad)
        for nm, c in (('sequential', EV.Sequential), ('random', EV.RandomBatch), ('local_penalization', EV.LocalPenalization), ('thompson_sampling', EV.ThompsonBatch)): check(EV.select_evaluator(nm) is c, 'select_evaluator(%s)' % nm)
    elif which == 4:
        desc['what'] = 'local optimizers and variable types'; B = [(0., 1.), (-2., float(rng.rand()))]
        for nm, c in (('lbfgs', OptLbfgs), ('DIRECT', OptDirect), ('CMA', OptCma)): o = choose_optimizer(nm, B); check(type(o) is c and o.bounds == B, '%s gives %s with bounds %s' % (nm, type(o), getattr(o, 'bounds', None)))
        for bad in ('LBFGS', 'direct', '', 'cma-es'): rejected(lambda: choose_optimizer(bad, B), 'optimizer name %r' % bad)
        from GPyOpt.core.task import variables as VV
        for t, c, dom in (('continuous', VV.ContinuousVariable, (0, 1)), ('discrete', VV.DiscreteVariable, (0, 2)), ('categorical', VV.CategoricalVariable, (0, 1)), ('bandit', VV.BanditVariable, [(0, 1), (1, 1)])):
            v = VV.create_variable({'name': 'q', 'type': t, 'domain': dom}); check(type(v) is c and v.name == 'q' and v.type == t and np.array_equal(v.domain, dom), '%s gives %s' % (t, type(v)))
        for bad in ('Continuous', 'cat', '', 'integer'): rejected(lambda: VV.create_variable({'name': 'q', 'type': bad, 'domain': (0, 1)}), 'variable type %r' % bad)
        from GPyOpt.core.task.space import Design_space
        rejected(lambda: Design_space([{'name': 'a', 'type': 'bandit', 'domain': [(0, 1)]}, {'name': 'b', 'type': 'continuous', 'domain': (0, 1)}]), 'bandits mixed with other types'); rejected(lambda: Design_space([{'name': 'a', 'type': 'continuous'}]), 'a variable without domain')
        sp = gen_space(rng, bandit=0); 
        if sp.vars: rejected(lambda: sp.build().find_variable('nosuchvariable'), 'unknown variable name'); v = sp.vars[rng.randint(len(sp.vars))]; check(sp.build().find_variable(v[2]).name == v[2], 'find_variable(%s)' % v[2])
    elif which == 5:
        desc['what'] = 'the optimizer built from names'; sp = gen_space(rng, bandit=0, maxvars=3); kw = {}
        mt = ['GP', 'sparseGP', 'GP_MCMC'][rng.randint(3)]; at = ['EI', 'MPI', 'LCB'][rng.randint(3)]; at = at + '_MCMC' if mt == 'GP_MCMC' else at
        if rng.rand() < .5: kw['acquisition_jitter'] = [.125, 0][rng.randint(2)]
        if rng.rand() < .5: kw['acquisition_weight'] = [3.5, 0][rng.randint(2)]
        ev = ['sequential', 'random', 'thompson_sampling', 'local_penalization'][rng.randint(4)]; b = int(rng.randint(1, 4)); ot = ['lbfgs', 'CMA', 'DIRECT'][rng.randint(3)]; nz = bool(rng.rand() < .5); q = int(rng.randint(1, 4)); dd = bool(rng.rand() < .5); nc = int(rng.randint(1, 4)); ini = ['random', 'latin', 'sobol'][rng.randint(3)]; n = int(rng.randint(1, 6)); ex = bool(rng.rand() < .5)
        desc.update(describe(sp), model=mt, acq=at, evaluator=ev, batch=b, kwargs=kw)
        X0, Y0 = sp.sample(rng, 3), rng.randn(3, 1)
        bo = GPyOpt.methods.BayesianOptimization(lambda x: np.zeros((len(x), 1)), domain=copy.deepcopy(sp.cfg), X=X0, Y=Y0, model_type=mt, acquisition_type=at, evaluator_type=ev, batch_size=b, acquisition_optimizer_type=ot, normalize_Y=nz, model_update_interval=q, de_duplication=dd, num_cores=nc, exact_feval=ex, **kw)
        check(type(bo.model) is {'GP': GPModel, 'sparseGP': GPModel, 'GP_MCMC': GPModel_MCMC}[mt] and bo.model.exact_feval == ex, 'surrogate %s' % type(bo.model))
        A = bo.acquisition; check(type(A) is getattr(AC, 'Acquisition' + at) and A.model is bo.model and A.space is bo.space, 'acquisition %s' % type(A))
        if 'LCB' in at: check(A.exploration_weight == kw.get('acquisition_weight', 2), 'weight')
        else: check(A.jitter == kw.get('acquisition_jitter', .01), 'jitter')
        e = bo.evaluator; want = EV.Sequential if b == 1 else {'sequential': EV.Sequential, 'random': EV.RandomBatch, 'thompson_sampling': EV.ThompsonBatch, 'local_penalization': EV.LocalPenalization}[ev]
        check(type(e) is want and e.batch_size == (1 if want is EV.Sequential else b), 'evaluator %s of size %s' % (type(e), e.batch_size)); check(A.optimizer.optimizer_name == ot, 'optimizer %s' % A.optimizer.optimizer_name)
        check(bo.normalize_Y == nz and bo.model_update_interval == q and bo.de_duplication == dd and bo.objective.n_procs == nc, 'settings: normalize %s, interval %s, dedup %s, cores %s' % (bo.normalize_Y, bo.model_update_interval, bo.de_duplication, bo.objective.n_procs))
        for k, bad in (('model_type', 'XX'), ('acquisition_type', 'XX'), ('evaluator_type', 'XX')):
            a = dict(model_type='GP', acquisition_type='EI', evaluator_type='random', batch_size=2); a[k] = bad; rejected(lambda: GPyOpt.methods.BayesianOptimization(lambda x: x, domain=copy.deepcopy(sp.cfg), X=X0, Y=Y0, **a), '%s=%r' % (k, bad))
        rejected(lambda: GPyOpt.methods.BayesianOptimization(None, domain=copy.deepcopy(sp.cfg)), 'no objective and no data')
    else:
        desc['what'] = 'configuration driver'
        from GPyOpt.interface import BODriver
        import warnings
        cfg = copy.deepcopy(CP.default_config); cfg['space'] = [{'name': 'x', 'type': 'continuous', 'domain': '(-1,%d)' % rng.randint(1, 4), 'dimensionality': '%d' % rng.randint(1, 3) if rng.rand() < .5 else 2}]
        d = BODriver(copy.deepcopy(cfg), lambda x: (x ** 2).sum(1)[:, None])
        s = d._get_space(); check(s.dimensionality == int(cfg['space'][0]['dimensionality']) and all(v.domain == eval(cfg['space'][0]['domain']) for v in s.space_expanded), 'space from a configuration')
        d2 = BODriver(copy.deepcopy(cfg), None); d2.config['constraints'] = [{'name': 'c', 'constraint': 'x[:,0] - 5'}, {'name': 'd', 'constraint': 'x[:,0] - .25'}][:rng.randint(1, 3)]; k = len(d2.config['constraints']); s2 = d2._get_space()
        check(s.constraints is None and s2.has_constraints() and np.ravel(s2.indicator_constraints(np.full((1, s2.dimensionality), .5)))[0] == (k == 1), 'the constraints of a configuration')
        for kind in ('EI', 'MPI'):
            d.config['acquisition']['type'] = kind; d.config['acquisition']['jitter'] = .3; a = d._get_acquisition(make_stub(rng, s.model_dimensionality), s); check(type(a) is getattr(AC, 'Acquisition' + kind) and a.jitter == .3 and a.optimizer.optimizer_name == 'lbfgs', 'acquisition from a configuration')
            e = d._get_acq_evaluator(a); check(type(e) is EV.Sequential and e.acquisition is a, 'evaluator from a configuration')
        m = d._get_model(); check(type(m) is GPModel and m.num_inducing == 10, 'model from a configuration')
        for it, el, cv, want in ((5, 0, 1, False), (20, 0, 1, True), (21, 0, 1, True), (5, 0, 0, True)): check(bool(d._check_stop(it, el, cv)) == want, 'stopping rule of the driver at %s' % ((it, el, cv),))
        d.config['resources']['max-run-time'] = 2; check(d._check_stop(1, 121, 1) and not d._check_stop(1, 119, 1), 'run time of the driver in minutes'); d.config['resources']['maximum-iterations'] = 'NA'; check(not d._check_stop(1000, 1, 1), 'NA iterations')
        try: BODriver(dict(copy.deepcopy(cfg), resources={'maximum-iterations': 0, 'max-run-time': 'NA', 'cores': 1, 'tolerance': 1e-8}, initialization={'type': 'random', 'num-eval': 3}, model={'type': 'GP', 'num_inducing': 10, 'optimize_restarts': 1, 'max_iters': 2, 'verbose': False}), lambda x: (x ** 2).sum(1)[:, None]).run()
        except TypeError as e:
            if 'unfold_args' in str(e): raise Violation('a run from a configuration file raises %s' % e, 'driver_unfold_args')
            raise
