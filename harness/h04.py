"""De-duplication."""
from util import *
RULE = 'small discrete/categorical/mixed/bandit spaces, evaluated, pending and ignored points covering part or all of the domain, all evaluators, adversarial local search'
SECONDS = 25
def case(rng, i, desc):
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    from GPyOpt.util.duplicate_manager import DuplicateManager
    r = rng.rand()
    if r < .15: sp = SP(gen_bandit(rng, several=rng.rand() < .5))
    elif r < .75: sp = SP([gen_var(rng, k, ['discrete', 'categorical']) for k in range(rng.randint(1, 3))])
    else: sp = gen_space(rng, bandit=0, maxvars=3)
    import itertools
    allp = None
    if all(v[0] != 'continuous' for v in sp.vars):
        per = [[tuple(a) for a in v[1]] if v[0] == 'bandit' else [(float(x),) for x in v[1]] for v in sp.vars]
        if np.prod([len(p) for p in per]) <= 60: allp = [sum(t, ()) for t in itertools.product(*per)]
    if allp is not None:
        perm = [allp[q] for q in rng.permutation(len(allp))]
        left = rng.randint(0, min(4, len(perm)))
        use = perm[left:] if rng.rand() < .7 else perm[:max(1, rng.randint(1, len(perm) + 1))]
    else: use = [tuple(x) for x in sp.sample(rng, rng.randint(2, 6))]
    if not use: raise Skip()
    cut = sorted(rng.randint(0, len(use) + 1, 2)); A, P, G = use[:max(1, cut[0])], use[max(1, cut[0]):max(1, cut[1])], use[max(1, cut[1]):]
    arr = lambda L: np.array(L, dtype=float).reshape(len(L), sp.D) if L else (None if rng.rand() < .7 else np.zeros((0, sp.D)))
    ex = set(map(tuple, use)); done = allp is not None and set(allp) <= ex
    desc.update(describe(sp), evaluated=A, pending=P, ignored=G, what='duplicate manager')
    Pm, Gm = arr(P), arr(G); s = sp.build()
    dm = DuplicateManager(s, np.array(A, dtype=float), Pm, Gm)
    for t in use: 
        check(dm.is_zipped_x_duplicate(np.array(t)), '%s is not recognised as excluded' % (t,)); check(dm.is_unzipped_x_duplicate(sp.encode(np.array(t))), '%s (encoded) is not recognised as excluded' % (t,))
    for t in sp.sample(rng, 5):
        check(bool(dm.is_zipped_x_duplicate(t)) == (tuple(t) in ex), 'wrong answer for %s' % t); check(bool(dm.is_unzipped_x_duplicate(sp.encode(t))) == (tuple(t) in ex), 'wrong answer for the encoding of %s' % t)
    ev = ['sequential', 'random', 'thompson_sampling', 'local_penalization'][rng.randint(4)]; batch = 1 if ev == 'sequential' else rng.randint(1, 5)
    mode = ['mixed', 'stay', 'wild'][rng.randint(3)]; desc.update(evaluator=ev, batch=int(batch), mode=mode, what='suggestions')
    small_samples(8 * batch + 60) if rng.rand() < .95 else full_samples()
    with LocalSearch(rng, mode):
        bo = build(rng, sp, ev, batch, ['EI', 'LCB', 'MPI'][rng.randint(3)], True, X=np.array(A, dtype=float), Y=rng.randn(len(A), 1), objective=Objective(sp.D, rng))
        ctx = None
        if not sp.bandit and len(sp.vars) > 1 and rng.rand() < .2:
            k = rng.randint(len(sp.vars)); ctx = {sp.vars[k][2]: sp.sample(rng, 1)[0][k]}; desc['context'] = {a: float(b) for a, b in ctx.items()}
        if rng.rand() < .25 and ctx is None:
            # within a run nothing is pending or ignored: no evaluated point comes back
            desc['what'] = 'run'; it = rng.randint(1, 4); n = len(bo.X)
            try: bo.run_optimization(it, eps=-1)
            except FullyExploredOptimizationDomainError: pass
            if ev == 'local_penalization':
                j = n
                while j < len(bo.X):
                    old = set(map(tuple, bo.X[:j].tolist()))
                    for r in bo.X[j:j + batch].tolist(): check(tuple(r) not in old, 'the run re-evaluates %s' % r)
                    j += batch
            elif ev in ('random', 'thompson_sampling') or batch == 1:
                seen = set(map(tuple, bo.X[:n].tolist()))
                for r in bo.X[n:].tolist():
                    check(tuple(r) not in seen, 'the run re-evaluates %s' % r); seen.add(tuple(r))
            return
        try: S = np.asarray(bo.suggest_next_locations(context=ctx, pending_X=Pm, ignored_X=Gm))
        except FullyExploredOptimizationDomainError:
            return
        check(not done, 'everything is excluded, yet %s is suggested' % S.tolist())
        for t in S: check(tuple(t) not in ex, 'excluded point %s is suggested again' % t.tolist())
        if ev in ('random', 'thompson_sampling'): check(distinct_rows(S), 'repeated points in the batch %s' % S.tolist())
