"""Initial designs."""
from util import *
RULE = 'random spaces, counts and designs: size, legality, grid lattice, Latin slices, rejection of unknown names and of constraints'
SECONDS = 15
def case(rng, i, desc):
    from GPyOpt.experiment_design import initial_design, RandomDesign, GridDesign, LatinDesign, SobolDesign
    from GPyOpt.experiment_design.grid_design import iroot, multigrid
    from GPyOpt.core.errors import InvalidConfigError
    import itertools
    if i % 5 == 0:
        k = int(rng.randint(1, 9)); n = int(rng.randint(1, 10 ** rng.randint(1, 10))); desc.update(k=k, n=n, what='integer root')
        if rng.rand() < .5: b = int(rng.randint(1, 12)); n = max(1, b ** k + int(rng.randint(-1, 2)))
        r = iroot(k, n); check(r ** k <= n < (r + 1) ** k, 'iroot(%d, %d) = %s' % (k, n, r))
    sp = gen_space(rng, bandit=.15, constrained=.2); s = sp.build(); name = ['random', 'latin', 'sobol', 'grid'][rng.randint(4)]
    n = int(rng.randint(1, 40) if rng.rand() < .9 else rng.randint(40, 400)); nc_ = sum(v[0] == 'continuous' for v in sp.vars)
    if name == 'grid' and nc_ and rng.rand() < .5: n = min(4096, int(rng.randint(1, 12)) ** nc_ + int(rng.randint(-1, 2))); n = max(n, 1)
    desc.update(describe(sp), design=name, n=n, what='design')
    ncont = sum(v[0] == 'continuous' for v in sp.vars)
    if rng.rand() < .1:
        for bad in ('', 'Random', 'sobo', 'grids', 'uniform'):
            try: initial_design(bad, s, n)
            except ValueError: continue
            raise Violation('unknown design %r accepted' % bad)
    if sp.constraints and name != 'random':
        try: initial_design(name, s, n)
        except InvalidConfigError: return
        raise Violation('%s design accepted constraints' % name)
    X = np.asarray(initial_design(name, s, n)); sp.legal(X, name + ' design point')
    if sp.constraints: check(np.all(sp.feasible(X)), 'infeasible point in a random design')
    if name == 'grid' and ncont:
        r = 1
        while (r + 1) ** ncont <= n: r += 1
        check(len(X) == r ** ncont, 'grid of %d points instead of %d^%d' % (len(X), r, ncont))
        cols = [k for k, v in enumerate(sp.vars) if v[0] == 'continuous']
        ax = [np.linspace(sp.vars[k][1][0], sp.vars[k][1][1], r) for k in cols]
        want = sorted(itertools.product(*[a.tolist() for a in ax])); got = sorted(map(tuple, X[:, cols].tolist()))
        check(len(got) == len(want) and np.all(np.abs(np.array(got) - np.array(want)) < 1e-9 * (1 + np.abs(np.array(want)))), 'the grid is not the full lattice')
        return
    check(len(X) == n, '%s design of %d points instead of %d' % (name, len(X), n))
    if name == 'latin':
        for k, v in enumerate(sp.vars):
            if v[0] != 'continuous': continue
            lo, hi = v[1]; u = (X[:, k] - lo) / (hi - lo) * n
            check(sorted(np.floor(u).astype(int).tolist()) == list(range(n)), 'coordinate %d has slices %s' % (k, sorted(np.floor(u).astype(int).tolist())))
    if name == 'sobol' and ncont >= 1 and n > 3:
        for k, v in enumerate(sp.vars):
            if v[0] == 'continuous': check(len(set(X[:, k])) > 1, 'Sobol coordinate %d is constant' % k)
    if name == 'random' and n >= 20 and rng.rand() < .3:
        Y = np.asarray(initial_design('random', s, 400))
        for k, v in enumerate(sp.vars):
            if v[0] in ('discrete', 'categorical'): check(set(Y[:, k]) == set(float(q) for q in v[1]), 'values of %s never sampled: %s' % (v[2], set(Y[:, k])))
            if v[0] == 'continuous' and not sp.constraints: check(len(set(Y[:, k])) > 300, 'coordinate %d is not random' % k)
        if sp.bandit and len(sp.vars) == 1: check(set(map(tuple, Y.tolist())) == set(map(tuple, sp.vars[0][1].tolist())), 'arms never sampled')
