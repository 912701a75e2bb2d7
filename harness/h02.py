"""Encoding to the model space, decoding and rounding."""
from util import *
RULE = 'random spaces; encode/decode/round-trip of legal points, rounding of arbitrary vectors against an independent oracle, bounds'
SECONDS = 15
def case(rng, i, desc):
    if rng.rand() < .03:                                 # one unnamed declaration used for several variables
        from GPyOpt.core.task.space import Design_space
        desc['what'] = 'repeated declaration'; d = [{'type': 'continuous', 'domain': (0, 1)}, {'type': 'discrete', 'domain': (0, 2)}][rng.randint(2)]; k = int(rng.randint(2, 5)); s = Design_space([d] * k)
        check(len(s.space_expanded) == k and len({v.name for v in s.space_expanded}) == k, 'the names of %d unnamed variables: %s' % (k, [v.name for v in s.space_expanded])); check('name' not in d, 'the declaration was changed: %s' % d)
    sp = gen_space(rng, bandit=.2, maxvars=5); s = sp.build(); desc.update(describe(sp)); desc['what'] = 'encoding'
    X = sp.sample(rng, rng.randint(1, 6)); desc['X'] = X.tolist()
    U = s.unzip_inputs(X.copy()); E = sp.encode_all(X)
    check(np.shape(U) == E.shape and np.array_equal(U, E), 'model representation of %s is %s' % (X.tolist(), np.asarray(U).tolist()))
    Z = s.zip_inputs(np.array(U, dtype=float)); check(np.shape(Z) == X.shape and np.array_equal(Z, X), 'round trip of %s gives %s' % (X.tolist(), np.asarray(Z).tolist()))
    check(s.model_dimensionality == E.shape[1] or sp.bandit, 'model dimensionality %s' % s.model_dimensionality)
    if not sp.bandit: check(s.objective_dimensionality == sp.D, 'objective dimensionality %s' % s.objective_dimensionality)
    B = np.array(s.get_bounds(), dtype=float); check(B.shape == (E.shape[1], 2), 'bounds shape %s' % (B.shape,))
    check(np.all(E >= B[:, 0]) and np.all(E <= B[:, 1]), 'encoded points outside the bounds')
    c = 0
    for t, d, nm in sp.vars:
        if t in ('continuous', 'discrete'): check(B[c, 0] == min(d) and B[c, 1] == max(d), 'bounds of %s are %s' % (nm, B[c]))
        if t == 'categorical':
            check(np.array_equal(B[c:c + len(d)], [[0, 1]] * len(d)), 'bounds of the indicators of %s: %s' % (nm, B[c:c + len(d)].tolist()))
        c += d.shape[1] if t == 'bandit' else len(d) if t == 'categorical' else 1
    desc['what'] = 'rounding'
    for _ in range(4):
        w = B[:, 1] - B[:, 0]; v = B[:, 0] + w * rng.uniform(-.6, 1.6, len(B)) if rng.rand() < .8 else rng.uniform(-20, 20, len(B))
        if rng.rand() < .3:        # outside by very little
            v = np.where(rng.rand(len(B)) < .5, B[:, 0] - (1 + w) * 10. ** rng.uniform(-14, -3), B[:, 1] + (1 + w) * 10. ** rng.uniform(-14, -3))
        if rng.rand() < .3:        # ties and exact values
            v = np.round(v * 2) / 2
        a = [v.copy(), v[None, :].copy(), v.tolist()][rng.randint(3)]
        R = np.asarray(s.round_optimum(a), dtype=float)
        check(R.shape == (1, len(B)), 'rounded shape %s' % (R.shape,)); r = R[0]
        for k, c, w in sp.blocks():
            t, d, nm = sp.vars[k]
            if t == 'continuous': check(r[c] == min(max(v[c], d[0]), d[1]), 'rounding %r in %s gives %r' % (v[c], d, r[c]))
            elif t == 'discrete': check(any(r[c] == x for x in d) and all(abs(r[c] - v[c]) <= abs(x - v[c]) for x in d), 'rounding %r to %s gives %r' % (v[c], d, r[c]))
            elif t == 'categorical':
                b = r[c:c + w]; m = v[c:c + w]
                check(sorted(b.tolist()) == [0.] * (w - 1) + [1.] and m[int(np.argmax(b))] == m.max(), 'rounding the indicators %s gives %s' % (m, b))
            else:
                b = r[c:c + w]; ds = np.sqrt(((d - v[c:c + w]) ** 2).sum(1)); j = [q for q in range(len(d)) if np.array_equal(d[q], b)]
                check(j and ds[j[0]] <= ds.min() + 1e-12, 'rounding %s to the arms gives %s' % (v[c:c + w], b))
    for r in E:
        for a in (r.copy(), r[None, :].copy()):
            check(np.array_equal(np.asarray(s.round_optimum(a), dtype=float), r[None, :]), 'rounding changes the legal point %s' % r)
