"""The surrogate sees all data, encoded and normalised."""
from util import *
RULE = 'random spaces, runs with update intervals, constant/affine/large outputs; every update received by a recording surrogate is compared with the history'
SECONDS = 20
def norm_oracle(Y, kind):
    Y = np.asarray(Y, dtype=float)
    if kind == 'stats':
        s = Y.std(); return (Y - Y.mean()) / s if np.ptp(Y) > 0 else Y * 0.
    r = Y.max() - Y.min(); return 2 * ((Y - Y.min()) / r - .5) if r > 0 else Y - Y.min()
def case(rng, i, desc):
    from GPyOpt.util.general import normalize
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    n = rng.randint(1, 12) if rng.rand() < .9 else rng.randint(12, 500); Y = rng.randn(n, 1) * 10. ** rng.randint(-3, 5) + 10. ** rng.randint(-3, 4) * rng.choice([-1, 0, 1])
    if rng.rand() < .25: Y[:] = Y[0]
    if rng.rand() < .2: Y = np.round(Y)
    if rng.rand() < .2: Y = Y.astype(int)
    desc.update(Y=Y.ravel().tolist(), what='normalize')
    for kind in ('stats', 'maxmin'):
        a = [Y.copy(), Y.ravel().copy(), Y.ravel().tolist()][rng.randint(3)]; b = np.array(a, copy=True)
        g = normalize(a, kind); check(np.array_equal(np.asarray(a), b), 'normalize modified its argument')
        if len(set(Y.ravel().tolist())) == 1: check(np.all(np.abs(g) <= 1e-9 * (1 + np.abs(Y).max())) , 'constant data normalised to %s' % np.asarray(g).tolist()); continue
        if np.ptp(Y) > 1e-9 * np.abs(Y).max(): check(np.shape(g) == np.shape(b) and np.all(np.abs(np.asarray(g) - norm_oracle(b, kind)) <= 1e-6), '%s normalisation of %s is %s' % (kind, np.asarray(a).tolist(), np.asarray(g).tolist()))
    try: normalize(Y, 'other')
    except ValueError: pass
    else: raise Violation('unknown normalisation accepted')
    if rng.rand() < .6: return
    sp = gen_space(rng); small_samples(30); X0 = sp.sample(rng, n); f = Objective(sp.D, rng); q = int(rng.randint(1, 4)); nz = bool(rng.rand() < .6)
    desc.update(describe(sp), interval=q, normalize=nz, what='updates'); Y = Y.astype(float)
    with LocalSearch(rng, 'mixed'):
        try:
            ev = ['sequential', 'random', 'local_penalization'][rng.randint(3)]
            bo = build(rng, sp, ev, int(rng.randint(1, 4)) if ev != 'sequential' else 1, X=X0.copy(), Y=Y.copy(), objective=f, update_interval=q, normalize=nz)
            rec = []; u = bo.model.updateModel
            def upd(X, Yt, *a):
                rec.append((bo.num_acquisitions, np.array(X, copy=True), np.array(Yt, copy=True), bo.X.copy(), bo.Y.copy())); return u(X, Yt, *a)
            bo.model.updateModel = upd
            for it in range(rng.randint(1, 3)):
                del rec[:]; k = int(rng.randint(0, 5)); desc['steps'] = k
                if rng.rand() < .3: bo.suggest_next_locations(); exp = [0]
                else: bo.run_optimization(k, eps=-1); exp = [j for j in range(bo.num_acquisitions + 1) if j % q == 0]
                check([r[0] for r in rec] == exp, 'surrogate updated at steps %s instead of %s' % ([r[0] for r in rec], exp))
                for _, X, Yt, HX, HY in rec:
                    check(np.array_equal(X, sp.encode_all(HX)), 'inputs handed to the surrogate are not the encoded history')
                    w = norm_oracle(HY, 'stats') if nz else HY
                    check(Yt.shape == w.shape and np.all(np.abs(Yt - w) <= 1e-6 * (1 + np.abs(w))), 'outputs handed to the surrogate: %s instead of %s' % (Yt.ravel(), w.ravel()))
                check(np.array_equal(bo.Y[:n], Y), 'recorded outputs changed')
        except FullyExploredOptimizationDomainError: raise Skip()
