"""Entropy search: the belief over the minimum."""
from util import *
from scipy.stats import norm
RULE = 'random posterior means and covariances (1 to 9 points; correlated, independent, tied, widely and narrowly spread) given to joint_min; entropy search over real Gaussian-process surrogates with the chain sampler and with samplers giving log values of minus infinity, plus infinity or NaN'
SECONDS = 20
def belief(P, D, what):
    p = np.exp(P); check(P.shape == (D,), '%s: shape %s for %d points' % (what, P.shape, D)); check(np.all(np.isfinite(P)), '%s: log-probabilities %s' % (what, P)); check(abs(p.sum() - 1) < 1e-8, '%s: probabilities sum to %r' % (what, p.sum()))
def case(rng, i, desc):
    from GPyOpt.util.epmgp import joint_min
    if i % 4 and rng.rand() < .25:      # arbitrary log-probabilities from the expectation propagation
        import GPyOpt.util.epmgp as ep
        D = int(rng.randint(1, 8)); V = rng.randn(D) * 10. ** rng.uniform(-1, 1.5) - 10. ** rng.uniform(-1, 2.9)
        if rng.rand() < .3: V[rng.randint(D)] = -np.inf
        desc.update(what='joint_min over given factors', D=D, values=V.tolist()); box = {'used': 0}
        def factor(Mu, Sigma, k, gamma=1):
            box['used'] += 1; yield V[k]; yield .1 * np.ones((D, 1)); yield np.zeros((D, D)); yield .1 * np.ones((D * (D + 1) // 2, 1)); yield [0., 1.]
        old = getattr(ep, 'min_faktor', None); ep.min_faktor = factor
        try: P = ep.joint_min(rng.randn(D), np.eye(D)); R = ep.joint_min(rng.randn(D), np.eye(D), with_derivatives=True)
        except (TypeError, AttributeError, ValueError): raise Skip()      # the factors are computed in another way
        finally: ep.min_faktor = old
        if box['used'] != 2 * D: raise Skip()
        belief(P, D, 'belief'); belief(R[0], D, 'belief with derivatives'); check(close(P, R[0]), 'the belief depends on whether derivatives are asked for')
        return
    if i % 4:
        D = int(rng.randint(1, 10)); sc = 10 ** rng.uniform(-2, 2); mu = rng.randn(D) * sc; A = rng.randn(D, D + 2); V = A.dot(A.T) / D * 10 ** rng.uniform(-2, 1) + 1e-6 * np.eye(D)
        if rng.rand() < .3: V = np.diag(np.diag(V))
        if rng.rand() < .2 and D > 1: mu[1] = mu[0]
        if rng.rand() < .2 and D > 1: mu[-1] = mu.min() + 100 * np.sqrt(V.max())
        desc.update(what='joint_min', D=D, mu=mu.tolist(), var=V.tolist()); m0, V0 = mu.copy(), V.copy()
        l = joint_min(mu, V); r = joint_min(mu, V, with_derivatives=True)
        check(np.array_equal(mu, m0) and np.array_equal(V, V0), 'the arguments are changed')
        belief(l, D, 'belief'); belief(r[0], D, 'belief with derivatives'); check(np.allclose(l, r[0], rtol=1e-9, atol=1e-9), 'the belief depends on whether derivatives are asked for')
        check([x.shape for x in r[1:]] == [(D, D), (D, D * (D + 1) // 2), (D, D, D)], 'derivative shapes %s for %d points' % ([x.shape for x in r[1:]], D))
        if D == 2:
            z = (mu[1] - mu[0]) / np.sqrt(V[0, 0] + V[1, 1] - 2 * V[0, 1])
            if abs(z) < 5: check(abs(np.exp(l[0]) - norm.cdf(z)) < 1e-5, 'two points: probability %s instead of %s' % (np.exp(l[0]), norm.cdf(z)))
        if D == 1: check(abs(l[0]) < 1e-12, 'a single point is not the minimum with probability one')
        return
    import GPyOpt
    from GPyOpt.models import GPModel
    from GPyOpt.acquisitions import AcquisitionEntropySearch
    from GPyOpt.util.mcmc_sampler import AffineInvariantEnsembleSampler, McmcSampler
    d = int(rng.randint(1, 4)); sp = GPyOpt.Design_space([{'name': 'v%d' % q, 'type': 'continuous', 'domain': (-1, 2)} for q in range(d)])
    X = rng.uniform(-1, 2, (5, d)); Y = np.sin(X.sum(1))[:, None]; M = GPModel(max_iters=20, optimize_restarts=1, verbose=False); M.updateModel(X, Y, None, None)
    n = 2 * int(rng.randint(d + 1, 9)); kind = ['chain', 'minus infinity', 'invalid'][rng.randint(3)]; desc.update(what='entropy search (%s)' % kind, d=d, n=n, X=X.tolist())
    real = AffineInvariantEnsembleSampler(sp); box = {}
    class NoDensity(Exception): pass                    # every sample has density zero: outside the statement
    class Sampler(McmcSampler):
        def get_samples(self, k, f, burn_in_steps=50):
            if kind == 'chain': P, L = real.get_samples(k, f, burn_in_steps)
            else:
                P = rng.uniform(-1, 2, (k, d)); L = rng.randn(k, 1)
                if kind == 'minus infinity': L[rng.rand(k) < .4] = -np.inf; L[rng.randint(k)] = .5
                else: L[rng.randint(k)] = [np.nan, np.inf][rng.randint(2)]
            check(k == n and P.shape == (k, d) and len(L) == k, 'sampler: %s samples of shape %s' % (k, P.shape)); box['P'], box['L'] = P.copy(), L.copy()
            if np.all(np.isneginf(L)): raise NoDensity
            return P, L
    A = AcquisitionEntropySearch(M, sp, Sampler(sp), num_representer_points=n, num_samples=20, burn_in_steps=8)
    if kind == 'invalid':
        try: A._update_parameters()
        except RuntimeError: return
        raise Violation('log values %s were accepted' % box['L'].ravel())
    q = rng.uniform(-1, 2, (3, d))
    try: v = np.asarray(A._compute_acq(q))
    except NoDensity: return
    check(v.shape == (3, 1) and np.all(np.isfinite(v)), 'value at three points: %s' % v)
    P, L = A.repr_points, np.asarray(A.repr_points_log); keep = ~np.isneginf(box['L'].ravel()); m = int(keep.sum())
    check(len(P) == m and len(L) == m, '%d representer points and %d log values for %d samples of positive density' % (len(P), len(L), m))
    have = sorted(map(tuple, np.hstack([P, L.reshape(m, 1)]).tolist())); want = sorted(map(tuple, np.hstack([box['P'], box['L'].reshape(-1, 1)])[keep].tolist())); check(have == want, 'representer points are not the samples of positive density with their log values')
    check(A.logP.shape == (m, 1), 'belief of shape %s for %d points' % (A.logP.shape, m)); belief(A.logP[:, 0], m, 'belief of the acquisition')
    check(A.dlogPdMu.shape == (m, m) and A.dlogPdSigma.shape == (m, m * (m + 1) // 2) and A.dlogPdMudMu.shape == (m, m, m), 'derivative shapes')
    mu = M.predict(P)[0].ravel(); l = joint_min(mu, M.predict_covariance(P)); check(np.allclose(l, A.logP[:, 0], atol=1e-6), 'the belief is not the one at the representer points')
    if not all(hasattr(A, a) for a in ('W', 'dlogPdMu', 'dlogPdSigma', 'dlogPdMudMu')): return
    W = np.asarray(A.W).reshape(1, -1); low = np.tril_indices(m)
    for j in range(3):          # the predicted beliefs, normalised one by one
        sd = M.predict(q[j:j + 1], with_noise=False)[1]; dm = np.asarray(M.model.posterior.covariance_between_points(M.model.kern, M.model.X, P, q[j:j + 1])).reshape(m, 1) / sd; dv = -dm.dot(dm.T)
        F = A.logP.reshape(m, 1) + A.dlogPdSigma.dot(dv[low][:, None]) + .5 * np.einsum('ijk,jk->i', A.dlogPdMudMu, dm.dot(dm.T))[:, None] + A.dlogPdMu.dot(dm).dot(W)
        mx = F.max(0); lse = mx + np.log(np.exp(F - mx).sum(0))
        if not np.all(np.isfinite(lse)) or np.abs(F).max() > 1e6: continue
        F = F - lse; want = np.mean((np.exp(F) * (F + L.reshape(m, 1))).sum(0)); check(np.allclose(v[j, 0], want, rtol=1e-6, atol=1e-6), 'value %s at %s; the expected information of the normalised predicted beliefs is %s' % (v[j, 0], q[j], want))
