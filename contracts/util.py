"""Contracts of GPyOpt/util/general.py and of the result computation."""
from .lib import *
G = 'GPyOpt.util.general.'

# --- best_value: running minimum
def s_best(I):
    n = integer(I, 'n', 1); return [column(I, n)]
def p_best(I, em, a, r):
    Y = a[0]; n = Y.shape[0]
    em('one entry per evaluation', zand(r.ndim == 1, zeq(r.shape[0], n)))
    em.forall([n, n], lambda i, j: zimp(zle(j, i), zle(r.data(i), Y.data(j, 0))), 'entry i is at most each of the first i+1 outputs')
    em.forall([n], lambda i: exists(I, 'Int', lambda k: zand(0 <= k, k <= i, zeq(r.data(i), Y.data(k, 0)))), 'entry i is one of the first i+1 outputs')
best_value = Contract(G + 'best_value', s_best, p_best)

# --- _compute_results
def s_res(I):
    n = integer(I, 'n', 1); D = integer(I, 'D', 1)
    bo = newobj(I, 'GPyOpt.core.bo.BO', X=mat(I, n, D), Y=column(I, n)); bo.ghost = (bo.fields['X'], bo.fields['Y'], mk(I, (n, D), bo.fields['X'].data, row=bo.fields['X'].row), mk(I, (n, 1), bo.fields['Y'].data))
    return [bo]
def p_res(I, em, a, r):
    bo = a[0]; X, Y, X0, Y0 = bo.ghost; n, D = X0.shape
    em('the history objects stay', bo.fields['X'] is X and bo.fields['Y'] is Y)
    em.forall([n, D], lambda i, j: zeq(X.data(i, j), X0.data(i, j)), 'the inputs are unchanged')
    em.forall([n], lambda i: zeq(Y.data(i, 0), Y0.data(i, 0)), 'the outputs are unchanged')
    summary(I, em, bo, X0, Y0)
def summary(I, em, bo, X0, Y0):
    n, D = X0.shape
    fx = bo.fields['fx_opt']; xo = as_arr(I, bo.fields['x_opt']); T = bo.fields['Y_best']
    em.forall([n], lambda i: zle(NP.scalar_of(fx), Y0.data(i, 0)), 'optimal value: no recorded output is smaller')
    em('optimal value: one of the recorded outputs', exists(I, 'Int', lambda k: zand(0 <= k, k < n, zeq(NP.scalar_of(fx), Y0.data(k, 0)))))
    em('optimal input: one row', zand(zeq(xo.shape[-1], D), True if xo.ndim == 1 else zeq(xo.shape[0], 1)))
    v = NP.vecterm(I, xo)
    em('optimal input: recorded, and its output is the optimal value', exists(I, 'Int', lambda k: zand(0 <= k, k < n, zeq(v, X0.row(k)), zeq(NP.scalar_of(fx), Y0.data(k, 0)))))
    em('trace: one entry per evaluation', zeq(T.shape[0], n))
    em.forall([n, n], lambda i, j: zimp(zle(j, i), zle(T.data(i), Y0.data(j, 0))), 'trace: entry i is at most each of the first i+1 outputs')
    em.forall([n], lambda i: exists(I, 'Int', lambda k: zand(0 <= k, k <= i, zeq(T.data(i), Y0.data(k, 0)))), 'trace: entry i is one of the first i+1 outputs')
results = Contract('GPyOpt.core.bo.BO._compute_results', s_res, p_res)

# --- normalize
def s_norm(kind, const):
    def f(I):
        n = integer(I, 'n', 1); Y = column(I, n, 'Y')
        p, q = integer(I, 'p', 0), integer(I, 'q', 0); I.assume(zand(p < n, q < n))
        if const: I.assume_forall([n], lambda i: zeq(Y.data(i, 0), Y.data(0, 0)))
        else: I.assume(Y.data(p, 0) != Y.data(q, 0))
        Y.ghost = (p, q, Y.data)
        return [Y, kind]
    return f
def p_norm(kind, const):
    def post(I, em, a, r):
        Y = a[0]; n = Y.shape[0]; p, q, d0 = Y.ghost; y = lambda i: d0(i, 0)
        R = r if isinstance(r, Arr) else as_arr(I, r)
        em('one value per output', zand(R.ndim == 2, zeq(R.shape[0], n), zeq(R.shape[1], 1)))
        em.forall([n], lambda i: zeq(Y.data(i, 0), y(i)), 'the outputs are unchanged')
        em('a new array', R is not Y and R.base is not Y)
        v = lambda i: R.data(i, 0)
        if const:
            lemma_sum_equal(I, em, n, lambda k: y(k), lambda k: y(0), 'constant data')
            em.forall([n], lambda i: zeq(v(i), 0), 'constant data gives zeros'); return
        if kind == 'stats':
            m = zdiv(NP.ssum(I, n, y), n); dev = lambda k: zmul(zsub(y(k), m), zsub(y(k), m))
            var = zdiv(NP.ssum(I, n, dev), n); sd = NP.s_sqrt(I, var)
            lemma_sum_term(I, n, dev, p, 'variance'); lemma_sum_term(I, n, dev, q, 'variance')
            em('the deviation of non-constant data is positive', zlt(0, sd))
            em.forall([n], lambda i: zeq(zmul(v(i), sd), zsub(y(i), m)), 'value i is (output i - mean) / deviation')
            lemma_sum_equal(I, em, n, v, lambda k: zmul(zdiv(1, sd), zsub(y(k), m)), 'mean')
            em('mean 0', zeq(NP.ssum(I, n, v), 0))
            lemma_sum_equal(I, em, n, lambda k: zmul(v(k), v(k)), lambda k: zmul(zdiv(1, zmul(sd, sd)), dev(k)), 'square')
            em('standard deviation 1', zeq(NP.ssum(I, n, lambda k: zmul(v(k), v(k))), n))
        else:
            em('lower end -1', exists(I, 'Int', lambda k: zand(0 <= k, k < n, zeq(v(k), -1))))
            em('upper end 1', exists(I, 'Int', lambda k: zand(0 <= k, k < n, zeq(v(k), 1))))
            em.forall([n], lambda i: zand(zle(-1, v(i)), zle(v(i), 1)), 'range -1 to 1')
        em.forall([n, n], lambda i, j: zimp(zlt(y(i), y(j)), zlt(v(i), v(j))), 'increasing')
        if kind == 'maxmin':
          with I.gen(n) as i:
            with I.gen(n) as j:
                with I.gen(n) as k:
                    with I.hyp(True): em('affine', zeq(zmul(zsub(v(i), v(j)), zsub(y(k), y(j))), zmul(zsub(v(k), v(j)), zsub(y(i), y(j)))))
    return post
NORM = [Contract(G + 'normalize', s_norm(k, c), p_norm(k, c), name=G + 'normalize (%s, %s data)' % (k, 'constant' if c else 'non-constant')) for k in ('stats', 'maxmin') for c in (False, True)]
def s_normx(I): return [column(I, integer(I, 'n', 1)), 'other']
NORM.append(Contract(G + 'normalize', s_normx, lambda I, em, a, r: em('an unknown kind is rejected', False), raises=lambda I, em, a, e: em('rejected with an error', True), name=G + 'normalize (unknown kind)'))
