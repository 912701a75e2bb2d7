"""Contracts of the per-variable operations (GPyOpt/core/task/variables.py)."""
from .lib import *
V = 'GPyOpt.core.task.variables.'

def cont(I):
    lo, hi = real(I, 'lo'), real(I, 'hi'); I.assume(lo <= hi)
    return newobj(I, V + 'ContinuousVariable', name='v', type='continuous', domain=(lo, hi), dimensionality=1, dimensionality_in_model=1), lo, hi
def disc(I):
    m = integer(I, 'm', 1); d = tupv(I, m, 'dv')
    return newobj(I, V + 'DiscreteVariable', name='v', type='discrete', domain=d, dimensionality=1, dimensionality_in_model=1), m, d
def categ(I):
    m = integer(I, 'm', 1); d = TupV(m, lambda i: i)
    return newobj(I, V + 'CategoricalVariable', name='v', type='categorical', domain=d, dimensionality=1, dimensionality_in_model=m), m
def bandit(I):
    m = integer(I, 'arms', 1); d = integer(I, 'd', 1)
    A = mat(I, m, d, 'arm')
    return newobj(I, V + 'BanditVariable', name='v', type='bandit', domain=A, dimensionality=d, dimensionality_in_model=d), m, d, A

def absd(a, b): x = zsub(a, b); return zite(zle(0, x), x, zneg(x))

# --- round
def s1(I):
    v, lo, hi = cont(I); return [v, vec(I, 1, 'x')]
def p1(I, em, a, r):
    v, x = a; lo, hi = v.fields['domain']; x0 = x.data(0)
    em('one value', zeq(seqlen(r), 1)); y = item(I, r, 0)
    em('inside the interval', zand(zle(lo, y), zle(y, hi)))
    em('legal values unchanged', zimp(zand(zle(lo, x0), zle(x0, hi)), zeq(y, x0)))
    em('below: lower end', zimp(zlt(x0, lo), zeq(y, lo)))
    em('above: upper end', zimp(zlt(hi, x0), zeq(y, hi)))
round_cont = Contract(V + 'ContinuousVariable.round', s1, p1)

def s2(I):
    v, m, d = disc(I); return [v, vec(I, 1, 'x')]
def p2(I, em, a, r):
    v, x = a; d = v.fields['domain']; x0 = x.data(0)
    em('one value', zeq(seqlen(r), 1)); y = item(I, r, 0)
    em('a listed value', exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, d.n), zeq(y, d.get(i)))))
    em.forall([d.n], lambda i: zle(absd(y, x0), absd(d.get(i), x0)), 'no listed value is closer')
    em('legal values unchanged', zimp(exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, d.n), zeq(x0, d.get(i)))), zeq(y, x0)))
def hook_disc(I, view):
    """invariant: the carried value is listed and at least as close as every value seen so far"""
    v, x = I.stack_args; d = v.fields['domain']; x0 = x.data(0); LS = view.of_kind('real')
    def inv(key, st, k):
        y = st[key]
        j = z3.Int('j!inv')
        return zand(exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, d.n), zeq(y, d.get(i)))),
                    z3.ForAll([j], Z(zimp(zand(0 <= j, zlt(j, k)), zle(absd(y, x0), absd(d.get(j), x0)))), patterns=[Z(d.get(j))]))
    if len(LS) == 1: return [('closest value so far', lambda st, k: inv(LS[0].key, st, k))]
    # the distance may be carried as well: any carried number is tried as the value, any other one as its distance
    return [('closest value so far (%s), with its distance (%s)' % (A.key, B.key), lambda st, k, A=A, B=B: zand(inv(A.key, st, k), zeq(st[B.key], absd(st[A.key], x0)))) for A in LS for B in LS if A is not B]
round_disc = Contract(V + 'DiscreteVariable.round', s2, p2, hooks={V + 'DiscreteVariable.round': hook_disc})

def s3(I):
    v, m = categ(I); return [v, vec(I, m, 'x')]
def p3(I, em, a, r):
    v, x = a; m = v.fields['dimensionality_in_model']
    em('one entry per category', zeq(seqlen(r), m))
    em.forall([m], lambda j: zor(zeq(item(I, r, j), 0), zeq(item(I, r, j), 1)), 'entries are 0 or 1')
    em('one entry is 1 and it is the largest', exists(I, 'Int', lambda j: zand(0 <= j, zlt(j, m), zeq(item(I, r, j), 1), )))
    em.forall([m, m], lambda i, j: zimp(zand(zeq(item(I, r, i), 1), zeq(item(I, r, j), 1)), zeq(i, j)), 'at most one entry is 1')
    em.forall([m, m], lambda i, j: zimp(zeq(item(I, r, i), 1), zle(x.data(j), x.data(i))), 'the indicator of the largest entry')
round_cat = Contract(V + 'CategoricalVariable.round', s3, p3)

def s4(I):
    v, m, d, A = bandit(I); return [v, vec(I, d, 'x')]
def p4(I, em, a, r):
    v, x = a; A = v.fields['domain']; m, d = A.shape
    em('one value per coordinate', zeq(seqlen(r), d))
    rv = as_arr(I, r); j = z3.Int('bj!%d' % uid())
    sq = lambda y: NP.np_sum(I, [NP.binop(I, 'Pow', NP.binop(I, 'Sub', y, x), 2)], {})
    em('an arm', exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, m), z3.ForAll([j], Z(zimp(zand(0 <= j, zlt(j, d)), zeq(rv.data(j), A.data(i, j))))))))
    em.forall([m], lambda i: zle(sq(rv), sq(NP.getitem(I, A, i))), 'no arm is closer')
round_ban = Contract(V + 'BanditVariable.round', s4, p4)
ROUND = [round_cont, round_disc, round_cat, round_ban]

# --- encoding and decoding of one coordinate
def e1(I):
    v, lo, hi = cont(I); return [v, real(I, 'x')]
def e2(I):
    v, m, d = disc(I); return [v, real(I, 'x')]
def q1(I, em, a, r):
    em('one entry', zeq(seqlen(r), 1)); em('the value itself', zeq(item(I, r, 0), a[1]))
enc_cont = Contract(V + 'Variable.objective_to_model', e1, q1, name='ContinuousVariable.objective_to_model')
enc_disc = Contract(V + 'Variable.objective_to_model', e2, q1, name='DiscreteVariable.objective_to_model')
def e3(I):
    v, m = categ(I); c = integer(I, 'c', 0); I.assume(c < m)
    x = real(I, 'x'); I.assume(x == z3.ToReal(c)); a = [v, x]; v.fields['ghost_c'] = c
    return a
def q3(I, em, a, r):
    m = a[0].fields['dimensionality_in_model']; c = a[0].fields['ghost_c']
    em('one entry per category', zeq(seqlen(r), m))
    em.forall([m], lambda j: zeq(item(I, r, j), zite(zeq(j, c), 1, 0)), 'indicator of the category')
enc_cat = Contract(V + 'CategoricalVariable.objective_to_model', e3, q3)

def d1(I):
    v, lo, hi = cont(I); D = integer(I, 'D', 1); k = integer(I, 'k', 0); I.assume(k < D)
    return [v, mat(I, 1, D, 'x'), k]
def d2(I):
    v, m, d = disc(I); D = integer(I, 'D', 1); k = integer(I, 'k', 0); I.assume(k < D)
    return [v, mat(I, 1, D, 'x'), k]
def r1(I, em, a, r):
    em('one entry', zeq(seqlen(r), 1)); em('the entry at its index', zeq(item(I, r, 0), a[1].data(0, a[2])))
dec_cont = Contract(V + 'Variable.model_to_objective', d1, r1, name='ContinuousVariable.model_to_objective')
dec_disc = Contract(V + 'Variable.model_to_objective', d2, r1, name='DiscreteVariable.model_to_objective')
def d3(I):
    v, m = categ(I); D = integer(I, 'D', 1); k = integer(I, 'k', 0); I.assume(k + m <= D)
    X = mat(I, 1, D, 'x'); c = integer(I, 'c', 0); I.assume(c < m); v.fields['ghost_c'] = c
    # precondition: the block is the indicator of category c
    I.assume_forall([m], lambda j: zeq(X.data(0, zadd(k, j)), zite(zeq(j, c), 1, 0)))
    return [v, X, k]
def r3(I, em, a, r):
    v, X, k = a; m = v.fields['dimensionality_in_model']; c = v.fields['ghost_c']
    lemma_sum_equal(I, em, m, lambda j: zmul(j, X.data(0, zadd(k, j))), lambda j: zmul(j, zite(zeq(j, c), 1, 0)), 'decoding sum')
    em('one entry', zeq(seqlen(r), 1)); em('the category', zeq(item(I, r, 0), a[0].fields['ghost_c']))
dec_cat = Contract(V + 'CategoricalVariable.model_to_objective', d3, r3)

# --- bounds in the model
def b1(I, em, a, r):
    v = a[0]; em('one bound', zeq(seqlen(r), 1)); lo, hi = item(I, r, 0)
    em('the interval', zand(zeq(lo, v.fields['domain'][0]), zeq(hi, v.fields['domain'][1])))
bnd_cont = Contract(V + 'ContinuousVariable.get_bounds', lambda I: [cont(I)[0]], b1)
def b2(I, em, a, r):
    v = a[0]; d = v.fields['domain']; em('one bound', zeq(seqlen(r), 1)); lo, hi = item(I, r, 0)
    em.forall([d.n], lambda i: zand(zle(lo, d.get(i)), zle(d.get(i), hi)), 'every listed value is within')
    em('lower bound is listed', exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, d.n), zeq(lo, d.get(i)))))
    em('upper bound is listed', exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, d.n), zeq(hi, d.get(i)))))
bnd_disc = Contract(V + 'DiscreteVariable.get_bounds', lambda I: [disc(I)[0]], b2)
def b3(I, em, a, r):
    m = a[0].fields['dimensionality_in_model']; em('one bound per category', zeq(seqlen(r), m))
    em.forall([m], lambda i: zand(zeq(item(I, r, i)[0], 0), zeq(item(I, r, i)[1], 1)), '(0, 1) each')
bnd_cat = Contract(V + 'CategoricalVariable.get_bounds', lambda I: [categ(I)[0]], b3)
def b4(I, em, a, r):
    A = a[0].fields['domain']; m, d = A.shape; em('one bound per coordinate', zeq(seqlen(r), d))
    em.forall([m, d], lambda i, j: zand(zle(item(I, r, j)[0], A.data(i, j)), zle(A.data(i, j), item(I, r, j)[1])), 'every arm is within')
bnd_ban = Contract(V + 'BanditVariable.get_bounds', lambda I: [bandit(I)[0]], b4)
CODING = [enc_cont, enc_disc, enc_cat, dec_cont, dec_disc, dec_cat]
BOUNDS = [bnd_cont, bnd_disc, bnd_cat, bnd_ban]
