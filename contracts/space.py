"""The abstract search space and the contracts of Design_space (GPyOpt/core/task/space.py).

A space has D >= 1 one-dimensional variables.  Variable k has kind(k) in {continuous, discrete, categorical}, declared values
dv(k, 0..dn(k)-1) (for a continuous variable the two interval ends), md(k) model columns (1, or the number of categories) and the
model offset off(k) = md(0)+..+md(k-1).  Its methods are used through the interface contract below, which contracts/variables.py
proves for each variable class separately."""
from .lib import *
S = 'GPyOpt.core.task.space.Design_space'
KINDS = ['continuous', 'discrete', 'categorical']

class SymEnum(object):
    """symbolic string among a few constants"""
    def __init__(self, term, names): self.term = term; self.names = names
    def cmpf(self, I, op, a, b):
        o = b if a is self else a
        if isinstance(o, str): r = zeq(self.term, self.names.index(o)) if o in self.names else False
        elif isinstance(o, SymEnum) and o.names == self.names: r = zeq(self.term, o.term)
        else: raise Unsupported('comparison of a symbolic string')
        if op == 'Eq': return r
        if op == 'NotEq': return znot(r)
        raise Unsupported('ordering of strings')
    def subst_value(self, I, pairs): return SymEnum(NP.subst_term(self.term, pairs), self.names)
    def is_cmp(self, I, o): return self.cmpf(I, 'Eq', self, o)

class SpaceM(object):
    """symbols of an abstract non-bandit space"""
    def __init__(self, I, D=None, light=False):
        self.I = I
        self.D = integer(I, 'D', 1) if D is None else D
        self.kind = I.fresh('kind', 'Int', ['Int']); self.dn = I.fresh('dn', 'Int', ['Int'])
        self.dv = I.fresh('dv', 'Real', ['Int', 'Int'])
        I.assume_forall([self.D], lambda k: zand(0 <= self.kind(k), self.kind(k) <= 2, self.dn(k) >= 1,
                                                  zimp(self.kind(k) == 0, zand(self.dn(k) == 2, self.dv(k, 0) <= self.dv(k, 1)))))
        with I.gen(self.D) as k:
            with I.gen(self.dn(k)) as i: I.assume(zimp(self.kind(k) == 2, self.dv(k, i) == z3.ToReal(i)))
        if light: self.MD = I.fresh('MD', 'Int'); self.off = self.own = None; return      # only the declared values are of interest
        self.off, self.own = prefix(I, self.D, lambda k: self.md(k))
        self.MD = self.off(self.D)
        # category code shown by the block of variable k in a model row (meaningful for rows in the model encoding)
        self.code = z3.Function('code!%d' % uid(), Row, z3.IntSort(), z3.IntSort())
    def iscat(self, k): return self.kind(ZI(k)) == 2
    def md(self, k): return z3.If(self.kind(ZI(k)) == 2, self.dn(ZI(k)), z3.IntVal(1))
    def legal(self, k, x):
        """x is a declared value of variable k (objective representation)"""
        k = ZI(k); x = ZR(x)
        i = z3.Int('li!%d' % uid())
        listed = z3.Exists([i], z3.And(0 <= i, i < self.dn(k), x == self.dv(k, i)))
        return z3.If(self.kind(k) == 0, z3.And(self.dv(k, 0) <= x, x <= self.dv(k, 1)), listed)
    def legal_c(self, k, x, c):
        """the same with an explicit category code c"""
        k = ZI(k); x = ZR(x)
        return zand(zimp(self.iscat(k), zand(0 <= c, c < self.dn(k), x == z3.ToReal(c))), zimp(znot(self.iscat(k)), self.legal(k, x)))
    def blegal(self, k, x):
        """model block x(0..md(k)-1) is legal for variable k"""
        k = ZI(k); i = z3.Int('bi!%d' % uid()); c = z3.Int('bc!%d' % uid())
        ind = z3.Exists([c], z3.And(0 <= c, c < self.dn(k), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.dn(k)), ZR(x(i)) == z3.If(i == c, z3.RealVal(1), z3.RealVal(0))))))
        return z3.If(self.kind(k) == 2, ind, self.legal(k, x(0)))
    def enc(self, k, v, j): return z3.If(self.iscat(k), z3.If(ZR(v) == z3.ToReal(ZI(j)), z3.RealVal(1), z3.RealVal(0)), ZR(v))

def clip(x, lo, hi): return zite(zlt(x, lo), lo, zite(zlt(hi, x), hi, x))

def variable(I, sp, k):
    """the k-th variable, used through the interface contract"""
    k = ZI(k)
    o = ObjV(I, 'Variable', {}, tag='stub')
    o.cls_ = None
    o.fields.update(name=Opaque('str name'), type=SymEnum(sp.kind(k), KINDS), dimensionality=1, dimensionality_in_model=sp.md(k),
                    domain=TupV(sp.dn(k), lambda i: sp.dv(k, ZI(i))))
    o.substf = lambda I2, pairs: variable(I2, sp, NP.subst_term(k, pairs))
    codes = {'ContinuousVariable': 0, 'DiscreteVariable': 1, 'CategoricalVariable': 2}
    def isinstf(I2, c):
        nm = c.qual.split('.')[-1] if isinstance(c, ClassV) else ''
        if nm in codes: return sp.kind(k) == codes[nm]
        if nm == 'BanditVariable': return False
        if nm == 'Variable': return True
        raise Unsupported('isinstance of an abstract variable')
    o.isinstf = isinstf
    def objective_to_model(I2, x):
        I2.prove(zimp(sp.iscat(k), sp.legal(k, x)), 'objective_to_model precondition: legal category')
        return ListV.sym(I2, sp.md(k), lambda j: sp.enc(k, x, j))
    def model_to_objective(I2, X, idx):
        blk = lambda j: X.data(0, simp(zadd(idx, j)))
        cc = sp.code(NP.rowfn(I2, X)(0), k)
        I2.prove(zimp(sp.iscat(k), zand(0 <= cc, cc < sp.dn(k))), 'model_to_objective precondition: category code')
        with I2.gen(sp.dn(k)) as j:
            with I2.hyp(True): I2.prove(zimp(sp.iscat(k), zeq(blk(j), z3.If(j == cc, z3.RealVal(1), z3.RealVal(0)))), 'model_to_objective precondition: indicator block')
        return ListV(I2, [z3.If(sp.iscat(k), z3.ToReal(cc), ZR(blk(0)))])
    def rnd(I2, x):
        if not isinstance(x, Arr) or x.ndim != 1: raise Unsupported('argument of round')
        I2.prove(zeq(x.shape[0], sp.md(k)), 'round precondition: one entry per model column of the variable')
        d = x.data
        return ListV.sym(I2, sp.md(k), roundfn(I2, sp, k, d))
    def get_bounds(I2):
        lo = I2.fresh('blo', 'Real'); hi = I2.fresh('bhi', 'Real')
        I2.assume(zimp(sp.iscat(k), zand(lo == 0, hi == 1)))
        I2.assume_forall([sp.dn(k)], lambda i: zimp(znot(sp.iscat(k)), zand(lo <= sp.dv(k, i), sp.dv(k, i) <= hi)))
        I2.assume(zimp(sp.kind(k) == 0, zand(lo == sp.dv(k, 0), hi == sp.dv(k, 1))))
        return ListV.sym(I2, sp.md(k), lambda i: (lo, hi))
    o.fields.update(objective_to_model=native('objective_to_model', objective_to_model), model_to_objective=native('model_to_objective', model_to_objective),
                    round=native('round', rnd), get_bounds=native('get_bounds', get_bounds), is_bandit=native('is_bandit', lambda I2: False),
                    is_continuous=native('is_continuous', lambda I2: sp.kind(k) == 0))
    def set_field(nm):
        def f(I2, v): o.fields[nm] = v
        return f
    o.index_k = k
    return o

def roundfn(I, sp, k, d):
    """entries of the rounded block (interface contract of round)"""
    y = I.fresh('rnd', 'Real'); c = I.fresh('rcat', 'Int'); w = I.fresh('rix', 'Int'); sp.ghost_rcat = (c, k)
    largest = lambda i: zimp(sp.iscat(k), zle(d(i), d(c)))
    sp.ghost_largest = largest
    I.assume(zimp(sp.kind(k) == 0, zeq(y, clip(d(0), sp.dv(k, 0), sp.dv(k, 1)))))
    I.assume(zimp(sp.kind(k) == 1, zand(0 <= w, w < sp.dn(k), y == sp.dv(k, w))))
    I.assume_forall([sp.dn(k)], lambda i: zimp(sp.kind(k) == 1, zle(absd(y, d(0)), absd(sp.dv(k, i), d(0)))))
    I.assume(zimp(sp.iscat(k), zand(0 <= c, c < sp.dn(k))))
    I.assume_forall([sp.dn(k)], largest)
    I.assume_forall([sp.dn(k)], lambda i: zimp(zand(sp.iscat(k), zlt(i, c)), zlt(d(i), d(c))))
    return lambda j: z3.If(sp.iscat(k), z3.If(ZI(j) == c, z3.RealVal(1), z3.RealVal(0)), y)
def absd(a, b): x = zsub(a, b); return zite(zle(0, x), x, zneg(x))

def design_space(I, sp, **over):
    o = newobj(I, S)
    l = ListV(I); l.segs = [('s', sp.D, lambda k: variable(I, sp, k))]
    l2 = ListV(I); l2.segs = [('s', sp.D, lambda k: variable(I, sp, k))]
    dims = ListV(I); dims.segs = [('s', sp.D, lambda k: sp.md(k))]
    o.fields.update(space_expanded=l, space=l2, objective_dimensionality=sp.D, model_dimensionality=sp.MD, model_input_dims=dims,
                    constraints=None, dimensionality=sp.D)
    o.fields.update(over)
    o.sp = sp
    return o

def legal_row(I, sp, x, em=None, name='legal'):
    """assume: every coordinate of the objective row x is legal"""
    I.assume_forall([sp.D], lambda k: sp.legal(k, x(k)))

# ---------------------------------------------------------------- contracts
def s_o2m(I):
    sp = SpaceM(I); X = mat(I, 1, sp.D, 'x'); legal_row(I, sp, lambda k: X.data(0, k))
    return [design_space(I, sp), X]
def p_o2m(I, em, a, r):
    sp = a[0].sp; X = a[1]
    em('one entry per model column', zeq(seqlen(r), sp.MD))
    em.forall([sp.D], lambda k: zimp(znot(sp.iscat(k)), zeq(item(I, r, sp.off(k)), X.data(0, k))), 'plain coordinates are copied to their column')
    with I.gen(sp.D) as k:
        with I.gen(sp.md(k)) as j:
            with I.hyp(True):
                em('indicator of the category', zimp(sp.iscat(k), zeq(item(I, r, zadd(sp.off(k), j)), zite(zeq(X.data(0, k), j), 1, 0))))
o2m = Contract(S + '.objective_to_model', s_o2m, p_o2m)

def onehot_assume(I, sp, X, i):
    """row i of X is in the model encoding: every categorical block is the indicator of a category"""
    r = NP.rowfn(I, X)(i)
    with I.gen(sp.D) as k:
        c = sp.code(r, k)
        I.assume(zimp(sp.iscat(k), zand(0 <= c, c < sp.dn(k))))
    with I.gen(sp.MD) as p:
        o = sp.own(p)
        I.assume(zimp(sp.iscat(o), zeq(X.data(i, p), zite(zeq(p, sp.off(o) + sp.code(r, o)), 1, 0))))

def s_m2o(I):
    sp = SpaceM(I); X = mat(I, 1, sp.MD, 'x')
    onehot_assume(I, sp, X, 0)
    return [design_space(I, sp), X]
def p_m2o(I, em, a, r):
    sp = a[0].sp; X = a[1]; row = X.row(0)
    em('one entry per variable', zeq(seqlen(r), sp.D))
    em.forall([sp.D], lambda k: zeq(item(I, r, k), zite(sp.iscat(k), sp.code(row, k), X.data(0, sp.off(k)))), 'decoded coordinate')
m2o = Contract(S + '.model_to_objective', s_m2o, p_m2o)

def s_unzip(I):
    sp = SpaceM(I); n = integer(I, 'n', 1); X = mat(I, n, sp.D, 'X')
    I.assume_forall([n, sp.D], lambda i, k: sp.legal(k, X.data(i, k)))
    return [design_space(I, sp), X]
def p_unzip(I, em, a, r):
    sp = a[0].sp; X = a[1]; n = X.shape[0]
    em('one row per point, one column per model coordinate', zand(zeq(r.shape[0], n), zeq(r.shape[1], sp.MD)))
    em.forall([n, sp.D], lambda i, k: zimp(znot(sp.iscat(k)), zeq(r.data(i, sp.off(k)), X.data(i, k))), 'plain coordinates')
    with I.gen(n) as i:
        with I.gen(sp.D) as k:
            with I.gen(sp.md(k)) as j:
                with I.hyp(True):
                    em('indicators', zimp(sp.iscat(k), zeq(r.data(i, zadd(sp.off(k), j)), zite(zeq(X.data(i, k), j), 1, 0))))
unzip = Contract(S + '.unzip_inputs', s_unzip, p_unzip)

def s_zip(I):
    sp = SpaceM(I); n = integer(I, 'n', 1); X = mat(I, n, sp.MD, 'X')
    with I.gen(n) as i: onehot_assume(I, sp, X, i)
    return [design_space(I, sp), X]
def p_zip(I, em, a, r):
    sp = a[0].sp; X = a[1]; n = X.shape[0]
    em('shape', zand(zeq(r.shape[0], n), zeq(r.shape[1], sp.D)))
    em.forall([n, sp.D], lambda i, k: zeq(r.data(i, k), zite(sp.iscat(k), sp.code(X.row(i), k), X.data(i, sp.off(k)))), 'decoded coordinates')
zipc = Contract(S + '.zip_inputs', s_zip, p_zip)

def s_round(nd):
    def f(I):
        sp = SpaceM(I)
        I.spm = sp; x = vec(I, sp.MD, 'x') if nd == 1 else mat(I, 1, sp.MD, 'x')
        return [design_space(I, sp), x]
    return f
def p_round(I, em, a, r):
    sp = a[0].sp; x = a[1]; xd = (lambda j: x.data(j)) if x.ndim == 1 else (lambda j: x.data(0, j))
    em('one row, one column per model coordinate', zand(zeq(r.shape[0], 1), zeq(r.shape[1], sp.MD)))
    R = lambda j: r.data(0, j)
    o = sp.off
    em.forall([sp.D], lambda k: zimp(sp.kind(k) == 0, zeq(R(o(k)), clip(xd(o(k)), sp.dv(k, 0), sp.dv(k, 1)))), 'continuous: clipped to the interval')
    em.forall([sp.D], lambda k: zimp(sp.kind(k) == 1, sp.legal(k, R(o(k)))), 'discrete: a listed value')
    with I.gen(sp.D) as k:
        with I.gen(sp.dn(k)) as i:
            with I.hyp(True): em('discrete: the closest value', zimp(sp.kind(k) == 1, zle(absd(R(o(k)), xd(o(k))), absd(sp.dv(k, i), xd(o(k))))))
    # the indicator position is the ghost result of the variable's own rounding (interface contract of round)
    c, k0 = sp.ghost_rcat
    with I.gen(sp.D) as k:
        ck = NP.subst_term(c, [(k0, k)])
        with I.hyp(True):
            em('categorical: the indicator is at one of the categories', zimp(sp.iscat(k), zand(0 <= ck, ck < sp.dn(k))))
        with I.gen(sp.dn(k)) as i:
            with I.hyp(True):
                I.assume(NP.subst_term(Z(sp.ghost_largest(i)), [(k0, k)]))      # instance of the contract of round
                em('categorical: exactly one indicator, 1 at that category and 0 elsewhere', zimp(sp.iscat(k), zeq(R(o(k) + i), zite(i == ck, 1, 0))))
                em('categorical: the category of the largest entry', zimp(sp.iscat(k), zle(xd(o(k) + i), xd(o(k) + ck))))
def h_tail(I, view):
    """candidates: what is left of a vector consumed from the front; a counter of model columns"""
    sp = getattr(I, 'spm', None)
    if sp is None or not hasattr(sp, 'off') or sp.off is None: return []
    out = [('%s: the columns from that of variable k on' % L.name, lambda st, k, L=L: tail(st[L.key], L.init, sp.off(ZI(k)), sp.MD)) for L in view.arrs(1)]
    return out + [('%s: the column of variable k' % L.name, lambda st, k, L=L: zeq(st[L.key], sp.off(ZI(k)))) for L in view.of_kind('int')]
def tail(A, init, o, n):
    i = z3.Int('tl!%d' % uid()); return zand(zeq(A.shape[0], zsub(n, o)), z3.ForAll([i], Z(zimp(zand(0 <= i, zlt(i, zsub(n, o))), zeq(A.data(i), init.data(zadd(i, o)))))))
round1 = Contract(S + '.round_optimum', s_round(1), p_round, name=S + '.round_optimum (vector)', hooks={S + '.round_optimum': h_tail})
round2 = Contract(S + '.round_optimum', s_round(2), p_round, name=S + '.round_optimum (row)', hooks={S + '.round_optimum': h_tail})

def s_bounds(I):
    sp = SpaceM(I); return [design_space(I, sp)]
def p_bounds(I, em, a, r):
    sp = a[0].sp
    em('one bound per model column', zeq(seqlen(r), sp.MD))
    with I.gen(sp.D) as k:
        with I.gen(sp.md(k)) as j:
            with I.hyp(True): em('indicator bounds', zimp(sp.iscat(k), zand(zeq(item(I, r, sp.off(k) + j)[0], 0), zeq(item(I, r, sp.off(k) + j)[1], 1))))
        with I.gen(sp.dn(k)) as i:
            with I.hyp(True): em('every declared value lies within the bounds of its column', zimp(znot(sp.iscat(k)), zand(zle(item(I, r, sp.off(k))[0], sp.dv(k, i)), zle(sp.dv(k, i), item(I, r, sp.off(k))[1]))))
bounds = Contract(S + '.get_bounds', s_bounds, p_bounds)
ALL = [o2m, m2o, unzip, zipc, round1, round2, bounds]

# --- spaces of one bandit variable (every coordinate pattern is a listed arm; objective and model representation agree)
def bandit_space(I):
    from .variables import bandit
    v, m, d, A = bandit(I); I.bb = (v, m, d, A); l = lambda: ListV(I, [v])
    return newobj(I, S, space=l(), space_expanded=l(), objective_dimensionality=1, model_dimensionality=d, model_input_dims=ListV(I, [d]), constraints=None, dimensionality=d)
def s_bz(I):
    o = bandit_space(I); n = integer(I, 'n', 1); X = mat(I, n, I.bb[2], 'X'); I.bX = mk(I, X.shape, X.data); return [o, X]
def p_bz(I, em, a, r):
    if not isinstance(r, Arr) or r.ndim != 2: em('a matrix', False); return
    em('same shape', zand(zeq(r.shape[0], I.bX.shape[0]), zeq(r.shape[1], I.bX.shape[1]))); em.forall(list(I.bX.shape), lambda i, j: zeq(r.data(i, j), I.bX.data(i, j)), 'bandit points are the same in both representations')
def p_bb(I, em, a, r):
    v, m, d, A = I.bb; em('one bound per coordinate', zeq(seqlen(r), d))
    with I.gen(m) as i:
        with I.gen(d) as j:
            with I.hyp(True): b = item(I, r, j); em('every arm lies within the bounds', zand(zle(item(I, b, 0), A.data(i, j)), zle(A.data(i, j), item(I, b, 1))))
def s_br(nd):
    def f(I):
        o = bandit_space(I); return [o, vec(I, I.bb[2], 'x') if nd == 1 else mat(I, 1, I.bb[2], 'x')]
    return f
def p_br(I, em, a, r):
    v, m, d, A = I.bb; x = a[1]; xv = x if x.ndim == 1 else NP.getitem(I, x, 0)
    ok = isinstance(r, Arr) and r.ndim == 2; em('one row, one column per coordinate', ok and zand(zeq(r.shape[0], 1), zeq(r.shape[1], d)))
    if not ok: return
    y = NP.getitem(I, r, 0); sq = lambda y: NP.np_sum(I, [NP.binop(I, 'Pow', NP.binop(I, 'Sub', y, xv), 2)], {}); j = z3.Int('bj!%d' % uid())
    em('an arm', exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, m), z3.ForAll([j], Z(zimp(zand(0 <= j, zlt(j, d)), zeq(r.data(0, j), A.data(i, j))))))))
    em.forall([m], lambda i: zle(sq(y), sq(NP.getitem(I, A, i))), 'no arm is closer')
def p_gb(I, em, a, r):
    v, m, d, A = I.bb; ok = isinstance(r, Arr) and r.ndim == 2; em('one row per arm', ok and zand(zeq(r.shape[0], m), zeq(r.shape[1], d)))
    if ok: em.forall([m, d], lambda i, j: zeq(r.data(i, j), A.data(i, j)), 'the arms as declared')
BANDIT = [Contract(S + '.unzip_inputs', s_bz, p_bz, name=S + '.unzip_inputs (bandit)'), Contract(S + '.zip_inputs', s_bz, p_bz, name=S + '.zip_inputs (bandit)'), Contract(S + '.get_bounds', lambda I: [bandit_space(I)], p_bb, name=S + '.get_bounds (bandit)'),
          Contract(S + '.round_optimum', s_br(1), p_br, name=S + '.round_optimum (bandit, vector)'), Contract(S + '.round_optimum', s_br(2), p_br, name=S + '.round_optimum (bandit, row)'), Contract(S + '.get_bandit', lambda I: [bandit_space(I)], p_gb, name=S + '.get_bandit')]
ALL += BANDIT
