"""Contracts of the evaluation cost (GPyOpt/core/task/cost.py) and of the places that feed it."""
from .lib import *
from .bo import *
from . import objective as OB
from pyvc.contract import Prover
K = 'GPyOpt.core.task.cost.'

def gp_stub(I):
    """GPModel through its contract (contracts/model.py): updateModel replaces the data by what it is given; predictions are functions of the data and the row"""
    st = stub(I, 'GPModel', model=None, log=[])
    m = z3.Function('pm!%d' % uid(), Row, z3.RealSort()); s = z3.Function('ps!%d' % uid(), Row, z3.RealSort())
    dm = z3.Function('pdm!%d' % uid(), Row, z3.IntSort(), z3.RealSort())
    def upd(I2, X, Y, *rest):
        X, Y = as_arr(I2, X), as_arr(I2, Y)
        st.fields['log'] = st.fields['log'] + [(snapshot_arr(I2, X), snapshot_arr(I2, Y))]
        st.fields['model'] = stub(I2, 'GPRegression', X=snapshot_arr(I2, X), Y=snapshot_arr(I2, Y))
    def pwg(I2, X):
        X = as_arr(I2, X); r = NP.rowfn(I2, X); k, d = X.shape
        return (mk(I2, (k, 1), lambda i, j: m(r(i))), mk(I2, (k, 1), lambda i, j: s(r(i))), mk(I2, (k, d), lambda i, j: dm(r(i), ZI(j))), mk(I2, (k, d), lambda i, j: dm(r(i), ZI(j))))
    st.fields.update(updateModel=native('updateModel', upd), predict_withGradients=native('predict_withGradients', pwg), predict=native('predict', lambda I2, X: pwg(I2, X)[:2]))
    st.m = m; st.dm = dm
    return st

class CostContract(object):
    """CostModel used through its interface: construct, update an arbitrary number of times, ask for the cost"""
    timeout = None
    def __init__(self, mode, kind='list'): self.mode = mode; self.kind = kind; self.label = K + 'CostModel (%s)' % (mode if mode == 'none' or mode == 'user' else 'evaluation time, times as %s' % kind)
    def times(self, I, n, nm):
        f = I.fresh(nm, 'Real', ['Int']); g = lambda i: f(ZI(i))
        I.assume_forall([n], lambda i: zlt(0, g(i)))
        v = ListV.sym(I, n, g) if self.kind == 'list' else mk(I, (n,), g) if self.kind == 'vector' else mk(I, (n, 1), lambda i, j: g(i))
        return g, v
    def run(self, I):
        I.cur = self.label; em = Prover(I)
        cls = I.lookup_qual(K + 'CostModel')
        if cls is None: raise Unsupported('CostModel not found')
        gps = []
        def mkgp(I2, a, c):
            s = gp_stub(I2); gps.append(s); return s
        I.contracts['GPyOpt.models.gpmodel.GPModel'] = mkgp
        n, d = integer(I, 'n', 1), integer(I, 'd', 1); X = mat(I, n, d, 'X')
        u = z3.Function('uc!%d' % uid(), Row, z3.RealSort()); du = z3.Function('duc!%d' % uid(), Row, z3.IntSort(), z3.RealSort())
        def user(I2, a, k):
            x = as_arr(I2, a[0]); r = NP.rowfn(I2, x)
            return (mk(I2, (x.shape[0], 1), lambda i, j: u(r(i))), mk(I2, x.shape, lambda i, j: du(r(i), ZI(j))))
        userf = Native('user cost', user)
        arg = {'none': None, 'user': userf, 'time': 'evaluation_time'}[self.mode]
        n1, n2 = integer(I, 'n1', 1), integer(I, 'n2', 1)
        X1, X2 = mat(I, n1, d, 'X1'), mat(I, n2, d, 'X2'); t1, T1 = self.times(I, n1, 't1'); t2, T2 = self.times(I, n2, 't2')
        def value(c): return I.call(I.getattr(c, 'cost_withGradients'), [X], {})
        def later(c):
            """an arbitrary number of updates so far: the update counters are arbitrary"""
            for k, v in list(c.fields.items()):
                if isinstance(v, int) and not isinstance(v, bool): f = I.fresh(k, 'Int'); I.assume(f >= v); c.fields[k] = f
        def body():
            c = I.call(cls, [arg], {}); out = {'c': c}
            v0 = value(c)
            I.call(I.getattr(c, 'update_cost_model'), [X1, T1], {}); f1 = dict(c.fields); v1 = value(c)
            l1 = list(gps[-1].fields['log']) if gps else []
            later(c); I.call(I.getattr(c, 'update_cost_model'), [X2, T2], {}); v2 = value(c)
            return c, (v0, v1, v2), l1, (list(gps[-1].fields['log']) if gps else []), (gps[-1] if gps else None)
        if not I.vacuity('precondition is satisfiable'): return
        outs = I.explore(body)
        for o in outs:
            I.load(o.snap); cx = Ctx('path'); cx.pc = list(o.pc); cx.facts = list(o.facts); I.stack.append(cx)
            try:
                if o.kind == 'raise': em('does not raise (%s)' % o.value.clsname, False); continue
                c, vs, l1, l2, gp = o.value
                rX = NP.rowfn(I, X)
                for k, (v, dv) in enumerate(vs):
                    when = ('before any evaluation', 'after one update', 'after several updates')[k]
                    v, dv = as_arr(I, v), as_arr(I, dv)
                    em('cost has one row per point (%s)' % when, zand(v.ndim == 2, zeq(v.shape[0], n), zeq(v.shape[1], 1), zeq(dv.shape[0], n), zeq(dv.shape[1], d)))
                    one = self.mode == 'none' or (self.mode == 'time' and k == 0)
                    if one:
                        em.forall([n], lambda i: zeq(v.data(i, 0), 1), 'cost one (%s)' % when)
                        em.forall([n, d], lambda i, j: zeq(dv.data(i, j), 0), 'zero gradient (%s)' % when)
                    elif self.mode == 'user':
                        em.forall([n], lambda i: zeq(v.data(i, 0), u(rX(i))), 'the cost the user gave (%s)' % when)
                        em.forall([n, d], lambda i, j: zeq(dv.data(i, j), du(rX(i), ZI(j))), 'the gradient the user gave (%s)' % when)
                    else:
                        em.forall([n], lambda i: zand(zeq(v.data(i, 0), NP.s_exp(I, gp.m(rX(i)))), zlt(0, v.data(i, 0))), 'exponential of the predicted mean, positive (%s)' % when)
                        em.forall([n, d], lambda i, j: zeq(dv.data(i, j), zmul(NP.s_exp(I, gp.m(rX(i))), gp.dm(rX(i), ZI(j)))), 'matching gradient (%s)' % when)
                if self.mode == 'time':
                    em('the mode is still evaluation time', c.fields.get('cost_type') == 'evaluation_time')
                    em('one fit per update', len(l1) == 1 and len(l2) == 2)
                    if len(l1) != 1 or len(l2) != 2: continue
                    (A, Ya), (Bm, Yb) = l2
                    em('first update: one entry per point', zand(zeq(A.shape[0], n1), zeq(Ya.shape[0], n1), zeq(Ya.shape[1], 1)))
                    with I.gen(n1) as i:
                        with I.hyp(True): em('first update: the points, in order', zeq_row(I, A, i, X1, i)); em('first update: logarithm of the times', zeq(Ya.data(i, 0), NP.s_log(I, t1(i))))
                    em('later update: one entry per point', zand(zeq(Bm.shape[0], zadd(n1, n2)), zeq(Yb.shape[0], zadd(n1, n2)), zeq(Yb.shape[1], 1)))
                    with I.gen(n1) as i:
                        with I.hyp(True): em('later update: earlier points stay', zeq_row(I, Bm, i, X1, i)); em('later update: earlier times stay', zeq(Yb.data(i, 0), NP.s_log(I, t1(i))))
                    with I.gen(n2) as i:
                        with I.hyp(True): em('later update: new points appended, in order', zeq_row(I, Bm, zadd(n1, i), X2, i)); em('later update: logarithm of the new times', zeq(Yb.data(zadd(n1, i), 0), NP.s_log(I, t2(i))))
                else: em('the mode is not switched', c.fields.get('cost_type') != 'evaluation_time')
            finally: I.stack.pop()
        if not outs: em('some path', False)
COST = [CostContract('none'), CostContract('user'), CostContract('time', 'list'), CostContract('time', 'column'), CostContract('time', 'vector')]

# --- constant cost
def s_const(I): return [mat(I, integer(I, 'n', 0), integer(I, 'd', 1), 'X')]
def p_const(I, em, a, r):
    v, dv = as_arr(I, r[0]), as_arr(I, r[1]); n, d = a[0].shape
    em('shapes', zand(v.ndim == 2, zeq(v.shape[0], n), zeq(v.shape[1], 1), zeq(dv.shape[0], n), zeq(dv.shape[1], d)))
    em.forall([n], lambda i: zeq(v.data(i, 0), 1), 'cost one'); em.forall([n, d], lambda i, j: zeq(dv.data(i, j), 0), 'zero gradient')
CONST = [Contract(K + 'constant_cost_withGradients', s_const, p_const)]

# --- what the loop hands to the cost model
def cost_world(I, y, cost_type='evaluation_time'):
    w = World(I, y, cost_type); g = w.ghost; no = w.norow(0)
    g.fields.update(cx=mk(I, (0, w.D), lambda i, j: 0, row=lambda i: no), ct=mk(I, (0, 1), lambda i, j: 0), tl=mk(I, (0, 1), lambda i, j: 0))
    base = w.objective.fields['evaluate']
    def evaluate(I2, x):
        F, T = I2.call(base, [x], {}); n, get = iterate(I2, T)
        g.fields['tl'] = NP.concat(I2, [g.fields['tl'], mk(I2, (n, 1), lambda i, j: get(i))], 0); return F, T
    w.objective.fields['evaluate'] = native('evaluate', evaluate)
    ENC = z3.Function('ENC!%d' % uid(), Row, Row); w.ENC = ENC; MD = integer(I, 'MD', 1)
    def enc(I2, x):
        x = as_arr(I2, x); r = NP.rowfn(I2, x); return mk(I2, (x.shape[0], MD), lambda i, j: el(ENC(r(i)), ZI(j)), row=lambda i: ENC(r(i)))
    w.space.fields['unzip_inputs'] = native('unzip_inputs', enc)
    g.fields['cx'] = mk(I, (0, MD), lambda i, j: 0, row=lambda i: no)
    def upd(I2, x, c):
        x = as_arr(I2, x); n, get = iterate(I2, c)
        g.fields['cx'] = NP.concat(I2, [g.fields['cx'], x], 0); g.fields['ct'] = NP.concat(I2, [g.fields['ct'], mk(I2, (n, 1), lambda i, j: get(i))], 0)
    w.cost.fields['update_cost_model'] = native('update_cost_model', upd)
    return w
def p_fed(I, em, w):
    g = w.ghost.fields; cx, ct, tl, e = g['cx'], g['ct'], g['tl'], g['elog']; r = NP.rowfn(I, e); m = e.shape[0]
    em('as many cost entries as evaluations', zand(zeq(cx.shape[0], m), zeq(ct.shape[0], m), zeq(tl.shape[0], m)))
    rc = NP.rowfn(I, cx)
    em.forall([m], lambda i: rc(ZI(i)) == w.ENC(r(ZI(i))), 'cost entry i is the encoding of evaluated point i')
    em.forall([m], lambda i: zeq(ct.data(i, 0), tl.data(i, 0)), 'with its observed time')
def s_evo(I):
    w = cost_world(I, True); m = integer(I, 'm', 1); w.bo.w = w; w.bo.fields['suggested_sample'] = mat(I, m, w.D, 'S'); w.m = m; w.S = snapshot_arr(I, w.bo.fields['suggested_sample']); w.bo.fields['Y_new'] = w.Y0; return [w.bo]
def p_evo(I, em, a, r):
    w = a[0].w; e = w.ghost.fields['elog']
    em('the suggested points are evaluated once', zeq(e.shape[0], w.m)); em.forall([w.m], lambda i: zeq_row(I, e, i, w.S, i), 'in order')
    p_fed(I, em, w)
    Y = a[0].fields['Y']; n0 = w.n0; rS = NP.rowfn(I, w.S)
    em('outputs appended', zand(zeq(Y.shape[0], zadd(n0, w.m)), zeq(Y.shape[1], 1)))
    em.forall([n0], lambda i: zeq(Y.data(i, 0), w.Y0c.data(i, 0)), 'earlier outputs unchanged'); em.forall([w.m], lambda i: zeq(Y.data(zadd(n0, i), 0), w.f(rS(i))), 'new outputs in order')
EVO = Contract(B + '.evaluate_objective', s_evo, p_evo)
def s_runc(y, mi):
    def f(I):
        w = cost_world(I, y); kw = {'max_iter': integer(I, 'max_iter', 0) if mi else None, 'max_time': real(I, 'max_time') if not mi else INF, 'eps': real(I, 'eps')}; w.bo.w = w; w.kw = kw
        w.ghost.fields['first'] = None
        I.natives['time.time'] = lambda I2, a, k: I2.fresh('now', 'Real')
        return [w.bo], kw
    return f
def hook_c(I, view):
    out = []
    for L in view.arrs(2): out.append(('rows of %s' % L.name, lambda st, k, L=L: zle(L.init.shape[0], st[L.key].shape[0])))
    return out
RUN_COST = [Contract(B + '.run_optimization', s_runc(y, mi), lambda I, em, a, r: p_fed(I, em, a[0].w), name=B + '.run_optimization: cost entries (%s, %s)' % ('iterations' if mi else 'time', 'outputs known' if y else 'outputs not yet known'), hooks={B + '.run_optimization': hook_c}) for y in (True, False) for mi in (True, False)]
def p_initc(x):
    def p(I, em, a, r):
        o = a[0]; c = o.g.fields['cost']; e = o.g.fields['elog']
        em('one update of the cost model', len(c) == 1)
        for q, t in c[:1]:
            em('with the encoding of the evaluated points', isinstance(q, ObjV) and isinstance(q.fields.get('of'), Arr) and zeq(q.fields['of'].shape[0], e.shape[0]))
            if isinstance(q, ObjV): em.forall([e.shape[0]], lambda i: zeq_row(I, q.fields['of'], i, e, i), 'in order')
            em('and the observed times', o.g.fields.get('times') is t)
    return p
def s_initc(x):
    base = OB.s_init(x, False)
    def f(I):
        a = base(I); o = a[0]; ev = o.fields['objective'].fields['evaluate']
        def evaluate(I2, xx):
            F, T = I2.call(ev, [xx], {}); o.g.fields['times'] = T; return F, T
        o.fields['objective'].fields['evaluate'] = native('evaluate', evaluate); return a
    return f
INITC = [Contract(OB.M + '._init_design_chooser', s_initc(x), p_initc(x), name=OB.M + '._init_design_chooser: cost entries (%s)' % ('X given' if x else 'design')) for x in (True, False)]
CONTRACTS = COST + CONST + [EVO] + INITC + RUN_COST
