"""Contracts of BO.suggest_next_locations and BO._compute_next_evaluations (GPyOpt/core/bo.py)."""
from .lib import *
from .bo import zeq_row, snapshot_arr, encoder, B
from pyvc.contract import Prover
DUP = 'GPyOpt.util.duplicate_manager.DuplicateManager'; CTX = 'GPyOpt.optimization.acquisition_optimizer.ContextManager'

def bound(I, c, a):
    """arguments of a constructor call by parameter name (constructor from the current source)"""
    d = I.bind(I.class_attr(c, '__init__'), [None] + list(a['args']), a['kwargs'])
    return {k: v for k, v in d.items() if k != 'self'}
def snap_val(I, v): return snapshot_arr(I, v) if isinstance(v, Arr) else v
class Request(object):
    def __init__(self, I, ctx, pend, ign):
        self.ctx = None if not ctx else stub(I, 'context'); self.pend = None if not pend else mat(I, integer(I, 'np', 0), I.D, 'pending'); self.ign = None if not ign else mat(I, integer(I, 'ni', 0), I.D, 'ignored')
        self.pc = snap_val(I, self.pend); self.ic = snap_val(I, self.ign)

def state(I, dedup, norm):
    n, D, MD = integer(I, 'n', 1), integer(I, 'D', 1), integer(I, 'MD', 1); I.D = D
    X, Y = mat(I, n, D, 'X'), column(I, n, 'Y'); ENC, enc = encoder(I, MD)
    DEC = z3.Function('DEC!%d' % uid(), Row, Row)
    def dec(I2, Q):
        Q = NP.as_arr(I2, Q); Q = NP.atleast_2d(I2, Q); r = NP.rowfn(I2, Q); return mk(I2, (Q.shape[0], D), lambda i, j: el(DEC(r(ZI(i))), ZI(j)), row=lambda i: DEC(r(ZI(i))))
    g = ObjV(I, 'ghost', {'upd': [], 'norm': [], 'batches': [], 'fails': False}, tag='stub')
    def c_norm(I2, a, fv):
        y = NP.as_arr(I2, a['Y']); d = I2.fresh('normalised', 'Real', ['Int']); out = mk(I2, y.shape, lambda i, j: d(ZI(i)))
        g.fields['norm'] = g.fields['norm'] + [(snapshot_arr(I2, y), snapshot_arr(I2, out))]; return out
    I.contracts['GPyOpt.util.general.normalize'] = c_norm
    def ctor(nm):
        def f(I2, a, c):
            o = stub(I2, nm); o.b = {k: v for k, v in bound(I2, c, a).items()}; o.s = {k: snap_val(I2, v) for k, v in o.b.items()}; return o
        return f
    I.contracts[DUP] = ctor('DuplicateManager'); I.contracts[CTX] = ctor('ContextManager')
    def upd(I2, x, y, *rest): g.fields['upd'] = g.fields['upd'] + [(snapshot_arr(I2, NP.as_arr(I2, x)), snapshot_arr(I2, NP.as_arr(I2, y)))]
    P = integer(I, 'P', 1)
    model = stub(I, 'Model', updateModel=native('updateModel', upd), get_model_parameters=native('gmp', lambda I2: mat(I2, 1, P, 'par')))
    opt = stub(I, 'AcquisitionOptimizer', context_manager=stub(I, 'ContextManager of an earlier request'))
    acq = stub(I, 'Acquisition', optimizer=opt)
    def batch(I2, duplicate_manager=None, context_manager=None):
        m = I2.fresh('m', 'Int'); I2.assume(m >= 1); S = mat(I2, m, MD, 'S')
        g.fields['batches'] = g.fields['batches'] + [dict(dup=duplicate_manager, ctx=context_manager, seen=opt.fields['context_manager'], S=S, fits=len(g.fields['upd']))]
        return S
    ev = stub(I, 'Evaluator', compute_batch=native('compute_batch', batch))
    def evaluate(I2, *a):
        I2.prove(False, 'the objective is not evaluated'); raise Infeasible()
    space = stub(I, 'Space', unzip_inputs=native('unzip_inputs', enc), zip_inputs=native('zip_inputs', dec))
    o = newobj(I, B, X=X, Y=Y, space=space, model=model, objective=stub(I, 'Objective', evaluate=native('evaluate', evaluate)), acquisition=acq, evaluator=ev, normalize_Y=norm, normalization_type='stats',
               num_acquisitions=integer(I, 'num', 0), model_update_interval=integer(I, 'interval', 1), model_parameters_iterations=mat(I, integer(I, 'saved', 1), integer(I, 'P0', 1), 'saved'), context=stub(I, 'context of an earlier request'),
               de_duplication=dedup, cost=stub(I, 'CostModel', cost_type=None))
    o.g = g; o.X0, o.Y0 = X, Y; o.Xc, o.Yc = snapshot_arr(I, X), snapshot_arr(I, Y); o.ENC, o.DEC, o.D, o.MD = ENC, DEC, D, MD; o.opt = opt
    return o
def same_mat(I, em, nm, v, m, mc):
    """v is the matrix the caller gave, with unchanged contents"""
    if m is None: em('no %s' % nm, v is None); return
    em('%s are given' % nm, isinstance(v, Arr))
    if not isinstance(v, Arr): return
    em('%s: the same rows' % nm, zand(zeq(v.shape[0], mc.shape[0]), v.ndim == 2))
    if v.ndim == 2: em.forall([mc.shape[0]], lambda i: zeq_row(I, v, i, mc, i), '%s: unchanged' % nm)
def p_request(I, em, o, rq, r, k, dedup, norm, fit=True):
    """what one request guarantees; k: number of requests before it"""
    g = o.g.fields; F = o.fields; n = o.Xc.shape[0]; w = ' (request %d)' % (k + 1)
    em('recorded data: same shape' + w, zand(zeq(F['X'].shape[0], n), zeq(F['Y'].shape[0], n), F['Y'].ndim == 2))
    em.forall([n], lambda i: zand(zeq_row(I, F['X'], i, o.Xc, i), zeq(F['Y'].data(i, 0), o.Yc.data(i, 0))), 'recorded data unchanged' + w)
    em.forall([n], lambda i: zand(zeq_row(I, o.X0, i, o.Xc, i), zeq(o.Y0.data(i, 0), o.Yc.data(i, 0))), 'the arrays themselves are unchanged' + w)
    bs = g['batches']; em('one batch is computed' + w, len(bs) == k + 1)
    if len(bs) != k + 1: return
    b = bs[k]
    if fit:
        us = g['upd']; em('the surrogate is fitted before' + w, len(us) >= k + 1 and b['fits'] >= k + 1)
        if us:
            x, y = us[-1]; rx, ro = NP.rowfn(I, x), NP.rowfn(I, o.Xc)
            em('fitted on every recorded evaluation' + w, zand(zeq(x.shape[0], n), zeq(y.shape[0], n)))
            em.forall([n], lambda i: rx(ZI(i)) == o.ENC(ro(ZI(i))), 'fitted on the encoded recorded inputs' + w)
            if norm:
                em('outputs normalised' + w, len(g['norm']) >= 1)
                if g['norm']:
                    yi, yo = g['norm'][-1]; em.forall([n], lambda i: zand(zeq(yi.data(i, 0), o.Yc.data(i, 0)), zeq(y.data(i, 0), yo.data(i, 0))), 'fitted on the normalised recorded outputs' + w)
            else: em.forall([n], lambda i: zeq(y.data(i, 0), o.Yc.data(i, 0)), 'fitted on the recorded outputs' + w)
    for c, nm in ((b['ctx'], 'given to the evaluator'), (b['seen'], 'used by the acquisition search')):
        ok = isinstance(c, ObjV) and hasattr(c, 'b'); em('the context %s is the one of this request' % nm + w, ok and c.b.get('space') is F['space'] and c.b.get('context') is rq.ctx)
    d = b['dup']
    if not dedup: em('nothing is excluded' + w, d is None)
    else:
        em('exclusions are given' + w, isinstance(d, ObjV) and hasattr(d, 'b'))
        if isinstance(d, ObjV) and hasattr(d, 'b'):
            em('exclusions of this space' + w, d.b.get('space') is F['space'])
            same_mat(I, em, 'evaluated points' + w, d.s.get('zipped_X'), o.X0, o.Xc); same_mat(I, em, 'pending points' + w, d.s.get('pending_zipped_X'), rq.pend, rq.pc); same_mat(I, em, 'ignored points' + w, d.s.get('ignored_zipped_X'), rq.ign, rq.ic)
    R = as_arr(I, r); S = b['S']; em('one row per batch point' + w, zand(R.ndim == 2, zeq(R.shape[0], S.shape[0]), zeq(R.shape[-1], o.D)))
    if R.ndim == 2:
        rr, rs = NP.rowfn(I, R), NP.rowfn(I, S); em.forall([S.shape[0]], lambda i: rr(ZI(i)) == o.DEC(rs(ZI(i))), 'the decoded batch points, in order' + w)

class Suggest(object):
    """two requests on an optimizer in an arbitrary state; the second has its own context, pending and ignored points"""
    timeout = None
    def __init__(self, dedup, norm, ctx, pend, ign): self.q = (dedup, norm, ctx, pend, ign); self.label = B + '.suggest_next_locations (%s, %s; %s, then the opposite)' % ('de-duplication' if dedup else 'no de-duplication', 'normalised' if norm else 'as recorded', ', '.join(w for w, t in (('context', ctx), ('pending', pend), ('ignored', ign)) if t) or 'plain')
    def run(self, I):
        dedup, norm, ctx, pend, ign = self.q; I.cur = self.label; em = Prover(I)
        fv = I.lookup_qual(B + '.suggest_next_locations')
        if fv is None: raise Unsupported('no suggest_next_locations')
        o = state(I, dedup, norm); rqs = [Request(I, ctx, pend, ign), Request(I, not ctx, not pend, not ign)]
        def kw(r): return {k: v for k, v in (('context', r.ctx), ('pending_X', r.pend), ('ignored_X', r.ign)) if v is not None}
        def body():
            out = []; fits = []
            for r in rqs: out.append(I.call(I.getattr(o, 'suggest_next_locations'), [], kw(r))); fits.append(len(o.g.fields['upd']))
            return out
        def body1(): return [I.call(I.getattr(o, 'suggest_next_locations'), [], kw(rqs[0]))]
        if not I.vacuity('precondition is satisfiable'): return
        for b in (body1, body):
            outs = I.explore(b); snap0 = I.snapshot()
            if not outs: em('some path', False)
            for u in outs:
                I.load(u.snap); cx = Ctx('path'); cx.pc = list(u.pc); cx.facts = list(u.facts); I.stack.append(cx)
                try:
                    if u.kind == 'raise': em('does not raise (%s)' % u.value.clsname, False); continue
                    k = len(u.value) - 1
                    p_request(I, em, o, rqs[k], u.value[k], k, dedup, norm)
                finally: I.stack.pop()
            I.load(snap0)
SUGGEST = [Suggest(d, nz, *q) for d, nz, q in ((True, True, (True, True, True)), (True, False, (False, True, False)), (True, False, (True, False, True)), (False, True, (True, False, False)), (False, False, (False, False, False)), (True, True, (False, False, False)))]

# one step of the loop
def s_next(dedup, pend, ctx):
    def f(I):
        o = state(I, dedup, False); o.rq = Request(I, ctx, pend, pend); o.fields['context'] = o.rq.ctx
        return [o] + ([o.rq.pend, o.rq.ign] if pend else [])
    return f
def p_next(dedup):
    def p(I, em, a, r): o = a[0]; p_request(I, em, o, o.rq, r, 0, dedup, False, fit=False); em('the surrogate is not refitted', len(o.g.fields['upd']) == 0)
    return p
NEXT = [Contract(B + '._compute_next_evaluations', s_next(d, p, c), p_next(d), name=B + '._compute_next_evaluations (%s%s%s)' % ('de-duplication' if d else 'no de-duplication', ', pending and ignored points' if p else '', ', context' if c else '')) for d in (True, False) for p in (True, False) for c in (True, False)]
CONTRACTS = SUGGEST + NEXT
