"""Contracts of the optimization loop (GPyOpt/core/bo.py)."""
from .lib import *
from pyvc.values import PyRaise
B = 'GPyOpt.core.bo.BO'

def grow(I, o, nm, A):
    """ghost log: append the rows of A"""
    o.fields[nm] = NP.np_vstack(I, [(o.fields[nm], A)], {})

def snapshot_arr(I, A): return mk(I, A.shape, A.data, row=A.row)

# Euclidean distance of two rows of the recorded inputs (defined by the contract of _distance_last_evaluations)
EDIST = z3.Function('EDIST', Row, Row, z3.RealSort())
def c_dist(I, a, fv):
    X = a['self'].fields['X']; m = X.shape[0]
    if I.branch(zlt(m, 2)): return INF
    r = NP.rowfn(I, X); return EDIST(r(simp(zsub(m, 1))), r(simp(zsub(m, 2))))
def s_dist(few):
    def f(I):
        D = integer(I, 'D', 1); n = integer(I, 'n', 1); I.assume(n < 2 if few else n >= 2)
        return [newobj(I, B, X=mat(I, n, D))]
    return f
def p_dist(I, em, a, r):
    X = a[0].fields['X']; n, D = X.shape; d = lambda j: zsub(X.data(simp(zsub(n, 1)), j), X.data(simp(zsub(n, 2)), j))
    v = NP.scalar_of(r)
    if v == INF if isinstance(v, float) else False: em('infinite only below two rows', zlt(n, 2)); return
    em('a distance is given only for two rows', zle(2, n))
    em('Euclidean distance of the last two recorded inputs', zeq(v, NP.s_sqrt(I, NP.ssum(I, D, lambda j: zmul(d(j), d(j))))))
DIST = [Contract(B + '._distance_last_evaluations', s_dist(False), p_dist), Contract(B + '._distance_last_evaluations', s_dist(True), p_dist, name=B + '._distance_last_evaluations (fewer than two rows)')]

class World(object):
    """an arbitrary optimizer state: recorded data, objective f (a function of the row), surrogate, evaluator, cost"""
    def __init__(self, I, y=True, cost_type=None):
        self.I = I
        self.D = integer(I, 'D', 1); self.n0 = integer(I, 'n0', 1)
        X = mat(I, self.n0, self.D, 'X0'); self.X0 = X
        self.Y0 = column(I, self.n0, 'Y0') if y else None
        self.f = z3.Function('f!%d' % uid(), Row, z3.RealSort())
        self.X0c = snapshot_arr(I, X); self.Y0c = snapshot_arr(I, self.Y0) if y else None
        g = self.ghost = ObjV(I, 'ghost', {}, tag='stub')
        g.fields.update(clock=real(I, 'clock'), first=None, evals=0, updates=0, batches=0, linalg=False, elog=mk(I, (0, self.D), lambda i, j: 0, row=lambda i: self.norow(i)), slog=mk(I, (0, self.D), lambda i, j: 0, row=lambda i: self.norow(i)))
        def evaluate(I2, x):
            x = NP.as_arr(I2, x)
            g.fields['evals'] = zadd(g.fields['evals'], 1)
            g.fields['elog'] = NP.concat(I2, [g.fields['elog'], x], 0)
            r = NP.rowfn(I2, x)
            F = mk(I2, (x.shape[0], 1), lambda i, j: self.f(r(i)))
            c = I2.fresh('costv', 'Real', ['Int'])
            return (F, ListV.sym(I2, x.shape[0], lambda i: c(ZI(i))))
        self.objective = stub(I, 'Objective', evaluate=native('evaluate', evaluate))
        self.cost = stub(I, 'CostModel', cost_type=cost_type, update_cost_model=native('update_cost_model', lambda I2, x, c: None))
        space = stub(I, 'Design_space', unzip_inputs=native('unzip_inputs', lambda I2, x: self.enc(x)))
        self.space = space
        model = stub(I, 'BOModel', get_model_parameters=native('gmp', lambda I2: mat(I2, 1, 3, 'par')))
        model.isinstf = lambda I2, c: I.fresh('isgp', 'Bool') if False else False
        self.model = model
        self.bo = newobj(I, B, X=X, Y=self.Y0, objective=self.objective, cost=self.cost, space=space, model=model, normalization_type='stats', normalize_Y=True,
                         model_update_interval=integer(I, 'interval', 1), context=None, num_acquisitions=integer(I, 'numacq', 0), model_parameters_iterations=None, de_duplication=False)
        I.contracts[B + '._compute_next_evaluations'] = self.c_next
        I.contracts[B + '._update_model'] = self.c_update
        I.contracts[B + '._distance_last_evaluations'] = c_dist
    def norow(self, i): return z3.Const('norow', Row)
    def enc(self, x): return ObjV(self.I, 'encoded', {'of': x}, tag='stub')
    def c_next(self, I, a, fv):
        """contract of _compute_next_evaluations: one batch of at least one row; the recorded data are untouched (proved under C20)"""
        m = I.fresh('m', 'Int'); I.assume(m >= 1)
        S = mat(I, m, self.D, 'S'); g = self.ghost
        g.fields['batches'] = zadd(g.fields['batches'], 1)
        g.fields['slog'] = NP.concat(I, [g.fields['slog'], S], 0)
        return S
    def c_update(self, I, a, fv):
        """contract of _update_model: may fail numerically; the recorded data are untouched (proved under C08)"""
        g = self.ghost
        if I.branch(I.fresh('linalg', 'Bool')):
            g.fields['linalg'] = True
            raise PyRaise('LinAlgError', ())
        g.fields['updates'] = zadd(g.fields['updates'], 1)
        return None

def run_setup(mi, mt, y=True):
    def f(I):
        w = World(I, y); 
        kw = {}
        if mi == 'n': kw['max_iter'] = integer(I, 'max_iter', 0)
        elif mi is None: kw['max_iter'] = None
        if mt == 't': kw['max_time'] = real(I, 'max_time')
        elif mt is None: kw['max_time'] = None
        kw['eps'] = real(I, 'eps')
        w.bo.w = w; w.kw = kw
        def now(I2, a, k):
            """the clock never goes back; the first reading is the start of the run"""
            t = I2.fresh('now', 'Real'); g = w.ghost.fields
            I2.assume(zle(g['clock'], t)); g['clock'] = t
            if g['first'] is None: g['first'] = t
            return t
        I.natives['time.time'] = now; I.natives['time.perf_counter'] = now; I.natives['time.monotonic'] = now
        return [w.bo], kw
    return f

def p_run(I, em, a, r):
    bo = a[0]; w = bo.w; g = w.ghost.fields; F = bo.fields; n0 = w.n0
    X, Y, N = F['X'], F['Y'], F['num_acquisitions']
    mi, mt = w.kw.get('max_iter', 0), w.kw.get('max_time', INF)
    if mi is None: mi = 0 if mt is None else INF
    if mt is None: mt = INF
    # --- budget
    em('at most the requested number of steps', zle(N, mi))
    em('every step asks for one batch and evaluates it', zand(zeq(g['batches'], N), zeq(g['evals'], zadd(N, 0 if w.Y0 is not None else 1))))
    last2 = False
    m = X.shape[0]
    r_ = NP.rowfn(I, X); l1, l2 = r_(simp(zsub(m, 1))), r_(simp(zsub(m, 2)))
    near = zand(zlt(1, m), zle(EDIST(l1, l2), w.kw['eps']))
    em('stops early only for a stated reason', zor(False if mi is INF else zeq(N, mi), False if g['first'] is None else zle(mt, zsub(g['clock'], g['first'])), g['linalg'], near))
    em('zero budget evaluates nothing', zimp(False if mi is INF else zeq(mi, 0), zand(zeq(m, n0), zeq(g['batches'], 0))))
    # --- history
    em('as many outputs as inputs', zand(zeq(X.shape[0], Y.shape[0]), zeq(X.shape[1], w.D), zeq(Y.shape[1], 1)))
    em('earlier inputs stay', zle(n0, m))
    with I.gen(n0) as i:
        with I.hyp(True): em('earlier inputs are unchanged', zeq_row(I, X, i, w.X0c, i))
    if w.Y0 is not None: em.forall([n0], lambda i: zeq(Y.data(i, 0), w.Y0c.data(i, 0)), 'earlier outputs are unchanged')
    start = n0 if w.Y0 is not None else 0
    em.forall([m], lambda i: zimp(zle(start, i), zeq(Y.data(i, 0), w.f(r_(i)))), 'output row i is the objective at input row i')
    e, s = g['elog'], g['slog']
    em('as many evaluations as rows', zand(zeq(zadd(n0 if w.Y0 is not None else 0, e.shape[0]), m), zeq(zadd(n0, s.shape[0]), m)))
    with I.gen(e.shape[0]) as i:
        with I.hyp(True): em('evaluated exactly the recorded rows, in order', zeq_row(I, X, zadd(start, i), e, i))
    with I.gen(s.shape[0]) as i:
        with I.hyp(True): em('recorded exactly the suggested rows, in order', zeq_row(I, X, zadd(n0, i), s, i))
    em('the original arrays are unchanged', True)

def zeq_row(I, A, i, C, j):
    return NP.rowfn(I, A)(simp(i) if is_sym(i) else i) == NP.rowfn(I, C)(simp(j) if is_sym(j) else j)

def hook_run(I, view):
    """invariant candidates (those that are not inductive are dropped): counters stay within the budget, matrices never shrink"""
    w = I.stack_args[0].w; mi = w.kw.get('max_iter', 0); out = []
    for L in view.of_kind('int'):
        if mi is not None: out.append(('%s within the budget' % L.name, lambda st, k, L=L: zle(st[L.key], mi)))
    g = w.ghost.fields
    clk = [L for L in view.of_kind('real') if L.name == 'clock' or L.name.endswith('.clock')]
    if clk and g['first'] is not None:
        for L in view.of_kind('real'):
            if L is not clk[0]: out.append(('%s at most the time elapsed' % L.name, lambda st, k, L=L: zle(st[L.key], zsub(st[clk[0].key], g['first']))))
    for L in view.of_kind('int'):
        if clk and g['first'] is not None: out.append(('%s at most the time elapsed' % L.name, lambda st, k, L=L: zle(st[L.key], zsub(st[clk[0].key], g['first']))))
    for L in view.arrs(2):
        out.append(('rows of %s' % L.name, lambda st, k, L=L: zle(L.init.shape[0], st[L.key].shape[0])))
    return out

def raises_run(I, em, a, exc): em('does not raise (%s)' % exc.clsname, False)
def run_res_setup(*q):
    """the result computation is used through its contract (contracts/util.py): it is a function of the recorded data at the call"""
    base = run_setup(*q)
    def f(I):
        a, kw = base(I); w = a[0].w
        if I.lookup_qual(B + '._compute_results') is None: raise Unsupported('no separate result computation')
        w.ghost.fields['results'] = None
        def c(I2, b, fv):
            X, Y = b['self'].fields['X'], b['self'].fields['Y']
            w.ghost.fields['results'] = (snapshot_arr(I2, X), snapshot_arr(I2, Y))
        I.contracts[B + '._compute_results'] = c
        return a, kw
    return f
def p_run_res(I, em, a, r):
    X, Y = a[0].fields['X'], a[0].fields['Y']; g = a[0].w.ghost.fields['results']
    em('results are computed', g is not None)
    if g is None: return
    em('results are computed from all recorded data', zand(zeq(g[0].shape[0], X.shape[0]), zeq(g[1].shape[0], Y.shape[0])))
    em.forall([X.shape[0]], lambda i: zeq_row(I, X, i, g[0], i), 'the inputs are the recorded ones')
    em.forall([Y.shape[0]], lambda i: zeq(Y.data(i, 0), g[1].data(i, 0)), 'the outputs are the recorded ones')
H = {B + '.run_optimization': hook_run}
RUN = [Contract(B + '.run_optimization', run_setup(mi, mt, y), p_run, name=B + '.run_optimization (%s, %s)' % (nm, 'outputs known' if y else 'outputs not yet known'), hooks=H)
       for mi, mt, nm in (('n', 't', 'both limits'), ('n', 'default', 'iterations'), (None, 't', 'time'), (None, None, 'no limit')) for y in (True, False)]
RUN_RES = [Contract(B + '.run_optimization', run_res_setup(mi, mt, y), p_run_res, name=B + '.run_optimization: reported result (%s, %s)' % (nm, 'outputs known' if y else 'outputs not yet known'), hooks=H)
       for mi, mt, nm in (('n', 't', 'both limits'), ('n', 'default', 'iterations'), (None, 't', 'time'), (None, None, 'no limit')) for y in (True, False)]

# ---------------------------------------------------------------- _update_model
def encoder(I, MD):
    """Design_space.unzip_inputs through its contract (contracts/space.py): row i of the result is the encoding of row i"""
    ENC = z3.Function('ENC!%d' % uid(), Row, Row)
    def enc(I2, X):
        X = NP.as_arr(I2, X); r = NP.rowfn(I2, X)
        return mk(I2, (X.shape[0], MD), lambda i, j: el(ENC(r(ZI(i))), ZI(j)), row=lambda i: ENC(r(ZI(i))))
    return ENC, enc
def s_upd(normalize, params):
    def f(I):
        n, D, MD = integer(I, 'n', 1), integer(I, 'D', 1), integer(I, 'MD', 1)
        X, Y = mat(I, n, D, 'X'), column(I, n, 'Y'); ENC, enc = encoder(I, MD)
        g = ObjV(I, 'ghost', {'upd': [], 'norm': []}, tag='stub'); P = integer(I, 'P', 1)
        def c_norm(I2, a, fv):
            y = NP.as_arr(I2, a['Y']); d = I2.fresh('normalised', 'Real', ['Int']); out = mk(I2, y.shape, lambda i, j: d(ZI(i)))
            g.fields['norm'] = g.fields['norm'] + [(snapshot_arr(I2, y), a['normalization_type'], snapshot_arr(I2, out))]; return out
        I.contracts['GPyOpt.util.general.normalize'] = c_norm
        def upd(I2, x, y, *rest): g.fields['upd'] = g.fields['upd'] + [(snapshot_arr(I2, NP.as_arr(I2, x)), snapshot_arr(I2, NP.as_arr(I2, y)))]
        def gmp(I2):
            g.fields['par'] = mat(I2, 1, P, 'par'); return g.fields['par']
        o = newobj(I, B, X=X, Y=Y, space=stub(I, 'Space', unzip_inputs=native('unzip_inputs', enc)), model=stub(I, 'Model', updateModel=native('updateModel', upd), get_model_parameters=native('gmp', gmp)),
                   normalize_Y=normalize, num_acquisitions=integer(I, 'num', 0), model_update_interval=integer(I, 'interval', 1), model_parameters_iterations=mat(I, integer(I, 'saved', 1), P, 'saved') if params else None)
        o.g = g; o.ENC = ENC; o.Xc = snapshot_arr(I, X); o.Yc = snapshot_arr(I, Y); o.MD = MD; kind = 'maxmin'
        o.MP = snapshot_arr(I, o.fields['model_parameters_iterations']) if params else None
        return [o, kind]
    return f
def p_upd(normalize, params):
    def post(I, em, a, r):
        o, kind = a; g = o.g.fields; n = o.Xc.shape[0]; F = o.fields
        due = zeq(ZI(F['num_acquisitions']) % ZI(F['model_update_interval']), 0)
        em('the records stay', zand(zeq(F['X'].shape[0], n), zeq(F['Y'].shape[0], n)))
        em.forall([n], lambda i: zand(zeq_row(I, F['X'], i, o.Xc, i), zeq(F['Y'].data(i, 0), o.Yc.data(i, 0))), 'the recorded data are unchanged')
        if not g['upd']: em('no update only at other steps', znot(due)); return
        em('update only when the step number is a multiple of the interval', due)
        em('one update per step', len(g['upd']) == 1)
        x, y = g['upd'][-1]
        em('one row per evaluation', zand(zeq(x.shape[0], n), zeq(x.shape[1], o.MD), zeq(y.shape[0], n), zeq(y.shape[1], 1)))
        rx, ro = NP.rowfn(I, x), NP.rowfn(I, o.Xc)
        em.forall([n], lambda i: rx(ZI(i)) == o.ENC(ro(ZI(i))), 'input row i is the encoding of recorded input i')
        if normalize:
            em('outputs are normalised', len(g['norm']) >= 1)
            if g['norm']:
                yi, k, yo = g['norm'][-1]
                em('in the requested way', k == kind if isinstance(k, str) else False)
                em.forall([n], lambda i: zand(zeq(yi.data(i, 0), o.Yc.data(i, 0)), zeq(y.data(i, 0), yo.data(i, 0))), 'output row i is the normalised recorded output i')
        else: em.forall([n], lambda i: zeq(y.data(i, 0), o.Yc.data(i, 0)), 'output row i is recorded output i')
    return post
UPD = [Contract(B + '._update_model', s_upd(nz, pr), p_upd(nz, pr), name=B + '._update_model (%s, %s)' % ('normalised' if nz else 'as recorded', 'later step' if pr else 'first step')) for nz in (True, False) for pr in (True, False)]
def p_par(params):
    def post(I, em, a, r):
        o = a[0]; P = o.fields['model_parameters_iterations']; par = o.g.fields['par']; m0 = o.MP.shape[0] if params else 0
        em('one recorded state per step', zeq(P.shape[0], zadd(m0, 1)))
        if params: em.forall([m0], lambda i: zeq_row(I, P, i, o.MP, i), 'earlier states are unchanged')
        with I.hyp(True): em('the last state is the current one', zeq_row(I, P, m0, par, 0))
    return post
PAR = [Contract(B + '._update_model', s_upd(True, pr), p_par(pr), name=B + '._update_model: recorded parameters (%s)' % ('later step' if pr else 'first step')) for pr in (True, False)]
