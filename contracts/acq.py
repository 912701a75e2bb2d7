"""Contracts of the acquisition functions (GPyOpt/acquisitions/*.py, get_quantiles in util/general.py).

A surrogate gives at a row x a mean m(x), a standard deviation s(x) and their gradients; the integrated versions get one such result
per hyper-parameter sample k.  The specifications below are closed-form expressions of these numbers; that the stated gradients are the
derivatives of the stated values is the lemma CALCULUS, discharged by computer algebra."""
from .lib import *
from .bo import snapshot_arr
import time, sympy
from pyvc.engine import PI, Obligation
from pyvc.field import Field
A = 'GPyOpt.acquisitions.'
FLOOR = Fraction(1, 10 ** 10)
def sd(s): return zite(zlt(s, FLOOR), FLOOR, s)
def pdf(I, u): return zdiv(NP.s_exp(I, zmul(Fraction(-1, 2), zmul(u, u))), NP.s_sqrt(I, zmul(2, PI)))
def cdf(I, u): return zmul(Fraction(1, 2), NP.s_erfc(I, zneg(zdiv(u, NP.s_sqrt(I, 2)))))
def v_ei(I, m, s, f, p): s = sd(s); u = zdiv(zsub(zsub(f, m), p), s); return zmul(s, zadd(zmul(u, cdf(I, u)), pdf(I, u)))
def v_ei_plus(I, m, s, f, p): s = sd(s); u = zdiv(zsub(zsub(f, m), p), s); return zadd(zmul(zadd(zsub(f, m), p), cdf(I, u)), zmul(s, pdf(I, u)))   # the recorded finding
def g_ei(I, m, s, dm, ds, f, p): s = sd(s); u = zdiv(zsub(zsub(f, m), p), s); return zsub(zmul(ds, pdf(I, u)), zmul(cdf(I, u), dm))
def v_mpi(I, m, s, f, p): s = sd(s); return cdf(I, zdiv(zsub(zsub(f, m), p), s))
def g_mpi(I, m, s, dm, ds, f, p): s = sd(s); u = zdiv(zsub(zsub(f, m), p), s); return zneg(zmul(zdiv(pdf(I, u), s), zadd(dm, zmul(ds, u))))
def v_lcb(I, m, s, f, p): return zadd(zneg(m), zmul(p, s))
def g_lcb(I, m, s, dm, ds, f, p): return zadd(zneg(dm), zmul(p, ds))
SPEC = {'EI': (v_ei, g_ei, 'jitter'), 'MPI': (v_mpi, g_mpi, 'jitter'), 'LCB': (v_lcb, g_lcb, 'exploration_weight')}
class Surrogate(object):
    """an arbitrary surrogate; K is None for a plain one, otherwise the number of hyper-parameter samples"""
    def __init__(self, I, K=None):
        self.K = K; F = lambda nm, *s: z3.Function('%s!%d' % (nm, uid()), *(list(s) + [z3.RealSort()])); ks = [] if K is None else [z3.IntSort()]
        self.m, self.s, self.dm, self.ds = F('mean', *(ks + [Row])), F('sd', *(ks + [Row])), F('dmean', *(ks + [Row, z3.IntSort()])), F('dsd', *(ks + [Row, z3.IntSort()]))
        self.f = F('fmin', *ks) if ks else real(I, 'fmin')
        cast = lambda I2, X, fn, k, wide: (lambda r: mk(I2, (X.shape[0], X.shape[1] if wide else 1), (lambda i, j: fn(*(k + [r(ZI(i)), ZI(j)]))) if wide else (lambda i, j: fn(*(k + [r(ZI(i))])))))(NP.rowfn(I2, X))
        def out(I2, X, fn, wide=False):
            X = NP.atleast_2d(I2, as_arr(I2, X))
            if K is None: return cast(I2, X, fn, [], wide)
            return ListV.sym(I2, K, lambda k: cast(I2, X, fn, [ZI(k)], wide))
        pred = lambda I2, X: (out(I2, X, self.m), out(I2, X, self.s))
        predg = lambda I2, X: (out(I2, X, self.m), out(I2, X, self.s), out(I2, X, self.dm, True), out(I2, X, self.ds, True))
        fmin = lambda I2: self.f if K is None else ListV.sym(I2, K, lambda k: self.f(ZI(k)))
        self.obj = stub(I, 'Surrogate', predict=native('predict', pred), predict_withGradients=native('predict_withGradients', predg), get_fmin=native('get_fmin', fmin), MCMC_sampler=K is not None, analytical_gradient_prediction=True)
    def at(self, r, k=None): a = [] if k is None else [ZI(k)]; return self.m(*(a + [r])), self.s(*(a + [r]))
    def dat(self, r, j, k=None): a = [] if k is None else [ZI(k)]; return self.dm(*(a + [r, ZI(j)])), self.ds(*(a + [r, ZI(j)]))
    def fm(self, k=None): return self.f if k is None else self.f(ZI(k))
def factors(d): return [y for c in d.children() for y in factors(c)] if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_MUL else [d]
def field_eq(I, a, b):
    """a == b as rational functions: (holds, denominators that have to be nonzero)"""
    F = Field()
    try: ok = F.equal(ZR(a), ZR(b))
    except (sympy.PolynomialError, ZeroDivisionError): return False, []
    ds = {}
    for d in F.denominators():
        for f in factors(d):
            if not z3.is_rational_value(f): ds[f.sexpr()] = f
    return ok, list(ds.values())
def equal_now(I, a, b):
    """quick test: solver, then rational functions"""
    ok, ds = field_eq(I, a, b)
    return (ok and all(I.check(znot(zeq(d, 0)), 2000) for d in ds)) or I.check(zeq(ZR(a), ZR(b)), 1500)
def em_field(I, em, a, b, name):
    """a == b: as rational functions (with the denominators shown to be nonzero), else by the solver"""
    a, b = ZR(a), ZR(b)
    if I.replaying() or I.silent: return em(name, zeq(a, b))
    t0 = time.time(); ok, ds = field_eq(I, a, b)
    if not ok: return em(name, zeq(a, b))
    for d in ds: em(name + ': denominators are nonzero', znot(zeq(d, 0)))
    I.obls.append(Obligation(I.cur, name, 'ok', 'sympy', time.time() - t0)); I.assume(zeq(a, b))
def sum_apps(t):
    seen = {}; todo = [t]; done = set()
    while todo:
        x = todo.pop()
        if x.get_id() in done: continue
        done.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name().startswith('SUM!'): seen[x.get_id()] = x
            else: todo += x.children()
    return list(seen.values())
def mean_obligations(I, F, K, g, name):
    """K F = g(0) + ... + g(K-1): the code's value is split into a part without sums and a combination of sums of n <= K terms; the part without
    sums has to be the first K - n terms and the combined summand, pointwise, the remaining ones (sums split, add and scale termwise).
    Gives (range or None, name, left, right)"""
    F = ZR(F)
    num = F.children()[0] if z3.is_app(F) and F.decl().kind() == z3.Z3_OP_DIV and F.children()[1].eq(ZR(K)) else simp(ZR(zmul(F, K)))
    return sum_obligations(I, num, K, g, name)
def sum_obligations(I, num, K, g, name):
    """num = g(0) + ... + g(K-1)"""
    num = ZR(num); S = sum_apps(num); ns = {str(t.arg(0)): t.arg(0) for t in S}
    if len(ns) > 1: return [(None, name + ' (sums over different ranges)', lambda: (num, NP.ssum(I, K, g)))]
    n1 = list(ns.values())[0] if ns else z3.IntVal(0); p = asint_const(simp(ZI(K) - n1))
    if p is None or p > 8: return [(None, name + ' (the sum does not cover the samples)', lambda: (num, NP.ssum(I, K, g)))]
    def first():
        f = 0
        for i in range(p): f = zadd(f, g(i))
        return f
    v = [z3.Real('s!%d' % i) for i in range(len(S))]
    lin = z3.substitute(num, *zip(S, v)) if S else num
    at = lambda b: simp(z3.substitute(lin, *[(x, z3.RealVal(y)) for x, y in zip(v, b)])) if v else lin
    zero = [0] * len(v); rest = at(zero); co = [simp(at(zero[:i] + [1] + zero[i + 1:]) - rest) for i in range(len(v))]
    tab = {f.name(): (ks, holes, body) for f, ks, holes, body in I.sumtab.values()}
    def body(j):
        out = z3.RealVal(0)
        for c, t in zip(co, S):
            ks, holes, b = tab[t.decl().name()]
            out = out + c * z3.substitute(b, (ks, ZI(j)), *zip(holes, t.children()[1:]))
        return out
    return [(None, name + ': the value is linear in the sums', lambda: (lin, rest + sum([c * x for c, x in zip(co, v)], z3.RealVal(0)))),
            (None, name + ': first samples', lambda: (rest, first())), (n1, name + ': remaining samples', lambda j: (body(j), g(zadd(p, j))))]
def ob_do(I, o, f):
    n, name, pair = o
    if n is None: return f(name, *pair())
    with I.gen(n) as j:
        with I.hyp(True): return f(name, *pair(j))
def lemma_mean(I, em, F, K, g, name, recorded=None):
    """recorded: the (name, summand) of a recorded deviation; when the value follows it, that is proved instead and the failed obligation carries the finding's name"""
    obs = mean_obligations(I, F, K, g, name)
    if recorded and not I.replaying() and not I.silent and not all(ob_do(I, o, lambda nm, a, b: equal_now(I, a, b)) for o in obs):
        obs2 = mean_obligations(I, F, K, recorded[1], name + ' apart from the recorded deviation')
        if all(ob_do(I, o, lambda nm, a, b: equal_now(I, a, b)) for o in obs2):
            I.obls.append(Obligation(I.cur, name + ' [' + recorded[0] + ']', 'failed', 'sympy', 0.0, 'the value follows the recorded deviation')); obs = obs2
    for o in obs: ob_do(I, o, lambda nm, a, b: em_field(I, em, a, b, nm))
CLS = {('EI', 0): 'EI.AcquisitionEI', ('MPI', 0): 'MPI.AcquisitionMPI', ('LCB', 0): 'LCB.AcquisitionLCB', ('EI', 1): 'EI_mcmc.AcquisitionEI_MCMC', ('MPI', 1): 'MPI_mcmc.AcquisitionMPI_MCMC', ('LCB', 1): 'LCB_mcmc.AcquisitionLCB_MCMC'}
def s_acq(kind, mc):
    def f(I):
        n, d = integer(I, 'n', 1), integer(I, 'd', 1); S = Surrogate(I, integer(I, 'K', 1) if mc else None); p = real(I, 'par'); I.aq = (S, p, n, d)
        x = mat(I, n, d, 'x'); return [newobj(I, A + CLS[kind, mc], model=S.obj, **{SPEC[kind][2]: p}), x]
    return f
def p_acq(kind, mc, grad):
    v, g, _ = SPEC[kind]
    def post(I, em, a, res):
        S, p, n, d = I.aq; x = a[1]; r = NP.rowfn(I, x)
        if grad: em('value and gradient', isinstance(res, tuple) and len(res) == 2); F, G = as_arr(I, res[0]), as_arr(I, res[1])
        else: F = as_arr(I, res)
        em('one value per point', zand(F.ndim == 2, zeq(F.shape[0], n), zeq(F.shape[-1], 1)))
        if grad: em('one gradient per point', zand(G.ndim == 2, zeq(G.shape[0], n), zeq(G.shape[-1], d)))
        w = 'value: the closed form' + (' averaged over the samples' if mc else '')
        with I.gen(n) as i:
            with I.hyp(True):
                row = r(i)
                if not mc: em_field(I, em, F.data(i, 0), v(I, *(S.at(row) + (S.fm(), p))), w)
                else: lemma_mean(I, em, F.data(i, 0), S.K, lambda k: v(I, *(S.at(row, k) + (S.fm(k), p))), w, ('ei_mcmc_value_jitter', lambda k: v_ei_plus(I, *(S.at(row, k) + (S.fm(k), p)))) if kind == 'EI' else None)
        if grad:
            with I.gen(n) as i:
                with I.gen(d) as j:
                    with I.hyp(True):
                        row = r(i)
                        if not mc: em_field(I, em, G.data(i, j), g(I, *(S.at(row) + S.dat(row, j) + (S.fm(), p))), 'gradient: its derivative')
                        else: lemma_mean(I, em, G.data(i, j), S.K, lambda k: g(I, *(S.at(row, k) + S.dat(row, j, k) + (S.fm(k), p))), 'gradient: its derivative averaged over the samples')
    return post
ACQ = [Contract(A + CLS[k, mc] + q, s_acq(k, mc), p_acq(k, mc, gr)) for k in SPEC for mc in (0, 1) for q, gr in (('._compute_acq', False), ('._compute_acq_withGradients', True))]

# --- the weighting by cost and feasibility (AcquisitionBase), for an arbitrary raw acquisition
AB = A + 'base.AcquisitionBase'
class Raw(object):
    def __init__(self, I, same):
        R_, I_ = z3.RealSort(), z3.IntSort(); F = lambda nm, *s: z3.Function('%s!%d' % (nm, uid()), *(list(s) + [R_]))
        self.f, self.c, self.ind = F('acq', Row), F('cost', Row), F('ind', Row); self.df, self.dc = F('dacq', Row, I_), F('dcost', Row, I_); self.zip = z3.Function('zip!%d' % uid(), Row, Row)
        n, d = self.n, self.d = integer(I, 'n', 1), integer(I, 'd', 1); od = d if same else integer(I, 'od', 1)
        if not same: I.assume(znot(zeq(od, d)))
        x = z3.Const('x!row', Row); I.raw_fact([x], z3.And(self.c(x) > 0, z3.Or(self.ind(x) == 0, self.ind(x) == 1)), [self.c(x)])
        r_ = z3.Const('x!row', Row); I.raw_fact([r_], z3.Or(self.ind(r_) == 0, self.ind(r_) == 1), [self.ind(r_)])
        self.X0 = mat(I, n, d, 'x'); self.x = snapshot_arr(I, self.X0); self.same = same
        rows = lambda I2, X, w: (NP.rowfn(I2, as_arr(I2, X)), as_arr(I2, X).shape[0])
        def col(fn): return lambda I2, X: (lambda A_: (I2.prove(zeq(A_.shape[-1], d), 'asked at encoded points'), (lambda r: mk(I2, (A_.shape[0], 1), lambda i, j: fn(r(ZI(i)))))(NP.rowfn(I2, A_)))[1])(as_arr(I2, X))
        def wide(fn): return lambda I2, X: (lambda A_, r: mk(I2, (A_.shape[0], d), lambda i, j: fn(r(ZI(i)), ZI(j))))(as_arr(I2, X), NP.rowfn(I2, as_arr(I2, X)))
        I.contracts[AB + '._compute_acq'] = lambda I2, b, fv: col(self.f)(I2, b['x'])
        I.contracts[AB + '._compute_acq_withGradients'] = lambda I2, b, fv: (col(self.f)(I2, b['x']), wide(self.df)(I2, b['x']))
        def zipped(I2, X):
            A_ = as_arr(I2, X); I2.prove(zeq(A_.shape[-1], d), 'decoded from encoded points'); r = NP.rowfn(I2, A_)
            return mk(I2, (A_.shape[0], od), lambda i, j: el(self.zip(r(ZI(i))), ZI(j)), row=lambda i: self.zip(r(ZI(i))))
        def indic(I2, X):
            A_ = as_arr(I2, X); I2.prove(zeq(A_.shape[-1], od), 'constraints are evaluated at decoded points'); r = NP.rowfn(I2, A_)
            return mk(I2, (A_.shape[0], 1), lambda i, j: self.ind(r(ZI(i))))
        self.space = stub(I, 'Design_space', model_dimensionality=d, objective_dimensionality=od, zip_inputs=native('zip_inputs', zipped), indicator_constraints=native('indicator_constraints', indic))
        self.cost = native('cost_withGradients', lambda I2, X: (col(self.c)(I2, X), wide(self.dc)(I2, X)))
        self.obj = newobj(I, AB, space=self.space, cost_withGradients=self.cost, model=stub(I, 'Surrogate'), optimizer=None)
    def point(self, r): return r if self.same else self.zip(r)
def s_base(same):
    def f(I): w = I.rw = Raw(I, same); return [w.obj, w.X0]
    return f
def p_base(grad):
    def post(I, em, a, res):
        w = I.rw; r = NP.rowfn(I, w.x)
        if grad: em('value and gradient', isinstance(res, tuple) and len(res) == 2); F, G = as_arr(I, res[0]), as_arr(I, res[1])
        else: F = as_arr(I, res)
        em('one value per point', zand(F.ndim == 2, zeq(F.shape[0], w.n), zeq(F.shape[-1], 1)))
        if grad: em('one gradient per point', zand(G.ndim == 2, zeq(G.shape[0], w.n), zeq(G.shape[-1], w.d)))
        with I.gen(w.n) as i:
            with I.hyp(True):
                x = r(i); ind = w.ind(w.point(x))
                em('zero where a constraint is violated', zimp(zeq(ind, 0), zeq(F.data(i, 0), 0)))
                em('minus the acquisition per unit of cost where feasible', zimp(zeq(ind, 1), zeq(zmul(F.data(i, 0), w.c(x)), zneg(w.f(x)))))
        if grad:
            with I.gen(w.n) as i:
                with I.gen(w.d) as j:
                    with I.hyp(True):
                        x = r(i); ind = w.ind(w.point(x)); c = w.c(x)
                        em('no gradient where a constraint is violated', zimp(zeq(ind, 0), zeq(G.data(i, j), 0)))
                        with I.hyp(zeq(ind, 1)):
                            g = simp(z3.substitute(ZR(G.data(i, j)), (ind, z3.RealVal(1))))
                            em_field(I, em, g, zneg(zdiv(zsub(zmul(w.df(x, ZI(j)), c), zmul(w.f(x), w.dc(x, ZI(j)))), zmul(c, c))), 'the gradient is the derivative of the quotient where feasible')
        em.forall([w.n, w.d], lambda i, j: zeq(w.X0.data(i, j), w.x.data(i, j)), 'the points are left alone')
    return post
BASE = [Contract(AB + q, s_base(sm), p_base(gr), name=AB + q + (' (same dimensions)' if sm else ' (encoded points)')) for q, gr in (('.acquisition_function', False), ('.acquisition_function_withGradients', True)) for sm in (True, False)]
# --- constructors
def s_ctor(kind, mc, cost, cfg=False):
    def f(I):
        w = I.ct = stub(I, 'ghost'); w.par = real(I, 'par'); w.ma = I.fresh('agp', 'Bool')
        w.model, w.space, w.opt = stub(I, 'Surrogate', MCMC_sampler=bool(mc), analytical_gradient_prediction=w.ma), stub(I, 'Design_space'), stub(I, 'AcquisitionOptimizer')
        w.cost = native('cost', lambda I2, X: None) if cost else None
        if cfg: return [w.model, w.space, w.opt, w.cost, DictV(I, [(SPEC[kind][2], w.par)])]
        return [w.model, w.space, w.opt, w.cost, w.par]
    return f
def p_ctor(kind, mc, cost):
    def post(I, em, a, o):
        w = I.ct; F = o.fields
        em('an acquisition of the class asked for', isinstance(o, ObjV) and isinstance(o.cls, ClassV) and o.cls is I.lookup_qual(A + CLS[kind, mc]))
        em('its model, space and optimizer', F.get('model') is w.model and F.get('space') is w.space and F.get('optimizer') is w.opt)
        em('its parameter', zeq(F[SPEC[kind][2]], w.par))
        got = F.get('cost_withGradients')
        if cost and kind != 'LCB': em('the cost given is the cost used', got is w.cost)
        else: em('the constant cost is used', hasattr(got, 'qual') and got.qual == 'GPyOpt.core.task.cost.constant_cost_withGradients')
        em('gradients are used exactly when the model has them', zeq(F['analytical_gradient_acq'], w.ma) if is_sym(F['analytical_gradient_acq']) else Z(w.ma) == z3.BoolVal(bool(F['analytical_gradient_acq'])))
    return post
CTOR = [Contract(A + CLS[k, mc] + ('.fromConfig' if cfg else ''), s_ctor(k, mc, c, cfg), p_ctor(k, mc, c), name=A + CLS[k, mc] + '%s (%s)' % ('.fromConfig' if cfg else '', 'cost given' if c else 'no cost')) for k in SPEC for mc in (0, 1) for c in (False, True) for cfg in (False, True) if not (cfg and (mc or k == 'LCB'))]
# --- calculus
def to_sympy(I, t, base):
    """a specification term as a sympy expression; base maps its symbols to functions of the differentiation variable"""
    import sympy as sp
    conv = lambda x: to_sympy(I, x, base)
    if z3.is_rational_value(t): return sp.Rational(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t): return sp.Integer(t.as_long())
    kd = t.decl().kind()
    if kd == z3.Z3_OP_ITE:
        for c, b in ((t.children()[0], 1), (z3.Not(t.children()[0]), 2)):
            if I.check(c): return conv(t.children()[b])
        raise Unsupported('case split in a specification')
    ch = [conv(c) for c in t.children()]
    if kd == z3.Z3_OP_ADD: return sp.Add(*ch)
    if kd == z3.Z3_OP_SUB: return ch[0] - sp.Add(*ch[1:])
    if kd == z3.Z3_OP_UMINUS: return -ch[0]
    if kd == z3.Z3_OP_MUL: return sp.Mul(*ch)
    if kd == z3.Z3_OP_DIV: return ch[0] / ch[1]
    if kd == z3.Z3_OP_TO_REAL: return ch[0]
    if kd == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name(); cdf_ = lambda z: (1 + sp.erf(z / sp.sqrt(2))) / 2
        if nm in base: return base[nm]
        return {'EXP': sp.exp, 'ERFC': sp.erfc, 'SQRT': sp.sqrt, 'LOG': sp.log, 'NCDF': cdf_, 'NLOGCDF': lambda z: sp.log(cdf_(z))}[nm](*ch)
    raise Unsupported('specification term %s' % t)
class Calculus(object):
    """the stated gradients are the derivatives of the stated values: the specification terms themselves (as the contracts above use them), read as sympy expressions
    of differentiable functions m(x), s(x) with s above the floor, are differentiated"""
    label = 'the stated gradients are the derivatives of the stated values'; timeout = None
    def run(self, I):
        import sympy as sp
        I.cur = self.label; x = sp.Symbol('x', real=True); M, Sg = sp.Function('m')(x), sp.Function('s')(x); f_, p_ = sp.symbols('f p', real=True)
        m, s, dm, ds, f, p = [z3.Real('cal!' + q) for q in ('m', 's', 'dm', 'ds', 'f', 'p')]; I.assume(s >= Z(FLOOR))
        base = {'cal!m': M, 'cal!s': Sg, 'cal!dm': M.diff(x), 'cal!ds': Sg.diff(x), 'cal!f': f_, 'cal!p': p_, 'pi': sp.pi}
        conv = lambda t: to_sympy(I, t, base)
        for kind, (v, g, _) in SPEC.items():
            t0 = time.time(); V, G = conv(ZR(v(I, m, s, f, p))), conv(ZR(g(I, m, s, dm, ds, f, p)))
            ok = sp.simplify(V.diff(x) - G) == 0
            I.obls.append(Obligation(I.cur, kind + ': the derivative of the value is the gradient', 'ok' if ok else 'failed', 'sympy', time.time() - t0))
        return I.obls
CONTRACTS = ACQ + BASE + CTOR + [Calculus()]
