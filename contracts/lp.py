"""Contracts of the local penalization acquisition (GPyOpt/acquisitions/LP.py)."""
from .lib import *
from .bo import snapshot_arr
from .acq import em_field, sum_obligations, ob_do, to_sympy
from pyvc.engine import PI, Obligation
import time
A = 'GPyOpt.acquisitions.'; LP = A + 'LP.AcquisitionLP'
EPS16, EPS50 = Fraction(1, 10 ** 16), Fraction(1, 10 ** 50)
class W(object):
    """arbitrary surrogate, base acquisition, query points and batch points"""
    def __init__(self, I, n=None, k=None, transform='none', batch=True, nd=2):
        R_, I_ = z3.RealSort(), z3.IntSort(); F = lambda nm, *s: z3.Function('%s!%d' % (nm, uid()), *(list(s) + [R_]))
        d = self.d = integer(I, 'd', 1); self.n = integer(I, 'n', 1) if n is None else n; self.k = integer(I, 'k', 1) if k is None else k
        self.m, self.s, self.a, self.da = F('mean', Row), F('sd', Row), F('acq', Row), F('dacq', Row, I_)
        x = z3.Const('x!row', Row); I.raw_fact([x], self.s(x) >= 0, [self.s(x)])
        self.L, self.Min = real(I, 'L'), real(I, 'Min'); I.assume(zlt(0, self.L))
        self.X0 = mat(I, self.n, d, 'x'); self.X = snapshot_arr(I, self.X0)
        self.B0 = mat(I, self.k, d, 'Xb') if batch else None; self.B = snapshot_arr(I, self.B0) if batch else None
        if nd == 1: v = vec(I, d, 'xb'); self.B0 = v; self.B = mk(I, (1, d), lambda i, j: v.data(j), row=lambda i: v.vec); self.k = 1
        self.rad = rvec(I, self.k, 'r_x0'); self.scl = rvec(I, self.k, 's_x0'); I.assume_forall([self.k], lambda i: zlt(0, self.scl.data(i)))
        col = lambda fn: (lambda I2, X: (lambda M, r: mk(I2, (M.shape[0], 1), lambda i, j: fn(r(ZI(i)))))(NP.atleast_2d(I2, as_arr(I2, X)), NP.rowfn(I2, NP.atleast_2d(I2, as_arr(I2, X)))))
        wide = lambda fn: (lambda I2, X: (lambda M, r: mk(I2, M.shape, lambda i, j: fn(r(ZI(i)), ZI(j))))(NP.atleast_2d(I2, as_arr(I2, X)), NP.rowfn(I2, NP.atleast_2d(I2, as_arr(I2, X)))))
        self.model = stub(I, 'Surrogate', predict=native('predict', lambda I2, X: (col(self.m)(I2, X), col(self.s)(I2, X))), analytical_gradient_prediction=True)
        self.acq = stub(I, 'Acquisition', acquisition_function=native('acquisition_function', col(self.a)), acquisition_function_withGradients=native('acquisition_function_withGradients', lambda I2, X: (col(self.a)(I2, X), wide(self.da)(I2, X))))
        self.transform = transform
        self.obj = newobj(I, LP, model=self.model, acq=self.acq, transform=transform, X_batch=self.B0, r_x0=self.rad if batch else None, s_x0=self.scl if batch else None)
    def dist(self, I, X, i, B, b): return NP.s_sqrt(I, NP.ssum(I, self.d, lambda j: zmul(zsub(X.data(i, j), B.data(b, j)), zsub(X.data(i, j), B.data(b, j)))))
    def z(self, I, X, i, b): return zdiv(zsub(self.dist(I, X, i, self.B, b), self.rad.data(b)), self.scl.data(b))
    def radius(self, I, row): return zdiv(zsub(self.m(row), self.Min), self.L)
    def scale(self, I, row): s = self.s(row); return zdiv(NP.s_sqrt(I, zite(zlt(s, EPS16), EPS16, s)), self.L)
# --- radius and scale of the penalties
def s_pre(nd):
    def f(I): w = I.lp = W(I, nd=nd); return [w.obj, w.B0, w.L, w.Min, w.model]
    return f
def em_rs(I, em, w, r_, s_):
    R_, S_ = as_arr(I, r_), as_arr(I, s_); em('one radius and scale per point', zand(R_.ndim == 1, S_.ndim == 1, zeq(R_.shape[0], w.k), zeq(S_.shape[0], w.k)))
    row = NP.rowfn(I, w.B)
    em.forall([w.k], lambda i: zeq(R_.data(i), w.radius(I, row(i))), 'radius: the distance to the best value in units of the Lipschitz constant')
    em.forall([w.k], lambda i: zeq(S_.data(i), w.scale(I, row(i))), 'scale: the root of the predicted deviation in units of the Lipschitz constant')
def p_pre(I, em, a, r):
    w = I.lp; em('a pair', isinstance(r, tuple) and len(r) == 2); em_rs(I, em, w, *r)
    em.forall([w.d], lambda j: zeq(w.B0.data(j) if w.B0.ndim == 1 else w.B0.data(0, j), w.B.data(0, j)), 'the points are left alone')
PRE = [Contract(LP + '._hammer_function_precompute', s_pre(nd), p_pre, name=LP + '._hammer_function_precompute (%s)' % ('points' if nd == 2 else 'one point')) for nd in (2, 1)]
PRE += [Contract(LP + '._hammer_function_precompute', (lambda I: [W(I).obj, None, None, None, None]), lambda I, em, a, r: em('no point, no radius', isinstance(r, tuple) and len(r) == 2 and r[0] is None and r[1] is None), name=LP + '._hammer_function_precompute (no point)')]
# --- update_batches
def s_upd(none):
    def f(I):
        w = I.lp = W(I); w.obj.fields.update(X_batch=stub(I, 'stale'), r_x0=stub(I, 'stale'), s_x0=stub(I, 'stale')); return [w.obj, None, None, None] if none else [w.obj, w.B0, w.L, w.Min]
    return f
def p_upd(none):
    def post(I, em, a, r):
        w = I.lp; F = a[0].fields
        if none: return em('no penalised point', F['X_batch'] is None)
        X = as_arr(I, F['X_batch']); em('the penalised points', zand(X.ndim == 2, zeq(X.shape[0], w.k), zeq(X.shape[-1], w.d)))
        em.forall([w.k, w.d], lambda i, j: zeq(X.data(i, j), w.B.data(i, j)), 'are the points of the batch, in order'); em_rs(I, em, w, F['r_x0'], F['s_x0'])
    return post
UPD = [Contract(LP + '.update_batches', s_upd(no), p_upd(no), name=LP + '.update_batches (%s)' % ('reset' if no else 'points')) for no in (False, True)]
# --- one penalty per batch point
def s_ham(I): w = I.lp = W(I); return [w.obj, w.X0, w.B0, w.rad, w.scl]
def p_ham(I, em, a, r):
    w = I.lp; H = as_arr(I, r); em('one penalty per query and batch point', zand(H.ndim == 2, zeq(H.shape[0], w.n), zeq(H.shape[-1], w.k)))
    em.forall([w.n, w.k], lambda i, b: zeq(H.data(i, b), NP.NLOGCDF(ZR(w.z(I, w.X, i, b)))), 'the log-probability of the distance given radius and scale')
HAM = [Contract(LP + '._hammer_function', s_ham, p_ham)]
def c_ham(w):
    def c(I, a, fv):
        X, B = NP.atleast_2d(I, as_arr(I, a['x'])), NP.atleast_2d(I, as_arr(I, a['x0'])); r_, s_ = as_arr(I, a['r_x0']), as_arr(I, a['s_x0'])
        with I.gen(w.k) as b:
            with I.hyp(True): I.prove(zand(zeq(r_.data(b), w.rad.data(b)), zeq(s_.data(b), w.scl.data(b))), 'the radii and scales of the batch points are used')
        return mk(I, (X.shape[0], B.shape[0]), lambda i, b: NP.NLOGCDF(ZR(zdiv(zsub(w.dist(I, X, i, B, b), r_.data(b)), s_.data(b)))))
    return c
# --- the penalised function
def base_value(I, w, a):
    """- log-transformed acquisition; a is the (positive) base acquisition"""
    if w.transform == 'softplus': return zneg(zite(zle(40, a), NP.s_log(I, a), NP.s_log(I, NP.s_log(I, zadd(1, NP.s_exp(I, a))))))
    return zneg(NP.s_log(I, zadd(a, EPS50)))
def s_pen(tr, batch, direct):
    def f(I):
        w = I.lp = W(I, transform=tr, batch=batch); I.contracts[LP + '._hammer_function'] = c_ham(w)
        if tr == 'none':
            with I.gen(w.n): pass
            x = z3.Const('x!row', Row); I.raw_fact([x], w.a(x) <= 0, [w.a(x)])   # an acquisition: minus a nonnegative utility
        if direct: return [w.obj, w.X0]
        return [w.obj, w.X0, w.model, w.B0, w.rad if batch else None, w.scl if batch else None]
    return f
def p_pen(I, em, a, r):
    w = I.lp; V = as_arr(I, r); em('one value per point', zand(V.ndim == 1, zeq(V.shape[0], w.n))); row = NP.rowfn(I, w.X)
    with I.gen(w.n) as i:
        with I.hyp(True):
            base = base_value(I, w, zneg(w.a(row(i))))
            pen = 0 if w.B is None else NP.ssum(I, w.k, lambda b: NP.NLOGCDF(ZR(w.z(I, w.X, i, b))))
            em('log-transformed acquisition plus one penalty per batch point', zeq(V.data(i), zsub(base, pen)))
    em.forall([w.n, w.d], lambda i, j: zeq(w.X0.data(i, j), w.X.data(i, j)), 'the points are left alone')
PEN = [Contract(LP + ('.acquisition_function' if dr else '._penalized_acquisition'), s_pen(tr, b, dr), p_pen, name=LP + ('.acquisition_function' if dr else '._penalized_acquisition') + ' (%s, %s)' % (tr, 'batch' if b else 'no batch')) for dr in (False, True) for tr in ('none', 'softplus') for b in (True, False)]
# --- gradients
def pdf(I, z): return zdiv(NP.s_exp(I, zmul(Fraction(-1, 2), zmul(z, z))), NP.s_sqrt(I, zmul(2, PI)))
def d_penalty(I, z, s, dist, diff):
    """derivative of log Phi((dist - r)/s) along one coordinate, diff being the difference of that coordinate; no slope where Phi underflows"""
    h = NP.NCDF(ZR(z)); return zite(zlt(h, EPS50), 0, zmul(zdiv(pdf(I, z), zmul(zmul(s, h), dist)), diff))
def s_dham(I):
    w = I.lp = W(I)
    z = z3.Real('z!cdf'); I.raw_fact([z], NP.NCDF(z) >= 0, [NP.NCDF(z)])
    I.assume_forall([w.n, w.k], lambda i, b: zlt(0, w.dist(I, w.X, i, w.B, b)))   # precondition: the query is not a batch point
    return [w.obj, w.X0, w.B0, w.rad, w.scl]
def p_dham(I, em, a, r):
    w = I.lp; G = as_arr(I, r); em('one gradient per point', zand(G.ndim == 2, zeq(G.shape[0], w.n), zeq(G.shape[-1], w.d)))
    with I.gen(w.n) as i:
        with I.gen(w.d) as j:
            with I.hyp(True):
                g = lambda b: d_penalty(I, w.z(I, w.X, i, b), w.scl.data(b), w.dist(I, w.X, i, w.B, b), zsub(w.X.data(i, j), w.B.data(b, j)))
                for o in sum_obligations(I, G.data(i, j), w.k, g, 'the sum of the derivatives of the penalties'): ob_do(I, o, lambda nm, x, y: em_field(I, em, x, y, nm))
DHAM = [Contract(LP + '._d_hammer_function', s_dham, p_dham)]
def slope(I, w, a, da):
    """derivative of the log-transformed acquisition; a = minus the base function, da the gradient of the base function"""
    e = NP.s_exp(I, a)
    if w.transform == 'softplus': return zdiv(da, zmul(NP.s_log(I, zadd(1, e)), zadd(1, NP.s_exp(I, zneg(a)))))
    return zdiv(da, a)
def s_dacq(tr, batch, both):
    def f(I):
        w = I.lp = W(I, n=1, transform=tr, batch=batch); P = w.dpen = I.fresh('dpen', 'Real', ['Row', 'Int'])
        x = z3.Const('x!row', Row); I.raw_fact([x], w.a(x) < 0 if tr == 'none' else w.a(x) > -40, [w.a(x)])
        def dham(I2, b, fv):
            same_arr(I2, b['X_batch'], w.B0, 'the penalties of the batch points'); same_arr(I2, b['r_x0'], w.rad, 'their radii'); same_arr(I2, b['s_x0'], w.scl, 'their scales'); X = NP.atleast_2d(I2, as_arr(I2, b['x'])); q = NP.rowfn(I2, X)
            return mk(I2, X.shape, lambda i, j: P(q(ZI(i)), ZI(j)))
        I.contracts[LP + '._d_hammer_function'] = dham
        if both:
            V = w.V = z3.Function('LPvalue!%d' % uid(), Row, z3.RealSort())
            def val(I2, b, fv): X = NP.atleast_2d(I2, as_arr(I2, b['x'])); q = NP.rowfn(I2, X); return mk(I2, (X.shape[0],), lambda i: V(q(ZI(i))))
            I.contracts[LP + '.acquisition_function'] = val
        return [w.obj, w.X0]
    return f
def p_dacq(both):
    def post(I, em, a, r):
        w = I.lp; row = NP.rowfn(I, w.X)(0)
        if both:
            em('value and gradient', isinstance(r, tuple) and len(r) == 2); V, G = as_arr(I, r[0]), as_arr(I, r[1])
            em('the value is the acquisition', zand(zeq(V.size if hasattr(V, 'size') else V.shape[0], 1), zeq(NP.scalar_of(V), w.V(row))))
        else: G = as_arr(I, r)
        em('one gradient', zand(G.ndim == 2, zeq(G.shape[0], 1), zeq(G.shape[-1], w.d)))
        with I.gen(w.d) as j:
            with I.hyp(True):
                av = zneg(w.a(row)); want = zsub(slope(I, w, av, w.da(row, ZI(j))), 0 if w.B is None else w.dpen(row, ZI(j)))
                em_field(I, em, G.data(0, j), want, 'slope of the transformed acquisition minus the slopes of the penalties')
    return post
DACQ = [Contract(LP + q, s_dacq(tr, b, both), p_dacq(both), name=LP + q + ' (%s, %s)' % (tr, 'batch' if b else 'no batch')) for q, both in (('.d_acquisition_function', False), ('.acquisition_function_withGradients', True)) for tr in ('none', 'softplus') for b in (True, False)]
# --- the constructor chooses the transform
def s_lpc(kind, mc, tr):
    def f(I):
        w = I.lp = stub(I, 'ghost'); w.a = newobj(I, A + {('EI', 0): 'EI.AcquisitionEI', ('MPI', 0): 'MPI.AcquisitionMPI', ('LCB', 0): 'LCB.AcquisitionLCB', ('EI', 1): 'EI_mcmc.AcquisitionEI_MCMC', ('LCB', 1): 'LCB_mcmc.AcquisitionLCB_MCMC', ('MPI', 1): 'MPI_mcmc.AcquisitionMPI_MCMC'}[kind, mc])
        w.m, w.s, w.o = stub(I, 'Surrogate', analytical_gradient_prediction=True), stub(I, 'Space'), stub(I, 'Optimizer'); return [w.m, w.s, w.o, w.a, tr]
    return f
def p_lpc(kind, tr):
    def post(I, em, a, o):
        w = I.lp; F = o.fields
        em('its model, space, optimizer and base acquisition', F['model'] is w.m and F['space'] is w.s and F['optimizer'] is w.o and F['acq'] is w.a)
        em('the transform asked for; softplus for a bound that may be negative', F['transform'] == ('softplus' if kind == 'LCB' and tr.lower() == 'none' else tr.lower()))
        em('no point is penalised yet', F['X_batch'] is None)
    return post
LPC = [Contract(LP, s_lpc(k, mc, tr), p_lpc(k, tr), name=LP + ' (%s%s, %s)' % (k, ' integrated' if mc else '', tr)) for k in ('EI', 'MPI', 'LCB') for mc in (0, 1) for tr in ('none', 'softplus', 'Softplus')]
class Slopes(object):
    label = 'the slopes of the penalised function are its derivatives'; timeout = None
    def run(self, I):
        import sympy as sp
        I.cur = self.label; x, b, q = sp.symbols('x b q', real=True); r, sc = sp.symbols('r s', positive=True); f = sp.Function('f')(x)
        a, da, X, B, Q, R_, S_ = [z3.Real('cal!' + n) for n in ('a', 'da', 'x', 'b', 'q', 'r', 's')]; w = W(I, n=1)
        base = {'cal!a': -f, 'cal!da': f.diff(x), 'cal!x': x, 'cal!b': b, 'cal!q': q ** 2, 'cal!r': r, 'cal!s': sc, 'pi': sp.pi}
        def ok(name, V, G):
            t0 = time.time(); good = sp.simplify(V.diff(x) - G) == 0
            I.obls.append(Obligation(I.cur, name, 'ok' if good else 'failed', 'sympy', time.time() - t0))
        conv = lambda t: to_sympy(I, ZR(t), base)
        I.assume(a < 40); I.assume(a > 0); w.transform = 'softplus'; ok('transformed acquisition (softplus, below its switch at 40)', conv(base_value(I, w, a)), conv(slope(I, w, a, da)))
        w.transform = 'none'; V = conv(base_value(I, w, a)); e = conv(Z(EPS50)); ok('transformed acquisition (logarithm; up to its guard of 1e-50)', V, conv(slope(I, w, a, da)) * conv(a) / (conv(a) + e))
        dist = NP.s_sqrt(I, zadd(Q, zmul(zsub(X, B), zsub(X, B)))); z = zdiv(zsub(dist, R_), S_); I.assume(NP.NCDF(ZR(z)) >= Z(EPS50))
        ok('penalty, along one coordinate (q: the squared differences of the others), where its probability does not underflow', conv(NP.NLOGCDF(ZR(z))), conv(d_penalty(I, z, S_, dist, zsub(X, B))))
        return I.obls
CONTRACTS = PRE + UPD + HAM + PEN + DHAM + DACQ + LPC + [Slopes()]
