"""Contracts of the acquisition search: OptimizationWithContext, apply_optimizer, OptLbfgs, choose_optimizer (GPyOpt/optimization/optimizer.py),
AnchorPointsGenerator.get (anchor_points_generator.py), AcquisitionOptimizer.optimize (acquisition_optimizer.py), AcquisitionBase.optimize
(GPyOpt/acquisitions/base.py), estimate_L (evaluators/batch_local_penalization.py)."""
from .lib import *
from .bo import zeq_row, snapshot_arr
from .context import Mgr, CM
from pyvc.contract import verify, Prover
from pyvc.values import PyRaise
from fractions import Fraction
OP = 'GPyOpt.optimization.optimizer.'

class Fun(object):
    """an arbitrary acquisition: a function of the model row, with a gradient"""
    def __init__(self, I, MD, nm='f'):
        self.F = z3.Function('%s!%d' % (nm, uid()), Row, z3.RealSort()); self.G = z3.Function('d%s!%d' % (nm, uid()), Row, Row); self.MD = MD
        def val(I2, x):
            A = NP.as_arr(I2, x); A = NP.atleast_2d(I2, A); I2.prove(zeq(A.shape[-1], MD), 'the acquisition is asked at points of the model space'); r = NP.rowfn(I2, A)
            return mk(I2, (A.shape[0], 1), lambda i, j: self.F(r(ZI(i))))
        def both(I2, x):
            v = val(I2, x); r = NP.rowfn(I2, NP.atleast_2d(I2, NP.as_arr(I2, x)))
            return (v, mk(I2, (v.shape[0], MD), lambda i, j: el(self.G(r(ZI(i))), ZI(j)), row=lambda i: self.G(r(ZI(i)))))
        self.f = native('f', val); self.fdf = native('f_df', both)
def expander(I, MD):
    """contract of ContextManager._expand_vector (context.py): row by row, EXP(row)"""
    EXP = z3.Function('EXPAND!%d' % uid(), Row, Row)
    def c(I2, a, fv):
        x = NP.atleast_2d(I2, NP.as_arr(I2, a['x'])); r = NP.rowfn(I2, x)
        return mk(I2, (x.shape[0], MD), lambda i, j: el(EXP(r(ZI(i))), ZI(j)), row=lambda i: EXP(r(ZI(i))))
    I.contracts[CM + '._expand_vector'] = c
    return EXP

class AW(object):
    def __init__(self, I, ctx, dup, grad):
        self.I = I; MD = self.MD = integer(I, 'MD', 1)
        self.fun = Fun(I, MD); self.M = None
        if ctx:
            self.M = Mgr(I); I.assume(zeq(self.M.MD, MD)); self.EXP = expander(I, MD); self.n = self.M.n
        else: self.EXP = lambda r: r; self.n = MD
        self.ROUND = z3.Function('ROUND!%d' % uid(), Row, Row); self.BAN = z3.Function('banned!%d' % uid(), Row, z3.BoolSort())
        self.x0 = vec(I, MD, 'x0'); self.opt = z3.Const('found!%d' % uid(), Row); self.g = ObjV(I, 'ghost', {'n': 0}, tag='stub')
        def rnd(I2, Q):
            A = NP.atleast_2d(I2, NP.as_arr(I2, Q)); r = NP.rowfn(I2, A); I2.prove(zand(zeq(A.shape[0], 1), zeq(A.shape[1], MD)), 'one model point is rounded')
            return mk(I2, (1, MD), lambda i, j: el(self.ROUND(r(0)), ZI(j)), row=lambda i: self.ROUND(r(0)))
        self.space = stub(I, 'Space', round_optimum=native('round_optimum', rnd))
        ban = lambda I2, u: self.BAN(NP.rowfn(I2, NP.atleast_2d(I2, NP.as_arr(I2, u)))(0))
        self.dm = stub(I, 'DuplicateManager', is_unzipped_x_duplicate=native('is_unzipped_x_duplicate', ban)) if dup else None
        self.grad = grad
        def optimize(I2, x0, f=None, df=None, f_df=None):
            A = NP.as_arr(I2, x0); A2 = NP.atleast_2d(I2, A); n = self.n
            I2.prove(zand(zeq(A2.shape[0], 1), zeq(A2.shape[1], n)), 'the local search starts at one point of the searched space')
            with I2.gen(n) as i:
                with I2.hyp(True): I2.prove(zeq(A2.data(0, i), self.x0.data(self.col(i))), 'the local search starts at the given point')
            z = I2.fresh('z', 'Row'); Q = mk(I2, (1, n), lambda i, j: el(z, ZI(j)), row=lambda i: z)
            I2.prove(f is not None, 'a function to minimise is given')
            v = I2.call(f, [Q], {}); I2.prove(zeq(NP.scalar_of(v), self.fun.F(self.EXP(z))), 'the function searched is the acquisition with the fixed values filled in')
            if not grad: I2.prove(f_df is None and df is None, 'no gradient is invented')
            else:
                I2.prove(f_df is not None, 'the gradient is given')
                o = I2.call(f_df, [Q], {}); I2.prove(zeq(NP.scalar_of(o[0]), self.fun.F(self.EXP(z))), 'value given with the gradient')
                D = NP.atleast_2d(I2, NP.as_arr(I2, o[1])); I2.prove(zand(zeq(D.shape[0], 1), zeq(D.shape[1], n)), 'one derivative for each searched column')
                with I2.gen(n) as i:
                    with I2.hyp(True): I2.prove(zeq(D.data(0, i), el(self.fun.G(self.EXP(z)), ZI(self.col(i)))), 'the gradient is that of the acquisition at the searched columns')
                if df is not None:
                    D = NP.atleast_2d(I2, NP.as_arr(I2, I2.call(df, [Q], {})))
                    with I2.gen(n) as i:
                        with I2.hyp(True): I2.prove(zeq(D.data(0, i), el(self.fun.G(self.EXP(z)), ZI(self.col(i)))), 'the separate gradient is the same')
            self.g.fields['n'] = self.g.fields['n'] + 1
            return (mk(I2, (1, n), lambda i, j: el(self.opt, ZI(j)), row=lambda i: self.opt), mk(I2, (1, 1), lambda i, j: z3.Real('reported')))
        self.optimizer = stub(I, 'Optimizer', optimize=native('optimize', optimize))
    def col(self, i): return self.M.ni(ZI(i)) if self.M is not None else i
def s_apply(ctx, dup, grad, flat):
    def f(I):
        w = I.aw = AW(I, ctx, dup, grad); x = w.x0 if flat else mk(I, (1, w.MD), lambda i, j: w.x0.data(j), row=lambda i: w.x0.vec)
        return [w.optimizer, x], dict(f=w.fun.f, f_df=w.fun.fdf if grad else None, duplicate_manager=w.dm, context_manager=w.M.obj if ctx else None, space=w.space)
    return f
def p_apply(I, em, a, r):
    w = I.aw; em('a point and its value', isinstance(r, tuple) and len(r) == 2)
    X, v = as_arr(I, r[0]), r[1]; X = NP.atleast_2d(I, X); row = NP.rowfn(I, X)(0); x0 = w.x0.vec; ref = w.ROUND(w.EXP(w.opt))
    em('one model point', zand(zeq(X.shape[0], 1), zeq(X.shape[1], w.MD)))
    em('one local search', w.g.fields['n'] == 1)
    em('the value is the acquisition at the returned point', zeq(NP.scalar_of(v), w.fun.F(row)))
    if w.dm is None: em('the point is the rounded outcome of the search', row == ref)
    else:
        em('the start is not excluded', znot(w.BAN(x0)))
        em('the returned point is not excluded', znot(w.BAN(row)))
        em('the rounded outcome of the search, or the start when that is excluded', row == z3.If(w.BAN(ref), x0, ref))
def r_apply(I, em, a, exc):
    w = I.aw; em('refuses only an excluded start (%s)' % exc.clsname, zand(exc.clsname == 'ValueError', w.dm is not None, w.BAN(w.x0.vec)))
APPLYC = [Contract(OP + 'apply_optimizer', s_apply(c, d, g, fl), p_apply, r_apply, name=OP + 'apply_optimizer (%s, %s, %s, %s)' % ('context' if c else 'no context', 'de-duplication' if d else 'no de-duplication', 'gradient' if g else 'no gradient', 'vector' if fl else 'matrix'))
          for c in (True, False) for d in (True, False) for g, fl in ((True, True), (False, False), (True, False))]

# --- L-BFGS wrapper
def s_lbfgs(grad, kind):
    def f(I):
        n = integer(I, 'n', 1); fun = Fun(I, n); bounds = stub(I, 'bounds'); x0 = vec(I, n, 'x0'); w = I.lb = stub(I, 'ghost', calls=0); w.fun, w.bounds, w.n = fun, bounds, n
        w.x0 = x0; w.xr = z3.Const('xres!%d' % uid(), Row); w.fr = z3.Real('fres!%d' % uid()); w.ab = I.fresh('abnormal', 'Bool')
        def lb(I2, a, k):
            names = ['func', 'x0', 'fprime', 'args', 'approx_grad', 'bounds']; b = dict(zip(names, a)); b.update(k); w.fields['calls'] += 1
            I2.prove(b.get('bounds') is bounds, 'the search stays within the given bounds')
            A = NP.atleast_2d(I2, NP.as_arr(I2, b['x0'])); I2.prove(zand(zeq(A.shape[0], 1), NP.rowfn(I2, A)(0) == x0.vec), 'the search starts at the given point')
            z = I2.fresh('z', 'Row'); Q = mk(I2, (n,), lambda i: el(z, ZI(i)), vec=z)
            v = I2.call(b['func'], [Q], {})
            if b.get('approx_grad'):
                I2.prove(not grad, 'an available gradient is used'); I2.prove(zeq(NP.scalar_of(v), fun.F(z)), 'the function searched is the one given')
            else:
                I2.prove(grad, 'a gradient exists')
                fp = b.get('fprime')
                if fp is None:
                    I2.prove(isinstance(v, tuple) and len(v) == 2, 'value and gradient'); val, D = v
                else: val, D = v, I2.call(fp, [Q], {})
                I2.prove(zeq(NP.scalar_of(val), fun.F(z)), 'the function searched is the one given')
                D = NP.as_arr(I2, D)
                I2.prove(zeq(D.shape[-1], n), 'one derivative for each coordinate')
                with I2.gen(n) as i:
                    with I2.hyp(True): I2.prove(zeq(D.data(i) if D.ndim == 1 else D.data(0, i), el(fun.G(z), ZI(i))), 'the gradient is the one given')
            txt = 'ABNORMAL_TERMINATION_IN_LNSRCH' if I2.branch(w.ab) else 'CONVERGENCE: NORM_OF_PROJECTED_GRADIENT_<=_PGTOL'
            if kind == 'bytes':
                t = stub(I2, 'task', decode=native('decode', lambda I3, *q: txt)); t.isinstf = lambda I3, c: 'bytes' in str(c)
            else: t = txt
            d = DictV(I2, {'task': t, 'grad': stub(I2, 'grad'), 'funcalls': 3, 'nit': 2, 'warnflag': stub(I2, 'flag')})
            return (mk(I2, (n,), lambda i: el(w.xr, ZI(i)), vec=w.xr), w.fr, d)
        I.natives['scipy.optimize.fmin_l_bfgs_b'] = lb
        o = newobj(I, OP + 'OptLbfgs', bounds=bounds, maxiter=1000)
        # the function may be asked at vectors or at one-row matrices; it returns one value
        return [o, x0, fun.f], dict(f_df=fun.fdf if grad else None)
    return f
def p_lbfgs(I, em, a, r):
    w = I.lb; X, v = NP.atleast_2d(I, as_arr(I, r[0])), as_arr(I, r[1]); row = NP.rowfn(I, X)(0)
    em('one search', w.fields['calls'] == 1)
    em('one point', zand(zeq(X.shape[0], 1), zeq(X.shape[1], w.n)))
    em('the start is kept when the search reports failure', zimp(w.ab, row == w.x0.vec))
    em('and its value', zimp(w.ab, zeq(NP.scalar_of(v), w.fun.F(w.x0.vec))))
    em('otherwise the outcome of the search', zimp(znot(w.ab), zand(row == w.xr, zeq(NP.scalar_of(v), w.fr))))
LBFGS = [Contract(OP + 'OptLbfgs.optimize', s_lbfgs(g, k), p_lbfgs, name=OP + 'OptLbfgs.optimize (%s, status as %s)' % ('gradient' if g else 'no gradient', k)) for g in (True, False) for k in ('bytes', 'str')]

# --- the other local searches
def s_glob(cls):
    def f(I):
        n = integer(I, 'n', 2); fun = Fun(I, n); w = I.lb = stub(I, 'ghost', calls=0); w.n, w.fun = n, fun; lo, hi = I.fresh('lo', 'Real', ['Int']), I.fresh('hi', 'Real', ['Int'])
        bounds = ListV.sym(I, n, lambda i: (lo(ZI(i)), hi(ZI(i)))); w.xr = z3.Const('xres!%d' % uid(), Row); x0 = vec(I, n, 'x0')
        def within(I2, L, U):
            L, U = NP.as_arr(I2, L), NP.as_arr(I2, U); I2.prove(zand(zeq(L.shape[0], n), zeq(U.shape[0], n)), 'one bound for each coordinate')
            with I2.gen(n) as i:
                with I2.hyp(True): I2.prove(zand(zeq(L.data(i), lo(i)), zeq(U.data(i), hi(i))), 'the search stays within the given bounds')
        def check(I2, v):
            z = w.z; I2.prove(zeq(NP.scalar_of(v), fun.F(z)), 'the function searched is the one given')
        def point(I2):
            w.z = I2.fresh('z', 'Row'); return mk(I2, (n,), lambda i: el(w.z, ZI(i)), vec=w.z)
        out = lambda I2: mk(I2, (n,), lambda i: el(w.xr, ZI(i)), vec=w.xr)
        def cma(I2, a, k):
            b = dict(zip(['objective_function', 'x0', 'sigma0', 'options'], a)); b.update(k); w.fields['calls'] += 1
            A = NP.atleast_2d(I2, NP.as_arr(I2, b['x0'])); I2.prove(zand(zeq(A.shape[0], 1), NP.rowfn(I2, A)(0) == x0.vec), 'the search starts at the given point')
            l = b['options'].d['bounds']; lg = iterate(I2, l)[1]; within(I2, lg(0), lg(1)); check(I2, I2.call(b['objective_function'], [point(I2)], {}))
            return ListV(I2, [out(I2), z3.Real('reported')])
        def direct(I2, a, k):
            b = dict(zip(['objective', 'l', 'u'], a)); b.update(k); w.fields['calls'] += 1
            within(I2, b['l'], b['u']); v = I2.call(b['objective'], [point(I2), None], {}); check(I2, v[0])
            return (out(I2), z3.Real('reported'), 0)
        I.natives['cma.fmin'] = cma; I.natives['DIRECT.solve'] = direct
        return [newobj(I, OP + cls, bounds=bounds, maxiter=1000), x0, fun.f], dict(f_df=fun.fdf)
    return f
def p_glob(I, em, a, r):
    w = I.lb; X, v = NP.atleast_2d(I, as_arr(I, r[0])), as_arr(I, r[1]); row = NP.rowfn(I, X)(0)
    em('one search', w.fields['calls'] == 1)
    em('one point', zand(zeq(X.shape[0], 1), zeq(X.shape[1], w.n)))
    em('the outcome of the search', row == w.xr)
    em('with its exact value', zeq(NP.scalar_of(v), w.fun.F(w.xr)))
GLOB = [Contract(OP + c + '.optimize', s_glob(c), p_glob) for c in ('OptCma', 'OptDirect')]

# --- selection of the local search
def s_choose(nm):
    def f(I): I.cb = stub(I, 'bounds'); return [nm, I.cb]
    return f
def p_choose(cls):
    def p(I, em, a, r):
        ok = isinstance(r, ObjV) and isinstance(r.cls, ClassV); em('an optimizer', ok and cls is not None)
        if ok and cls is not None: em('of the requested kind', r.cls.name == cls); em('over the given bounds', r.fields.get('bounds') is I.cb)
    return p
def r_choose(cls):
    return lambda I, em, a, exc: em('only an unknown name is refused (%s)' % exc.clsname, cls is None and exc.clsname == 'InvalidVariableNameError')
CHOOSE = [Contract(OP + 'choose_optimizer', s_choose(n), p_choose(c), r_choose(c), name=OP + 'choose_optimizer (%s)' % n) for n, c in (('lbfgs', 'OptLbfgs'), ('DIRECT', 'OptDirect'), ('CMA', 'OptCma'), ('nonsense', None))]

# --- AcquisitionBase.optimize
AB = 'GPyOpt.acquisitions.base.AcquisitionBase'
def s_acqopt(g, dup):
    def f(I):
        w = I.ao = stub(I, 'ghost', calls=0); w.dm = stub(I, 'DuplicateManager') if dup else None
        o = newobj(I, AB, analytical_gradient_acq=g, model=stub(I, 'Model'), space=stub(I, 'Space'))
        w.res = (stub(I, 'x'), stub(I, 'fx'))
        c1, c2 = AB + '.acquisition_function', AB + '.acquisition_function_withGradients'
        x = stub(I, 'query'); w.f, w.fg = stub(I, 'value'), (stub(I, 'value'), stub(I, 'gradient'))
        def k1(I2, b, fv): I2.prove(b['self'] is o, 'its own acquisition'); same_arr(I2, b['x'], x, 'evaluated where asked'); return w.f
        def k2(I2, b, fv): I2.prove(b['self'] is o, 'its own acquisition'); same_arr(I2, b['x'], x, 'evaluated where asked'); return w.fg
        I.contracts[c1] = k1; I.contracts[c2] = k2
        def opt(I2, f=None, df=None, f_df=None, duplicate_manager=None):
            w.fields['calls'] += 1
            I2.prove(duplicate_manager is w.dm, 'the search excludes what this request excludes')
            I2.prove(I2.call(f, [x], {}) is w.f, 'the function searched is the acquisition')
            if g: I2.prove(f_df is not None and I2.call(f_df, [x], {}) is w.fg, 'with its gradient')
            else: I2.prove(f_df is None and df is None, 'no gradient when none is available')
            return w.res
        o.fields['optimizer'] = stub(I, 'AcquisitionOptimizer', optimize=native('optimize', opt))
        return [o], dict(duplicate_manager=w.dm)
    return f
def p_acqopt(I, em, a, r):
    w = I.ao; em('one search', w.fields['calls'] == 1); em('its result', r is w.res)
ACQOPT = [Contract(AB + '.optimize', s_acqopt(g, d), p_acqopt, name=AB + '.optimize (%s, %s)' % ('gradient' if g else 'no gradient', 'de-duplication' if d else 'no de-duplication')) for g in (True, False) for d in (True, False)]
# --- candidate generation
AG = 'GPyOpt.optimization.anchor_points_generator.'
class Gen(object):
    """AnchorPointsGenerator.get over an arbitrary space, candidate sample, exclusion set and context"""
    timeout = None
    def __init__(self, cls, ctx, dup, unique, constr, bandit=False):
        self.q = (cls, ctx, dup, unique, constr, bandit)
        self.label = AG + 'AnchorPointsGenerator.get (%s; %s)' % (cls, ', '.join(w for w, t in (('context', ctx), ('de-duplication', dup), ('distinct samples', unique), ('constraints', constr), ('bandit', bandit)) if t) or 'plain')
    def run(self, I):
        cls, ctx, dup, unique, constr, bandit = self.q; I.cur = self.label; em = Prover(I)
        MD, Ds, ns, num = integer(I, 'MD', 1), integer(I, 'Dsub', 1), integer(I, 'num_samples', 1), integer(I, 'num_anchor', 1)
        fv = I.lookup_qual(AG + 'AnchorPointsGenerator.get'); c = I.lookup_qual(AG + cls)
        if fv is None or not isinstance(c, ClassV): raise Unsupported('class not found')
        real = ctx and not bandit      # whether columns are really fixed
        ENC = z3.Function('ENC!%d' % uid(), Row, Row); OK = z3.Function('feasible!%d' % uid(), Row, z3.BoolSort()); BAN = z3.Function('banned!%d' % uid(), Row, z3.BoolSort()); DEC = z3.Function('DEC!%d' % uid(), Row, Row); SC = z3.Function('score!%d' % uid(), Row, z3.RealSort())
        fun = Fun(I, MD); M = None; EXP = lambda r: r; sub = MD
        if ctx:
            M = Mgr(I); I.assume(zeq(M.MD, MD))
            if real: EXP = expander(I, MD); sub = M.n
            M.obj.fields['space'] = None
        def unzip(I2, X):
            X = NP.as_arr(I2, X); r = NP.rowfn(I2, X); I2.prove(zeq(X.shape[1], Ds), 'samples of the searched space are encoded')
            return mk(I2, (X.shape[0], sub), lambda i, j: el(ENC(r(ZI(i))), ZI(j)), row=lambda i: ENC(r(ZI(i))))
        def zipi(I2, X):
            X = NP.atleast_2d(I2, NP.as_arr(I2, X)); r = NP.rowfn(I2, X); return mk(I2, (X.shape[0], Ds), lambda i, j: el(DEC(r(ZI(i))), ZI(j)), row=lambda i: DEC(r(ZI(i))))
        def ind(I2, X):
            X = NP.as_arr(I2, X); r = NP.rowfn(I2, X); return mk(I2, (X.shape[0], 1), lambda i, j: zite(OK(r(ZI(i))), 1, 0))
        cfg = ListV.sym(I, integer(I, 'nvars', 1), lambda i: stub(I, 'descriptor', i=ZI(i))); cons = stub(I, 'constraints')
        free = I.fresh('freevar', 'Int', ['Int']); nf = integer(I, 'nfreevar', 1); I.assume_forall([nf], lambda i: zand(0 <= free(i), free(i) < cfg.length()))
        cfg.segs = [('s', cfg.length(), lambda i: stub(I, 'descriptor', i=ZI(i)))]
        space = stub(I, 'Space', _has_bandit=native('_has_bandit', lambda I2: bandit), config_space_expanded=cfg, space_expanded=cfg, config_space=cfg, unzip_inputs=native('unzip_inputs', unzip), zip_inputs=native('zip_inputs', zipi), indicator_constraints=native('ind', ind),
                     has_constraints=native('has_constraints', lambda I2: constr), constraints=cons if constr else None)
        if ctx:
            M.obj.fields['space'] = space; M.obj.fields['nocontext_index_obj'] = ListV.sym(I, nf, lambda i: free(ZI(i)))
            if bandit: I.contracts.pop(CM + '._expand_vector', None)
        made = []
        def c_space(I2, a, k):
            args = list(a['args']) + [None] * 3; cs = a['kwargs'].get('constraints', args[1]); d = a['kwargs'].get('space', args[0])
            n, g = iterate(I2, d)
            I2.prove(real, 'a smaller space is searched only when variables are fixed')
            I2.prove(zeq(n, nf), 'the searched space has the free variables')
            with I2.gen(nf) as i:
                with I2.hyp(True): I2.prove(zeq(g(i).fields['i'], free(i)), 'the searched space has the free variables, in order')
            I2.prove(cs is None or (constr and zeq(M.m, 0)), 'constraints on all variables are not applied to the free ones only')
            s = stub(I2, 'free space', unzip_inputs=native('unzip_inputs', unzip), zip_inputs=native('zip_inputs', zipi), constraints=cs); made.append(s); s.checked = cs is not None; return s
        I.contracts['GPyOpt.core.task.space.Design_space'] = c_space
        g = ObjV(I, 'ghost', {'design': None}, tag='stub'); dt = 'random'
        def c_design(I2, a, fv2):
            """initial_design (C11, C12): num_samples points of the given space, satisfying its constraints"""
            s = a['space']; I2.prove((s is space) if not real else (s in made), 'candidates are sampled in the searched space')
            I2.prove(a['design_name'] == dt, 'the requested design'); I2.prove(zeq(a['init_points_count'], ns), 'the requested number of samples')
            X = mat(I2, ns, Ds, 'sample'); r = NP.rowfn(I2, X)
            if constr and (s is space or s.checked): I2.assume_forall([ns], lambda i: OK(DEC(EXP(ENC(r(ZI(i)))))))
            g.fields['design'] = snapshot_arr(I2, X); return X
        I.contracts['GPyOpt.experiment_design.initial_design'] = c_design
        ban = lambda I2, u: BAN(NP.rowfn(I2, NP.atleast_2d(I2, NP.as_arr(I2, u)))(0))
        dm = stub(I, 'DuplicateManager', is_unzipped_x_duplicate=native('is_unzipped_x_duplicate', ban)) if dup else None
        o = ObjV(I, c, dict(space=space, design_type=dt, num_samples=ns, objective=fun.f)); score = None
        if cls.startswith('Objective'): score = lambda r: fun.F(r)
        elif not cls.startswith('Random'):
            score = lambda r: SC(r)
            def c_sc(I2, a, fv2):
                X = NP.as_arr(I2, a['X']); r = NP.rowfn(I2, X); return mk(I2, (X.shape[0],), lambda i: SC(r(ZI(i))))
            I.contracts[AG + cls + '.get_anchor_point_scores'] = c_sc
        def body(): return I.call(I.getattr(o, 'get'), [], dict(num_anchor=num, duplicate_manager=dm, unique=unique, context_manager=M.obj if ctx else None))
        if not I.vacuity('precondition is satisfiable'): return
        outs = I.explore(body); live = False
        for u in outs:
            I.load(u.snap); cx = Ctx('path'); cx.pc = list(u.pc); cx.facts = list(u.facts); I.stack.append(cx)
            try:
                X = g.fields['design']
                if X is None: em('candidates are sampled', False); continue
                rx = NP.rowfn(I, X); cand = lambda j: EXP(ENC(rx(ZI(j))))
                good = lambda r: zand(True if not constr else OK(DEC(r)), True if not dup else znot(BAN(r)))
                if u.kind == 'raise':
                    em('raises only the fully-explored error (%s)' % u.value.clsname, u.value.clsname == 'FullyExploredOptimizationDomainError')
                    with I.gen(ns) as j:
                        with I.hyp(True): em('and only when every candidate is excluded', znot(good(cand(j))))
                    continue
                live = True; R = as_arr(I, u.value); k = R.shape[0]; rr = NP.rowfn(I, R)
                em('a matrix of model points', zand(R.ndim == 2, zeq(R.shape[1], MD)))
                em('at least one point, at most the requested number', zand(zle(1, k), zle(k, num)))
                with I.gen(k) as i:
                    with I.hyp(True):
                        em('every start is a sampled candidate', exists(I, 'Int', lambda j: zand(0 <= j, zlt(j, ns), rr(i) == cand(j))))
                        em('no start is excluded', good(rr(i)))
                if score is not None:
                    with I.gen(k) as i:
                        with I.gen(k) as j:
                            with I.hyp(zlt(i, j)): em('better candidates come first', zle(score(rr(i)), score(rr(j))))
                with I.gen(ns) as j:
                    with I.hyp(good(cand(j))):
                        isin = exists(I, 'Int', lambda q: zand(0 <= q, zlt(q, k), rr(q) == cand(j)))
                        if not unique: em('a candidate is left out only if as many as requested are returned', zor(zeq(k, num), isin))
                        if score is not None:
                            with I.gen(k) as i:
                                with I.hyp(True): em('no candidate left out is better than a start', zor(zle(score(rr(i)), score(cand(j))), isin))
            finally: I.stack.pop()
        if not live: em('some path returns starts', False)
GENS = [Gen(c, *q) for c in ('ObjectiveAnchorPointsGenerator', 'ThompsonSamplingAnchorPointsGenerator') for q in ((False, False, False, False), (False, True, False, True), (True, True, False, True), (True, False, False, False), (True, True, False, False), (True, True, False, False, True))]
GENS += [Gen('RandomAnchorPointsGenerator', *q) for q in ((False, False, True, False), (True, True, True, True), (False, True, True, False))]
# --- the search itself
AO = 'GPyOpt.optimization.acquisition_optimizer.AcquisitionOptimizer'
class AcqOpt(object):
    """AcquisitionOptimizer built for an arbitrary space, then asked for the optimum"""
    timeout = None
    def __init__(self, logic, dup, name='lbfgs', grad=True): self.q = (logic, dup, name, grad); self.label = AO + '.optimize (%s starts, %s%s%s)' % (logic or 'default', 'de-duplication' if dup else 'no de-duplication', '' if grad else ', no gradient', '' if name == 'lbfgs' else ', ' + name)
    def run(self, I):
        logic, dup, name, grad = self.q; I.cur = self.label; em = Prover(I); c = I.lookup_qual(AO)
        if not isinstance(c, ClassV): raise Unsupported('class not found')
        MD = integer(I, 'MD', 1); fun = Fun(I, MD); w = stub(I, 'ghost', calls=0, gen=0, sel=None); space = stub(I, 'Space'); model = stub(I, 'Model'); bounds = stub(I, 'bounds'); stale = stub(I, 'bounds of an earlier request')
        cm0 = stub(I, 'ContextManager of an earlier request', noncontext_bounds=stale); cm = stub(I, 'ContextManager', noncontext_bounds=bounds); dm = stub(I, 'DuplicateManager') if dup else None
        def c_cm(I2, a, k): return cm0
        I.contracts[CM] = c_cm
        chosen = stub(I, 'Optimizer')
        def c_choose(I2, a, fv):
            I2.prove(a['optimizer_name'] == name, 'the requested local search'); I2.prove(a['bounds'] is bounds, 'over the searched variables of this request'); return chosen
        I.contracts[OP + 'choose_optimizer'] = c_choose
        A = mat(I, integer(I, 'starts', 1), MD, 'start'); ra = NP.rowfn(I, A); REF = z3.Function('refined!%d' % uid(), Row, Row)
        def c_get(I2, a, fv):
            g = a['self']; w.fields['gen'] += 1
            I2.prove(a['duplicate_manager'] is dm, 'starts exclude what this request excludes'); I2.prove(a['context_manager'] is cm, 'starts respect the context of this request')
            I2.prove(isinstance(g.cls, ClassV) and g.cls.name == ('ThompsonSamplingAnchorPointsGenerator' if logic == 'thompson_sampling' else 'ObjectiveAnchorPointsGenerator'), 'starts are selected as requested')
            I2.prove(g.fields.get('space') is space, 'starts of this space')
            if logic == 'thompson_sampling': I2.prove(g.fields.get('model') is model, 'scored by the surrogate')
            else: I2.prove(g.fields.get('objective') is fun.f, 'scored by the acquisition')
            return A
        I.contracts[AG + 'AnchorPointsGenerator.get'] = c_get
        def c_apply(I2, a, fv):
            """apply_optimizer (above): a point and the acquisition there"""
            x = NP.atleast_2d(I2, NP.as_arr(I2, a['x0'])); r = NP.rowfn(I2, x)(0); I2.prove(zeq(x.shape[0], 1), 'one point is refined at a time')
            I2.prove(a['optimizer'] is chosen, 'refined by the requested local search'); I2.prove(a['f'] is fun.f, 'the acquisition is refined'); I2.prove(a['f_df'] is (fun.fdf if grad else None), 'with its gradient if there is one')
            I2.prove(a['duplicate_manager'] is dm, 'refined points exclude what this request excludes'); I2.prove(a['context_manager'] is cm, 'refined with the context of this request'); I2.prove(a['space'] is space, 'refined in this space')
            z = REF(r); return (mk(I2, (1, MD), lambda i, j: el(z, ZI(j)), row=lambda i: z), mk(I2, (1, 1), lambda i, j: fun.F(z)))
        I.contracts[OP + 'apply_optimizer'] = c_apply
        def hook(I2, view):
            """a selection written as a loop: some carried value is the smallest acquisition so far, some carried row the point it belongs to (or a carried number its index)"""
            if view.n is None: return []
            off = zsub(A.shape[0], view.n); out = []; VS = view.of_kind('real') + view.arrs(2) + view.arrs(0) + view.arrs(1)
            sc = lambda v: NP.scalar_of(v) if isinstance(v, Arr) else v
            one = lambda L: L.kind == 'real' or all(is_conc(d) and d == 1 for d in L.init.shape)
            def low(v, k):
                q = z3.Int('q!ao'); return z3.ForAll([q], Z(zimp(zand(0 <= q, zlt(q, zadd(k, off))), zle(v, fun.F(REF(ra(q)))))))
            for V in VS:
                if not one(V): continue
                out.append(('%s is at most every refined value so far' % V.key, lambda st, k, V=V: low(sc(st[V.key]), k)))
                for P in view.arrs(2):
                    if P is V: continue
                    out.append(('%s is a refined start with value %s' % (P.key, V.key), lambda st, k, V=V, P=P: (lambda r: zand(zeq(sc(st[V.key]), fun.F(r)), exists(I2, 'Int', lambda i: zand(0 <= i, zlt(i, zadd(k, off)), r == REF(ra(i))))))(NP.rowfn(I2, st[P.key])(0))))
            for V in view.of_kind('int'):
                out.append(('%s indexes the smallest refined value so far' % V.key, lambda st, k, V=V: zand(zle(0, st[V.key]), zlt(st[V.key], zadd(k, off)), low(fun.F(REF(ra(ZI(st[V.key])))), k))))
            return out
        I.loop_hooks[AO + '.optimize'] = hook
        kw = dict(optimizer=name, model=model)
        if logic: kw['type_anchor_points_logic'] = logic
        def body():
            o = I.call(c, [space], kw); o.fields['context_manager'] = cm
            return I.call(I.getattr(o, 'optimize'), [], dict(f=fun.f, f_df=fun.fdf if grad else None, duplicate_manager=dm))
        if not I.vacuity('precondition is satisfiable'): return
        outs = I.explore(body)
        if not outs: em('some path', False)
        for u in outs:
            I.load(u.snap); cx = Ctx('path'); cx.pc = list(u.pc); cx.facts = list(u.facts); I.stack.append(cx)
            try:
                if u.kind == 'raise': em('does not raise (%s)' % u.value.clsname, False); continue
                x, v = u.value; X = NP.atleast_2d(I, as_arr(I, x)); r = NP.rowfn(I, X)(0); n = A.shape[0]
                em('one model point', zand(zeq(X.shape[0], 1), zeq(X.shape[1], MD)))
                em('starts are generated once', w.fields['gen'] == 1)
                em('the value is the acquisition at the point', zeq(NP.scalar_of(v), fun.F(r)))
                em('the point is a refined start', exists(I, 'Int', lambda i: zand(0 <= i, zlt(i, n), r == REF(ra(i)))))
                with I.gen(n) as i:
                    with I.hyp(True): em('no refined start has a smaller value', zle(NP.scalar_of(v), fun.F(REF(ra(i)))))
            finally: I.stack.pop()
ACQ = [AcqOpt('max_objective', True), AcqOpt(None, False, grad=False), AcqOpt('thompson_sampling', True, 'CMA'), AcqOpt('thompson_sampling', False)]
# --- Lipschitz constant used by local penalization
EL = 'GPyOpt.core.evaluators.batch_local_penalization.estimate_L'
def s_el(nd):
    def f(I):
        D, n = integer(I, 'D', 1), integer(I, 'n', 1); w = I.el = stub(I, 'ghost', calls=0, smp=None); X = mat(I, n, D, 'X'); G = z3.Function('dmean!%d' % uid(), Row, Row); w.G, w.D, w.X = G, D, X
        blo, bhi = I.fresh('lo', 'Real', ['Int']), I.fresh('hi', 'Real', ['Int']); bounds = ListV.sym(I, D, lambda i: (blo(ZI(i)), bhi(ZI(i))))
        def pg(I2, x):
            A = NP.atleast_2d(I2, NP.as_arr(I2, x)); r = NP.rowfn(I2, A); I2.prove(zeq(A.shape[1], D), 'gradients are asked in the model space')
            g = mk(I2, (A.shape[0], D), lambda i, j: el(G(r(ZI(i))), ZI(j))) if nd == 2 else mk(I2, (A.shape[0], D, 1), lambda i, j, k: el(G(r(ZI(i))), ZI(j)))
            return (g, stub(I2, 'variance gradient'))
        model = stub(I, 'GP regression', predictive_gradients=native('pg', pg), X=X)
        def c_s(I2, a, fv):
            m = a['num_data']; same_bounds(I2, a['bounds'], bounds, 'sampled over the search domain'); I2.prove(zle(1, m), 'some samples'); S = mat(I2, m, D, 'sample'); w.fields["smp"] = snapshot_arr(I2, S); return S
        I.contracts['GPyOpt.util.general.samples_multidimensional_uniform'] = c_s
        w.fun = z3.Real('resfun!%d' % uid())
        def mini(I2, a, k):
            b = dict(zip(['fun', 'x0', 'args', 'method', 'jac'], a)); b.update(k); w.fields['calls'] += 1
            same_bounds(I2, b.get('bounds'), bounds, 'the search stays in the domain')
            z = I2.fresh('z', 'Row'); Q = mk(I2, (D,), lambda i: el(z, ZI(i)), vec=z); ar = b.get('args', ())
            v = NP.scalar_of(I2.call(b['fun'], [Q] + list(ar), {}))
            norm = lambda r: NP.s_sqrt(I2, NP.ssum(I2, D, lambda j: zmul(el(G(r), ZI(j)), el(G(r), ZI(j)))))
            I2.prove(zeq(v, zmul(-1, norm(z))), 'the function minimised is minus the norm of the gradient of the mean')
            x0 = NP.atleast_2d(I2, NP.as_arr(I2, b['x0'])); I2.prove(zand(zeq(x0.shape[0], 1), zeq(x0.shape[1], D)), 'one start')
            w.fields["x0"] = NP.rowfn(I2, x0)(0); w.norm = norm
            return stub(I2, 'OptimizeResult', fun=w.fun)
        I.natives['scipy.optimize.minimize'] = mini
        return [model, bounds]
    return f
def p_el(I, em, a, r):
    w = I.el; L = NP.scalar_of(r); em('one search', w.fields['calls'] == 1)
    em('a positive constant', zlt(0, L))
    em('the largest gradient norm found, or 10 when the mean is flat', zeq(L, zite(zlt(zmul(-1, w.fun), Fraction(1, 10 ** 7)), 10, zmul(-1, w.fun))))
    S = w.fields['smp']
    if S is not None:
        rs = NP.rowfn(I, S); rx = NP.rowfn(I, w.X)
        for r_, n, nm in ((rs, S.shape[0], 'sample'), (rx, w.X.shape[0], 'observed input')):
            with I.gen(n) as i:
                with I.hyp(True): em('the search starts where the gradient is steepest (%s)' % nm, zle(w.norm(r_(i)), w.norm(w.fields["x0"])))
ESTL = [Contract(EL, s_el(nd), p_el, name=EL + ' (gradient with %d axes)' % nd) for nd in (2, 3)]
CONTRACTS = GENS + ACQ + APPLYC + LBFGS + GLOB + CHOOSE + ACQOPT
