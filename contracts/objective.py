"""Contracts of the objective wrapper (GPyOpt/core/task/objective.py) and of the history handling of BayesianOptimization."""
from .lib import *
from .bo import zeq_row, snapshot_arr, B
O = 'GPyOpt.core.task.objective.SingleObjective'
M = 'GPyOpt.methods.bayesian_optimization.BayesianOptimization'

def user_function(I, o, D, f, g):
    """the user's function: called with one row (1, D), returns (1, 1); every call is logged"""
    def call(I2, a, k):
        x = NP.as_arr(I2, a[0])
        I2.prove(zand(x.ndim == 2, zeq(x.shape[0], 1), zeq(x.shape[-1], D)), 'the objective receives one row')
        g.fields['log'] = NP.concat(I2, [g.fields['log'], x], 0)
        r = NP.rowfn(I2, x)(0)
        return mk(I2, (1, 1), lambda i, j: f(r))
    return Native('objective function', call)
def s_eval(I):
    n = integer(I, 'n', 0); D = integer(I, 'D', 1); X = mat(I, n, D, 'X')
    f = z3.Function('f!%d' % uid(), Row, z3.RealSort())
    no = z3.Const('norow', Row)
    g = ObjV(I, 'ghost', {'log': mk(I, (0, D), lambda i, j: 0, row=lambda i: no)}, tag='stub')
    o = newobj(I, O, n_procs=1, num_evaluations=0, space=None, objective_name=Opaque('str'))
    o.fields['func'] = user_function(I, o, D, f, g)
    o.g = g; o.f = f; o.X = X; o.Xc = snapshot_arr(I, X)
    I.natives['time.time'] = lambda I2, a, k: I2.fresh('now', 'Real')
    return [o, X]
def p_eval(I, em, a, r):
    o, X = a[0], a[1]; F, C = r; n = X.shape[0]; log = o.g.fields['log']; f = o.f
    F = as_arr(I, F)
    em('one output row per input row', zand(F.ndim == 2, zeq(F.shape[0], n), zeq(F.shape[1], 1)))
    em('one time per input row', zeq(seqlen(C), n))
    em('one call per row', zeq(log.shape[0], n))
    rX = NP.rowfn(I, o.Xc); rl = NP.rowfn(I, log)
    em.forall([n], lambda i: zeq_row(I, log, i, o.Xc, i), 'call i receives row i')
    em.forall([n], lambda i: zeq(F.data(i, 0), f(rX(i))), 'output i is the value at row i')
    em.forall([n], lambda i: zeq_row(I, X, i, o.Xc, i), 'the inputs are unchanged')
def hook_eval(I, view):
    o = I.stack_args[0]; X = o.Xc; rX = NP.rowfn(I, X); out = []
    for L in view.arrs(2):
        out.append(('rows of %s' % L.name, lambda st, k, L=L: zeq(st[L.key].shape[0], k)))
    return out
EVAL = [Contract(O + '._eval_func', s_eval, p_eval)]

def s_evaluate(I):
    """one core: evaluate is sequential evaluation"""
    return s_eval(I)
def p_evaluate(I, em, a, r): p_eval(I, em, a, r)
EVAL.append(Contract(O + '.evaluate', s_evaluate, p_evaluate, name=O + '.evaluate (one core)'))

# --- sign for maximisation
def s_sign(mx):
    def f(I):
        o = newobj(I, M, maximize=mx); D = integer(I, 'D', 1); F = z3.Function('f!%d' % uid(), Row, z3.RealSort())
        def call(I2, a, k):
            x = NP.as_arr(I2, a[0]); r = NP.rowfn(I2, x); return mk(I2, (x.shape[0], 1), lambda i, j: F(r(i)))
        fn = Native('f', call); o.F = F; o.fn = fn; o.D = D
        return [o, fn]
    return f
def p_sign(mx):
    def p(I, em, a, r):
        o, fn = a; n = integer(I, 'n', 1); X = mat(I, n, o.D, 'X')
        y = as_arr(I, I.call(r, [X], {})); rx = NP.rowfn(I, X)
        em('one value per row', zand(zeq(y.shape[0], n), zeq(y.shape[1], 1)))
        em.forall([n], lambda i: zeq(y.data(i, 0), zneg(o.F(rx(i))) if mx else o.F(rx(i))), 'the value%s' % (' with the sign changed' if mx else ''))
    return p
SIGN = [Contract(M + '._sign', s_sign(mx), p_sign(mx), name=M + '._sign (%s)' % ('maximize' if mx else 'minimize')) for mx in (True, False)]

# --- get_evaluations
def s_get(I):
    n = integer(I, 'n', 1); D = integer(I, 'D', 1); o = newobj(I, B, X=mat(I, n, D), Y=column(I, n)); return [o]
def p_get(I, em, a, r):
    o = a[0]; X, Y = o.fields['X'], o.fields['Y']; x, y = r
    em('shapes', zand(zeq(x.shape[0], X.shape[0]), zeq(x.shape[1], X.shape[1]), zeq(y.shape[0], Y.shape[0]), zeq(y.shape[1], 1)))
    em.forall([X.shape[0], X.shape[1]], lambda i, j: zeq(x.data(i, j), X.data(i, j)), 'the recorded inputs')
    em.forall([Y.shape[0]], lambda i: zeq(y.data(i, 0), Y.data(i, 0)), 'the recorded outputs')
    em('copies: writing to them does not reach the record', x is not X and y is not Y and x.base is None and y.base is None)
GET = [Contract(B + '.get_evaluations', s_get, p_get)]

# --- initial data of BayesianOptimization
INITIAL = 'GPyOpt.experiment_design.initial_design'
def s_init(x, y):
    def f(I):
        D = integer(I, 'D', 1); n = integer(I, 'n', 1); F = z3.Function('f!%d' % uid(), Row, z3.RealSort())
        X = mat(I, n, D, 'X') if x else None; Y = column(I, n, 'Y') if y else None
        no = z3.Const('norow', Row)
        g = ObjV(I, 'ghost', {'elog': mk(I, (0, D), lambda i, j: 0, row=lambda i: no), 'cost': [], 'design': []}, tag='stub')
        def evaluate(I2, xx):
            xx = as_arr(I2, xx); g.fields['elog'] = NP.concat(I2, [g.fields['elog'], xx], 0); rr = NP.rowfn(I2, xx)
            c = I2.fresh('costv', 'Real', ['Int'])
            return (mk(I2, (xx.shape[0], 1), lambda i, j: F(rr(i))), ListV.sym(I2, xx.shape[0], lambda i: c(ZI(i))))
        N = integer(I, 'numdata', 1)
        def design(I2, a, fv):
            v = list(a.values()); g.fields['design'] = g.fields['design'] + [v]
            return mat(I2, a['init_points_count'], D, 'design')
        I.contracts[INITIAL] = design
        o = newobj(I, M, X=X, Y=Y, f=Native('f', None), initial_design_type='random', initial_design_numdata=N, space=stub(I, 'space', unzip_inputs=native('u', lambda I2, q: ObjV(I2, 'enc', {'of': q}, tag='stub'))),
                   objective=stub(I, 'Objective', evaluate=native('evaluate', evaluate)),
                   cost=stub(I, 'Cost', update_cost_model=native('ucm', lambda I2, q, c: g.fields.__setitem__('cost', g.fields['cost'] + [(q, c)]))))
        o.g = g; o.F = F; o.N = N; o.D = D; o.X0 = X; o.Y0 = Y; o.X0c = snapshot_arr(I, X) if x else None; o.Y0c = snapshot_arr(I, Y) if y else None
        return [o]
    return f
def p_init(x, y):
    def p(I, em, a, r):
        o = a[0]; X, Y = o.fields['X'], o.fields['Y']; g = o.g.fields; rx = NP.rowfn(I, X); n = X.shape[0]
        em('as many outputs as inputs', zand(zeq(Y.shape[0], n), zeq(Y.shape[1], 1)))
        if x: 
            em('the supplied inputs', zeq(n, o.X0c.shape[0])); em.forall([n], lambda i: zeq_row(I, X, i, o.X0c, i), 'the supplied inputs are kept, in order')
            em('no design is made', len(g['design']) == 0)
        else:
            em('one design of the requested kind and size', len(g['design']) == 1 and g['design'][0][0] == 'random' and g['design'][0][1] is o.fields['space'])
            em('the requested number of points', zeq(n, o.N))
        if x and y:
            em.forall([n], lambda i: zeq(Y.data(i, 0), o.Y0c.data(i, 0)), 'the supplied outputs are kept, in order')
            em('nothing is evaluated', zeq(g['elog'].shape[0], 0))
        else:
            em.forall([n], lambda i: zeq(Y.data(i, 0), o.F(rx(i))), 'output i is the objective at input i')
            em('every row is evaluated once', zeq(g['elog'].shape[0], n))
            em.forall([n], lambda i: zeq_row(I, X, i, g['elog'], i), 'rows are evaluated in order')
    return p
INIT = [Contract(M + '._init_design_chooser', s_init(x, y), p_init(x, y), name=M + '._init_design_chooser (%s)' % nm) for x, y, nm in ((True, True, 'X and Y given'), (True, False, 'X given'), (False, False, 'neither given'), )]
