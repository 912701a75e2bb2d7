"""Contracts of the saved files and the report (GPyOpt/core/bo.py)."""
from .lib import *
B = 'GPyOpt.core.bo.BO'

class Files(object):
    """stand-in for the file system: records what is opened, written through csv.writer, and written as text"""
    def __init__(self, I):
        g = self.g = ObjV(I, 'files', {'opened': [], 'rows': ListV(I), 'text': [], 'writers': []}, tag='stub')
        def wr(I2, s): g.fields['text'] = g.fields['text'] + NP.strparts(s)
        def opener(I2, a, k):
            g.fields['opened'] = g.fields['opened'] + [(a[0], a[1] if len(a) > 1 else k.get('mode', 'r'))]
            return stub(I2, 'file', write=native('write', wr), close=native('close', lambda I3: None), flush=native('flush', lambda I3: None),
                        writelines=native('writelines', lambda I3, l: [wr(I3, x) for x in l.items()]))
        def writer(I2, a, k):
            g.fields['writers'] = g.fields['writers'] + [k.get('delimiter', ',')]
            def row(I3, r): g.fields['rows'].segs = list(g.fields['rows'].segs) + [('e', r)]
            def rows(I3, d):
                n, get = iterate(I3, d)
                g.fields['rows'].segs = list(g.fields['rows'].segs) + (list(d.segs) if isinstance(d, ListV) else [('s', n, get)])
            return stub(I2, 'csv.writer', writerow=native('writerow', row), writerows=native('writerows', rows))
        I.natives['open'] = opener; I.natives['csv.writer'] = writer

def records(I, **kw):
    n, D = integer(I, 'n', 1), integer(I, 'D', 1); X, Y = mat(I, n, D, 'X'), column(I, n, 'Y')
    P, q = integer(I, 'P', 1), integer(I, 'q', 1); M = mat(I, q, P, 'M')
    names = ListV(I, ['noise', 'scale'])
    o = newobj(I, B, X=X, Y=Y, model_parameters_iterations=M, model=stub(I, 'Model', get_model_parameters_names=native('names', lambda I2: names)), **kw)
    o.rec = (X, Y, M, mk(I, (n, D), X.data, row=X.row), mk(I, (n, 1), Y.data), mk(I, (q, P), M.data, row=M.row)); o.names = names
    o.files = Files(I); return o
def untouched(I, em, o):
    X, Y, M, X0, Y0, M0 = o.rec; F = o.fields
    em('the records stay in place', F['X'] is X and F['Y'] is Y and F['model_parameters_iterations'] is M)
    em.forall([X0.shape[0], X0.shape[1]], lambda i, j: zeq(X.data(i, j), X0.data(i, j)), 'recorded inputs unchanged')
    em.forall([Y0.shape[0]], lambda i: zeq(Y.data(i, 0), Y0.data(i, 0)), 'recorded outputs unchanged')
    em.forall([M0.shape[0], M0.shape[1]], lambda i, j: zeq(M.data(i, j), M0.data(i, j)), 'recorded parameters unchanged')
def cell(I, row, j):
    """j-th cell of a written row"""
    n, g = iterate(I, row); return NP.scalar_of(g(j))
def tail_list(I, l):
    if not l.segs or l.segs[0][0] != 'e': raise Unsupported('header line')
    t = ListV(I); t.segs = list(l.segs[1:]); return t
def csvfile(I, em, o, name, head, tail, n, w, first, rest):
    g = o.files.g.fields
    em('one file is written, the one asked for', len(g['opened']) == 1 and g['opened'][0][0] == name and g['opened'][0][1] in ('w', 'wt', 'w+'))
    em('tab-separated', len(g['writers']) == 1 and g['writers'][0] == '\t')
    rows = g['rows']; em('a header and one line per record', zeq(rows.length(), zadd(n, 1)))
    h = list_get(I, rows, 0); hn, hg = iterate(I, h)
    em('the header has one name per column', zeq(hn, w))
    for i, nm in enumerate(head): em('header column %d' % (i + 1), hg(i) == nm)
    tail(h, hn, hg)
    with I.gen(n) as i:
        with I.hyp(True):
            r = list_get(I, tail_list(I, rows), i); rn, rg = iterate(I, r)
            em('line length', zeq(rn, w))
            for j, f in enumerate(first): em('line i, column %d' % (j + 1), zeq(NP.scalar_of(rg(j)), f(i)))
            with I.gen(zsub(w, len(first))) as j:
                with I.hyp(True): em('line i holds the values exactly as recorded', zeq(NP.scalar_of(rg(ZI(j) + len(first))), rest(i, j)))
def s_ev(I): return [records(I), 'evaluations.txt']
def p_ev(I, em, a, r):
    o = a[0]; X0, Y0 = o.rec[3], o.rec[4]; n, D = X0.shape
    csvfile(I, em, o, a[1], ['Iteration', 'Y'], lambda *x: None, n, zadd(D, 2), [lambda i: zadd(i, 1), lambda i: Y0.data(i, 0)], lambda i, j: X0.data(i, j))
    untouched(I, em, o)
save_evaluations = Contract(B + '.save_evaluations', s_ev, p_ev)
def s_mo(I):
    o = records(I); I.assume(o.rec[2].shape[1] == 2); return [o, 'models.txt']
def p_mo(I, em, a, r):
    o = a[0]; M0 = o.rec[5]; q, P = M0.shape
    csvfile(I, em, o, a[1], ['Iteration', 'noise', 'scale'], lambda *x: None, q, zadd(P, 1), [lambda i: zadd(i, 1)], lambda i, j: M0.data(i, j))
    untouched(I, em, o)
save_models = Contract(B + '.save_models', s_mo, p_mo)
def s_mo0(I):
    o = records(I); o.fields['model_parameters_iterations'] = None; return [o, 'models.txt']
save_models0 = Contract(B + '.save_models', s_mo0, lambda I, em, a, r: em('nothing recorded is an error', False), raises=lambda I, em, a, e: em('rejected before anything is written', not a[0].files.g.fields['opened']), name=B + '.save_models (nothing recorded)')
def s_wc(I):
    o = records(I); n = integer(I, 'rows', 1); w = integer(I, 'w', 1); A = mat(I, n, w, 'T')
    return [o, 'file.txt', ListV.sym(I, n, lambda i: ListV.sym(I, w, lambda j: A.data(i, j)))], {}
def s_wc2(I):
    a, _ = s_wc(I); a[0].A = a[2]; return a
def p_wc(I, em, a, r):
    g = a[0].files.g.fields; rows = g['rows']; d = a[2]
    em('the file asked for', len(g['opened']) == 1 and g['opened'][0][0] == a[1] and g['opened'][0][1] in ('w', 'wt', 'w+'))
    em('tab-separated', len(g['writers']) == 1 and g['writers'][0] == '\t')
    em('one line per row', zeq(rows.length(), d.length()))
    with I.gen(d.length()) as i:
        x, y = list_get(I, rows, i), list_get(I, d, i); xn, xg = iterate(I, x); yn, yg = iterate(I, y)
        with I.hyp(True): em('line length', zeq(xn, yn))
        with I.gen(yn) as j:
            with I.hyp(True): em('cells as given', zeq(NP.scalar_of(xg(j)), NP.scalar_of(yg(j))))
write_csv = Contract(B + '._write_csv', s_wc2, p_wc)

def s_rep(known):
    def f(I):
        o = records(I)
        v = lambda nm: Opaque(nm)
        space = stub(I, 'Space', dimensionality=integer(I, 'dim', 1), get_continuous_dims=native('c', lambda I2: ListV(I2, [0])), get_discrete_dims=native('d', lambda I2: ListV(I2, [1])), get_bandit=native('b', lambda I2: ListV(I2, [])),
                     has_constraints=native('h', lambda I2: I.fresh('hc', 'Bool')), space_expanded=ListV(I, [stub(I, 'var', type='continuous'), stub(I, 'var', type='bandit', domain=mat(I, integer(I, 'arms', 1), 2, 'A'))]))
        o.fields.update(num_acquisitions=integer(I, 'num', 0), max_iter=integer(I, 'max_iter', 0), eps=real(I, 'eps'), cum_time=real(I, 'cum'), space=space, cost=stub(I, 'Cost', cost_type='Constant cost'),
                        normalize_Y=True, model_update_interval=integer(I, 'interval', 1))
        if known:
            o.fields.update(initial_design_numdata=integer(I, 'idn', 1), objective_name='f', exact_feval=False, model_type='GP', acquisition_type='EI', evaluator_type='sequential', batch_size=1, num_cores=1, acquisition_optimizer=stub(I, 'AO', optimizer_name='lbfgs'))
        I.natives['time.strftime'] = lambda I2, a, k: Opaque('str')
        m = I.module('GPyOpt'); m.globals['__version__'] = '1'
        return [o, 'report.txt']
    return f
def lines(parts):
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            bits = p.split('\n')
            for k, b in enumerate(bits):
                if k: out.append([])
                if b: out[-1].append(b)
        else: out[-1].append(p)
    return out
def text_of(l): return ''.join(x if isinstance(x, str) else '\0' for x in l)
def p_rep(I, em, a, r):
    o = a[0]; g = o.files.g.fields; X0, Y0 = o.rec[3], o.rec[4]; n, D = X0.shape
    em('one file is written, the one asked for', len(g['opened']) == 1 and g['opened'][0][0] == a[1] and g['opened'][0][1] in ('w', 'wt', 'w+'))
    L = [(text_of(l), l) for l in lines(g['text'])]
    vals = lambda l: [x[1] for x in l if not isinstance(x, str)]
    smp = [l for t, l in L if 'samples collected' in t]; em('one line states the number of samples', len(smp) == 1)
    for l in smp[:1]: em('the number of samples is that of the recorded ones', len(vals(l)) == 1 and zeq(NP.scalar_of(vals(l)[0]), n) if len(vals(l)) == 1 else False)
    mn = [l for t, l in L if t.startswith('Value at minimum')]; em('one line states the minimum', len(mn) == 1)
    for l in mn[:1]:
        if len(vals(l)) != 1: em('one value', False); continue
        v = vals(l)[0]; v = NP.scalar_of(v); v = v if not isinstance(v, Arr) else v.data(*[0] * v.ndim)
        em.forall([n], lambda i: zle(v, Y0.data(i, 0)), 'no recorded output is smaller than the stated one')
        em('the stated minimum is a recorded output', exists(I, 'Int', lambda k: zand(0 <= k, k < n, zeq(v, Y0.data(k, 0)))))
    lo = [l for t, l in L if t.startswith('Best found minimum location')]; em('one line states the location', len(lo) == 1)
    for l in lo[:1]:
        if len(vals(l)) != 1: em('one location', False); continue
        x = as_arr(I, vals(l)[0]); t = NP.vecterm(I, x)
        em('the location has one value per coordinate', zeq(x.shape[-1], D))
        em('the location is recorded and attains the minimum', exists(I, 'Int', lambda k: zand(0 <= k, k < n, zeq(t, X0.row(k)), forall_le(n, lambda i: zle(Y0.data(k, 0), Y0.data(i, 0))))))
    untouched(I, em, o)
def forall_le(n, f):
    i = z3.Int('fa!%d' % uid()); return z3.ForAll([i], Z(zimp(zand(0 <= i, i < ZI(n)), f(i))))
REPORT = [Contract(B + '.save_report', s_rep(k), p_rep, name=B + '.save_report (%s)' % ('settings known' if k else 'modular')) for k in (True, False)]
CONTRACTS = [save_evaluations, save_models, save_models0, write_csv] + REPORT
