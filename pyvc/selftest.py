"""Self test of the engine (setup command): its semantics of Python and numpy against CPython / numpy.

Every test program in selfsrc/ is executed by CPython and by the engine, twice: on constant arrays (loops unrolled) and on arrays of
symbolic size and content that the path condition pins to the same values (loops summarised, entries found by the solver).  Every number of the result has
to be *proved* equal to CPython's, and a perturbed value must not be provable (an unsound model would make it so).
Then contracts that are false of the code, or loop invariants that do not hold, have to fail."""
import sys, os, time, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(HERE)); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import z3, cvc5, sympy, inspect, multiprocessing as mp
import numpy as np
from fractions import Fraction
from pyvc import contract as C
from pyvc.engine import Interp, Program
from pyvc.values import *
from pyvc import npmodel as NP
from pyvc.contract import Contract, verify, Unsupported
SRC = os.path.join(HERE, 'selfsrc')
spec = importlib.util.spec_from_file_location('selfm', os.path.join(SRC, 'GPyOpt', 'm.py')); M = importlib.util.module_from_spec(spec); spec.loader.exec_module(M)
VALUES = {'a': 1.5, 'b': 2.25, 'n': 5, 'm': 3, 'x': np.array([1.5, -2., 0.5, 3.25]), 'M': np.array([[1.5, -2., 0.25], [-0.5, 4., 1.]])}
def fr(v): return Fraction(v) if isinstance(v, float) else v
def lift(I, v, symbolic):
    if isinstance(v, np.ndarray):
        if not symbolic: return NP.mk(I, v.shape, lambda *ix: at(I, v, ix))
        sh = []
        for s in v.shape: n = I.fresh('n', 'Int'); I.assume(n == s); sh.append(n)
        f = I.fresh('d', 'Real', ['Int'] * v.ndim)
        for ix in np.ndindex(*v.shape): I.assume(f(*[z3.IntVal(int(q)) for q in ix]) == z3.RealVal(str(Fraction(float(v[ix])))))
        return NP.mk(I, tuple(sh), lambda *ix: f(*[ZI(q) for q in ix]))
    if symbolic:
        if isinstance(v, int): n = I.fresh('n', 'Int'); I.assume(n == v); return n
        r = I.fresh('r', 'Real'); I.assume(r == z3.RealVal(str(Fraction(v)))); return r
    return fr(v)
def at(I, v, ix):
    c = [asint_const(simp(q) if is_sym(q) else q) for q in ix]
    if all(q is not None for q in c): return Fraction(float(v[tuple(c)]))
    t = z3.RealVal(0)
    for jx in np.ndindex(*v.shape): t = z3.If(z3.And(*[ZI(q) == int(j) for q, j in zip(ix, jx)]), z3.RealVal(str(Fraction(float(v[jx])))), t)
    return t
def compare(I, em, r, e, path, wrong):
    """r (engine) against e (CPython)"""
    if isinstance(e, np.generic): e = e.item()
    if isinstance(e, str) and isinstance(r, Opaque): return                  # a built string the engine does not look into
    if e is None or isinstance(e, str):
        em('%s: %r' % (path, e), (r is None) if e is None else isinstance(r, str) and r == e); return
    if isinstance(e, (bool, int, float)):
        if isinstance(r, Arr): r = NP.scalar_of(r)
        if not NP.is_num(r) and not NP.is_boolv(r): em('%s: a number' % path, False); return
        g = (r if e else znot(r)) if isinstance(e, bool) and NP.is_boolv(r) else zeq(NP.num(r), Fraction(e))
        wrong.append((path, g)); return
    if isinstance(e, np.ndarray):
        A = NP.as_arr(I, r) if not isinstance(r, Arr) else r
        em('%s: %d dimensions' % (path, e.ndim), A.ndim == e.ndim)
        if A.ndim != e.ndim: return
        for s, t in zip(A.shape, e.shape): em('%s: shape %s' % (path, e.shape), zeq(s, t))
        for ix in np.ndindex(*e.shape): compare(I, em, A.data(*[int(q) for q in ix]), e[ix], '%s%s' % (path, list(ix)), wrong)
        return
    if isinstance(e, (list, tuple)):
        em('%s: %s' % (path, type(e).__name__), isinstance(r, (tuple, TupV)) if isinstance(e, tuple) else isinstance(r, ListV))
        n = len(r) if isinstance(r, tuple) else r.n if isinstance(r, TupV) else r.length(); em('%s: length %d' % (path, len(e)), zeq(n, len(e)))
        for i, x in enumerate(e): compare(I, em, r[i] if isinstance(r, tuple) else r.get(i) if isinstance(r, TupV) else NP.list_get(I, r, i), x, '%s[%d]' % (path, i), wrong)
        return
    em('%s: comparable' % path, False)
def run(name, symbolic):
    f = getattr(M, name); args = [VALUES[p] for p in inspect.signature(f).parameters]; exc = None
    try: e = f(*[np.array(v) if isinstance(v, np.ndarray) else v for v in args])
    except Exception as x: exc = type(x).__name__; e = None
    I = Interp(Program(SRC), 2000); bad = []; und = []; paths = []
    def setup(I): return [lift(I, v, symbolic) for v in args]
    def post(I, em, a, r):
        if exc: em('raises %s' % exc, False); return
        goals = []; compare(I, em, r, e, 'result', goals)
        w = ['%s: a wrong value is provable: not %s' % (path, g) for path, g in (goals[:40] if symbolic else []) if I.check(znot(g), 700)]; paths.append(w)
        if w: return                                                  # a path the solver could not exclude, or an unsound model: decided below
        for path, g in goals:
            if symbolic and not I.check(g, 300): und.append(path); continue        # beyond the solver's reach: not wrong
            em(path, g)
    def raises(I, em, a, x): em('raises %s, not %s' % (exc, x.clsname), exc is not None and (x.clsname == exc or exc == 'UnboundLocalError' and x.clsname == 'NameError'))
    try: verify(I, Contract('GPyOpt.m.' + name, setup, post, raises=raises))
    except Unsupported as x: return 'unsupported: %s' % x, len(I.obls), []
    und += [o.name for o in I.obls if o.status == 'unknown']
    if paths and all(paths): bad += paths[0]
    for o in I.obls:
        if o.status not in ('ok', 'unknown') and not (und and o.status == 'vacuous'): bad.append('%s (%s)' % (o.name, o.status))
    return ('; '.join(bad) or 'ok'), len(I.obls), und
def job(a):
    try: return a + run(*a)
    except Exception as e:
        import traceback; return a + ('error: ' + traceback.format_exc()[-700:], 0, [])
# contracts that hold (on the right bodies) and that must fail (on the wrong twins), for arrays and numbers of arbitrary size and value
def false_contracts():
    from contracts.lib import rvec, integer, real
    def vecof(I): n = integer(I, 'n', 1); return [rvec(I, n, 'x')]
    def upper(I, em, a, r): em.forall([a[0].shape[0]], lambda k: zle(a[0].data(k), r), 'an upper bound')
    def total(I, em, a, r): em('the sum of the entries', zeq(r, NP.ssum(I, a[0].shape[0], lambda k: a[0].data(k))))
    def frame(I, em, a, r, old): em.forall([a[0].shape[0]], lambda k: zeq(a[0].data(k), old(k)), 'the argument is unchanged')
    def snap(I, a): d = a[0].data; f = I.fresh('old', 'Real', ['Int']); I.assume_forall([a[0].shape[0]], lambda k: zeq(f(ZI(k)), d(k))); return lambda k: f(ZI(k))
    def count(I, em, a, r): em('counts to n', zeq(r, a[0]))
    def inv(ok):
        def hook(I, L):
            if ok == 'max':
                j = z3.Int('j!inv'); x = I.stack_args[0].data
                return [('an upper bound so far', lambda st, i: z3.And(*[z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ZI(i)), Z(zle(x(j), st[k.key])))) for k in L.of_kind('real')]))]
            if ok == 'ok': return [('k <= n', lambda st, i: zand(*[zle(st[k.key], I.stack_args[0]) for k in L.of_kind('int')]))]
            return [('k = 0', lambda st, i: zand(*[zeq(st[k.key], 0) for k in L.of_kind('int')]))]
        return hook
    def same(I, em, a, r): same_list(I, em, a[0], r)
    def same_list(I, em, x, r):
        em('as long', zeq(x.shape[0], r.length())); em.forall([x.shape[0]], lambda k: zeq(NP.list_get(I, r, k), x.data(k)), 'same entries')
    def nonneg(I, em, a, r): em('nonnegative', zle(0, r))
    def stubcall(I, b, fv): I.prove(Z(zlt(0, b['a'])), 'precondition of callee: positive'); return I.fresh('r', 'Real')
    S = {}
    def add(nm, fails, setup, post, **k): S[nm] = (fails, setup, post, k)
    V = lambda I: vecof(I); N0 = lambda I: [integer(I, 'n', 0)]; R = lambda I: [real(I, 'a')]
    add('f_max', False, V, upper, hook='max'); add('f_max_wrong', True, V, upper, hook='max')
    add('f_total', False, V, total); add('f_total_wrong', True, V, total)
    add('f_frame', False, V, frame, old=snap); add('f_frame_wrong', True, V, frame, old=snap)
    add('f_count', False, N0, count, hook='ok'); add('f_count_wrong', True, N0, count, hook='ok'); S['f_count/false invariant'] = (True, N0, lambda I, em, a, r: em('zero', zeq(r, 0)), {'hook': 'bad'})   # candidates that are not inductive are dropped, never assumed
    add('f_index', True, lambda I: vecof(I) + [integer(I, 'i')], lambda I, em, a, r: None)
    S['f_index/in range'] = (False, lambda I: [(lambda n: rvec(I, n, 'x'))(I.__dict__.setdefault('_n', integer(I, 'n', 1)))] + [idx(I)], lambda I, em, a, r: em('the entry', zeq(r, a[0].data(a[1]))), {})
    def idx(I): i = integer(I, 'i', 0); I.assume(i < I._n); return i
    add('f_pos', False, R, nonneg); add('f_pos_wrong', True, R, nonneg)
    add('f_call', False, R, lambda I, em, a, r: em('done', True), stub=stubcall); add('f_call_wrong', True, R, lambda I, em, a, r: em('done', True), stub=stubcall)
    add('f_late', False, V, same); add('f_late_wrong', True, V, same)
    add('f_alias_wrong', True, V, lambda I, em, a, r: em('the rows are distinct', zeq(r, 0)))
    S['f_max/contradictory precondition'] = (True, lambda I: (lambda v: (I.assume(v[0].shape[0] < 1), v)[1])(vecof(I)), upper, {})
    S['f_max/wrong claim'] = (True, V, lambda I, em, a, r: em.forall([a[0].shape[0]], lambda k: zlt(a[0].data(k), r), 'a strict upper bound'), {})
    S['f_late/wrong claim'] = (True, V, lambda I, em, a, r: em('empty', zeq(r.length(), 0)), {})
    return S, inv
def falsejob(nm):
    S, inv = false_contracts(); fails, setup, post, k = S[nm]; k = dict(k); q = 'GPyOpt.m.' + nm.split('/')[0]
    I = Interp(Program(SRC), 12000); h = k.pop('hook', None); st = k.pop('stub', None)
    if st: I.contracts['GPyOpt.m.callee'] = st
    if h: k['hooks'] = {q: inv(h)}
    try: verify(I, Contract(q, setup, post, **k))
    except Unsupported as x: return nm, fails, 'unsupported: %s' % x
    except Exception as x:
        import traceback; return nm, fails, 'error: ' + traceback.format_exc()[-900:]
    bad = [o.name for o in I.obls if o.status != 'ok']
    if fails: return nm, fails, 'ok' if bad else 'a contract that is false of the code is accepted'
    return nm, fails, 'ok' if not bad else 'not discharged: %s' % bad[:3]
def main():
    t0 = time.time(); names = sorted(n for n in dir(M) if n[:2] in ('t_', 'r_')); only = sys.argv[1:]
    jobs = [(n, s) for n in names for s in (False, True) if not only or n in only]
    with mp.get_context('fork').Pool(7) as p: res = p.map(job, jobs, chunksize=1); fres = p.map(falsejob, [n for n in false_contracts()[0] if not only or n in only], chunksize=1)
    bad = [r for r in res if r[2] != 'ok' and not r[2].startswith('unsupported')]; uns = [r for r in res if r[2].startswith('unsupported')]
    for r in bad: print('MISMATCH', r[0], 'symbolic' if r[1] else 'constant', r[2][:1500])
    if '-v' in os.environ.get('SELFTEST', ''):
        for r in res:
            if r[4]: print('undecided', r[0], r[4])
    if '-v' in os.environ.get('SELFTEST', ''):
        for r in uns: print('unsupported', r[0], 'symbolic' if r[1] else 'constant', r[2])
    print('self test: %d programs agree with CPython/numpy (%d facts proved), %d not supported by the engine, %d mismatches, %.1f s' % (sum(r[2] == 'ok' for r in res), sum(r[3] for r in res), len(uns), len(bad), time.time() - t0))
    fb = [r for r in fres if r[2] != 'ok']
    for r in fb: print('CONTRACT', r[0], 'must fail' if r[1] else 'must hold', r[2])
    print('self test: %d contracts false of their code rejected, %d true ones discharged, %d wrong' % (sum(r[1] and r[2] == 'ok' for r in fres), sum(not r[1] and r[2] == 'ok' for r in fres), len(fb)))
    sys.exit(1 if bad or fb else 0)
if __name__ == '__main__': main()
