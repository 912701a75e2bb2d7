"""Programs on which the engine and CPython/numpy have to agree (selftest.py).  Every function named t_* is a test; r_* has to raise."""
import copy
import numpy as np

def t_arith(a, b): return a + b * 2 - a / 4, -a, abs(b), a ** 2, max(a, b), min(a, b, 1), a < b, a == a, not (a > b)
def t_intdiv(n, m): return n // 3, (-n) // 3, n % 3, (-n) % 3, int(2.75), int(-2.75), divmod(n, 4)[0] if False else n // 4, round(2.5), round(3.5), float(n)
def t_bool(a, b): return (a < b and b > 0), (a > b or b > 0), (1 if a < b else 2), a < b < 100, (a or b), bool(0), bool([1])
def t_loop_sum(x):
    s = 0
    for v in x: s += v * v
    return s
def t_loop_while(n):
    i = 0; s = 0
    while i < n:
        i += 1
        if i == 2: continue
        if i > 4: break
        s += i
    else: s += 100
    return s, i
def t_for_else(x):
    for v in x:
        if v > 1000: break
    else: return 'none'
    return 'some'
def t_nested(n, m):
    out = []
    for i in range(n):
        for j in range(m): out.append(i * 10 + j)
    return out
def t_list(x):
    l = list(x); l.append(7); l.extend([1, 2]); l.insert(0, 9); k = l[:]; k[0] = -1; l += [3]
    return l, k, l[-1], len(l), l[1:3], 7 in l, l.index(7), l.count(2), [v + 1 for v in k if v > 0], l * 2 == l + l
def t_alias(x):
    a = [x]; b = a; b[0] = b[0] + 1; c = list(a); c[0] = 0
    return a[0], b[0], c[0], a is b, a is c
def t_tuple(a, b):
    p = (a, b); q = p + (1,); (u, v), w = p, 3; u, v = v, u
    return q, u, v, w, q[1:], len(q), p == (a, b)
def t_dict(a):
    d = {'x': a, 'y': 2}; d['z'] = 3; e = dict(d, x=0); del e['y']; f = d.copy(); f.update({'y': 5})
    return d['x'], e.get('y', 9), 'z' in d, len(f), f['y'], d['y'], sorted(d.keys()), [d[k] for k in sorted(d)], sum(f.values()), [k for k, v in sorted(e.items())], d.pop('x'), 'x' in d
def t_set(n):
    s = set([1, 2, 3, 2]); t = {3, 4}; return len(s), 2 in s, sorted(s - t), sorted(s | t), sorted(s & t), sorted(set(range(n)) - {1})
def t_str(n): return 'v%d' % n, 'a' + 'b', '{}-{}'.format(1, 'x'), 'Abc'.lower(), 'a,b'.split(','), 'abc'[1], 'b' in 'abc', len('abc'), 'x'.join(['1', '2'])
def t_comp(x): return [2 * v for v in x], [i for i, v in enumerate(x) if v > 0], sum(v for v in x), {i: i + 1 for i in range(3)}[2], any(v > 2 for v in x), all(v > -100 for v in x), [a * b for a, b in zip(x, x)]
def t_sort(x): return sorted(x), sorted(x, reverse=True), sorted([(2, 'b'), (1, 'a')], key=lambda p: p[0])[0][1], list(reversed([1, 2, 3])), list(map(lambda v: v + 1, [1, 2])), list(filter(lambda v: v > 1, [1, 2]))
def t_closure(n):
    fs = [lambda v, k=k: v * k for k in range(3)]; c = [0]
    def inc(by=1): c[0] += by; return c[0]
    inc(); inc(by=n)
    return fs[2](5), c[0]
def t_args(n):
    def f(a, b=2, *c, **k): return a + 10 * b + 100 * len(c) + 1000 * k.get('z', 0)
    return f(n), f(n, 3), f(n, 3, 4, 5), f(n, z=1), f(*[n, 4]), f(**{'a': n, 'b': 1, 'z': 2})
class Base(object):
    tag = 'base'
    def __init__(self, v): self.v = v; self.w = 0
    def get(self): return self.v
    def twice(self): return 2 * self.get()
    @property
    def p(self): return self.v + 1
    @staticmethod
    def st(x): return x * 3
class Derived(Base):
    tag = 'derived'
    def __init__(self, v): super(Derived, self).__init__(v); self.w = 5
    def get(self): return Base.get(self) + 100
    def __eq__(self, o): return self.v == o.v
def t_class(a):
    b, d = Base(a), Derived(a); e = copy.copy(d); e.v = 0; g = copy.deepcopy(d); g.w = 1
    return b.twice(), d.twice(), b.p, d.w, d.tag, Base.st(2), isinstance(d, Base), isinstance(b, Derived), d.v, e.get(), d.w, hasattr(d, 'zz'), getattr(d, 'zz', 4), d == Derived(a)
def t_try(a):
    out = []
    try: out.append(1); raise ValueError('x')
    except (KeyError, ValueError): out.append(2)
    finally: out.append(3)
    try: {}['k']
    except KeyError: out.append(4)
    try: [1][5]
    except IndexError: out.append(5)
    try: out.append(6)
    except Exception: out.append(7)
    else: out.append(8)
    return out
def t_default_mutable(n):
    def f(x, acc=None):
        acc = [] if acc is None else acc
        acc.append(x); return len(acc)
    return f(1), f(2), f(3, [1, 2])
def r_key(n): return {'a': 1}['b']
def r_index(x): return list(x)[100]
def r_value(n): raise ValueError('no')
def r_type(n): return n + 'a'
def r_assert(n):
    assert n > 1000
def r_attr(n): return Base(n).zz
def r_unbound(n):
    if n > 1000: q = 1
    return q
def r_shape(x): return np.zeros((2, 3)) + np.zeros((2, 2))
def r_vstack(M): return np.vstack((M, np.zeros((1, 9))))
# --- arrays
def t_index(M, x): return M[0, 1], M[1], M[:, 0], M[-1, -1], x[-1], x[1:], x[:-1], x[::2], M[:, 1:], M[[1, 0]], M[[1], :], M[:, [0]], x[[0, 2]], M[1][0], M[0:1].shape
def t_mask(M, x): return x[x > 0], M[x[:2] > -100] if False else M[M[:, 0] > 0], x[~(x > 0)], np.sum(x > 0), (x > 0) & (x < 2), np.any(x > 1), np.all(x > -50), M[:, 0][M[:, 0] > 0]
def t_assign(M, x):
    A = M.copy(); A[0, 0] = 9; A[:, 1] = 5; y = x.copy(); y[y > 1] = -1; y[0] += 2; B = np.zeros((2, 2)); B[1, :] = [3, 4]; B[0] = 1; z = np.zeros(3); z[1:] = 2
    return A, y, B, z, M[0, 0], x[0]
def t_view(M):
    A = M.copy(); r = A[0]; r[1] = 42; v = A[:, 0]; v += 1; c = A[[0]]; c[0, 0] = -5; d = A.reshape(-1); d2 = A.flatten(); d2[0] = 77
    return A, c, d2
def t_inplace(x):
    a = x.copy(); b = a; b += 1; c = a; c = c + 1; a *= 2
    return a, b, c
def t_bcast(M, x): return M + M[0], M * M[:, [0]], M - 1, M[:, :, None].shape, x[None, :] * x[:, None], M / 2, 1 - M, M ** 2, -M, M.T, abs(M)
def t_reduce(M, x): return M.sum(), M.sum(0), M.sum(axis=1), np.sum(M, 1), x.mean(), M.mean(0), x.min(), x.max(), M.min(0), M.max(axis=1), np.max(M), M.min(), x.argmin(), np.argmax(x), M.argmin(0) if False else M[:, 0].argmin(), np.ptp(x), np.var(x), np.cumsum(x), np.minimum.accumulate(x), np.prod(x.shape)
def t_stack(M, x): return np.vstack((M, M)), np.hstack((M, M)), np.concatenate([x, x]), np.concatenate((M, M), axis=1), np.append(x, 3), np.append(M, M, axis=0), np.vstack([M[0], M[1]]), np.hstack((x, [1., 2.])), np.column_stack((x, x)), np.vstack((x, x)), np.atleast_2d(x), np.atleast_2d(M)
def t_make(n): return np.zeros(3), np.ones((2, 1)), np.eye(2), np.arange(n), np.arange(1, 4), np.linspace(0, 1, 5), np.full((2,), 7), np.array([[1, 2], [3, 4]]), np.array([1.5, 2]), np.zeros_like(np.ones((1, 2))), np.array([]).shape, np.identity(2), np.diag([1, 2]), np.diag(np.array([[1, 2], [3, 4]]))
def t_shape(M, x): return M.shape, M.ndim, x.size, len(M), M.reshape(-1, 1), M.reshape((1, -1)), x.reshape(-1, 1), x[:, None], x[:, np.newaxis].shape, M.flatten(), M.ravel(), M.flatten('F'), M.T.shape, np.squeeze(x[None]).shape, np.expand_dims(x, 0), np.reshape(M, (M.size,))
def t_linalg(M, x): return M.dot(M.T), np.dot(M, M[0]), M @ M[1], np.outer(x, x), np.dot(x, x), np.linalg.norm(np.array([3., 4.])), np.linalg.norm(np.array([[3., 4.], [0., 5.]]), axis=1)
def t_where(x, M): return np.where(x > 0, x, 0), np.where(x > 0)[0], np.clip(x, -1, 1), np.maximum(x, 0), np.minimum(x, 1), np.sign(x), np.abs(x), np.square(x), np.floor(x), np.ceil(x), np.round(x), np.isnan(x), np.where(M[:, [0]] > 0)[0]
def t_order(x): return np.sort(x), np.argsort(x), np.sort(x)[::-1][0] if False else np.sort(x)[-1], x[np.argsort(x)], np.argsort(-x)
def t_rep(M, x): return np.tile(x, 2), np.tile(M, (2, 1)), np.repeat(x, 2), np.repeat(M, 2, axis=0), np.rot90(M), np.rot90(M, 3), np.rot90(M, 2), np.einsum('ij,jk->ik', M, M.T), np.einsum('ki,kj->kij', M, M), np.einsum('kij,k->ij', np.einsum('ki,kj->kij', M, M), M[:, 0])
def t_grid(x): g = np.meshgrid(x, np.arange(2)); return g[0], g[1], np.vstack([a.ravel() for a in g]).T
def t_eq(M, x): return np.array_equal(M, M), np.array_equal(M, M + 1), np.all(M == M), (x == x).all(), np.allclose(x, x), np.count_nonzero(x > 0), np.isclose(1., 1.), (M == M[0]).sum()
def t_loop_rows(M):
    out = np.zeros((M.shape[0], 1)); best = None
    for i in range(M.shape[0]):
        out[i] = M[i].sum()
        if best is None or out[i, 0] < best: best = out[i, 0]
    return out, best
def t_loop_collect(M):
    rows = []
    for r in M:
        if r[0] > 0: rows.append(r)
    return np.array(rows) if rows else None, len(rows)
def t_loop_vstack(M):
    A = M[:1]
    for i in range(1, M.shape[0]): A = np.vstack((A, M[i]))
    return A
def t_loop_search(x):
    k = None
    for i, v in enumerate(x):
        if v > 1: k = i; break
    return k
def t_loop_dict(M):
    d = {}
    for i, r in enumerate(M): d['r%d' % i] = r[0]
    return d['r0'], len(d)
def t_loop_tail(x):
    y = np.zeros(len(x)); last = 0
    for i in range(len(x)):
        y[i] = x[i] - last; last = x[i]
    return y, last
def t_axis_loop(M): return np.apply_along_axis(lambda r: r.sum(), 1, M) if False else np.array([r.sum() for r in M]), [float(v) for v in M[0]], M.tolist(), [tuple(r) for r in M.tolist()]
def t_minkey(x): return min(range(len(x)), key=lambda i: x[i]), max(x), min(x), sum(x), sorted(x)[0]
def t_randless(n): return [i for i in range(10, 0, -3)], list(range(n)), list(zip([1, 2], [3, 4])), [a for p in [[1], [2, 3]] for a in p]
def t_kw(M): return np.sum(a=M, axis=0), M.mean(axis=0), np.std(np.array([1., 1.])), np.zeros(shape=(1, 2)), np.ones((2,), dtype=int), M.astype(int), np.array([1, 0], dtype=bool)
def t_global(n): return CONST + n, TABLE['b']
CONST = 5
TABLE = {'a': 1, 'b': 2}
# --- f_*: bodies with a contract (selftest.FALSE): the contract fails on the ones marked wrong, and holds on their repaired twins
def f_max(x):
    m = x[0]
    for i in range(len(x)):
        if x[i] > m: m = x[i]
    return m
def f_max_wrong(x):
    m = x[0]
    for i in range(len(x) - 1):
        if x[i] > m: m = x[i]
    return m
def f_total(x):
    s = 0
    for v in x: s = s + v
    return s
def f_total_wrong(x):
    s = 0
    for v in x:
        if v != 3: s = s + v
    return s
def f_frame(x):
    y = x.copy()
    for i in range(len(y)): y[i] = 0
    return y
def f_frame_wrong(x):
    y = x
    for i in range(len(y)): y[i] = 0
    return y
def f_count(n):
    k = 0
    while k < n: k += 1
    return k
def f_count_wrong(n):
    k = 0
    while k < n: k += 2
    return k
def f_index(x, n): return x[n]
def f_pos(a): return a if a >= 0 else -a
def f_pos_wrong(a): return a if a >= -1 else -a
def callee(a): return a
def f_call(a): return callee(a * a + 1)
def f_call_wrong(a): return callee(a * a - 1)
def f_late(x):
    r = []
    for v in x: r.append(v)
    return r
def f_late_wrong(x):
    r = []
    for v in x:
        r.append(v)
        if len(r) == 7: break
    return r
def f_alias_wrong(x):
    r = [[]] * 2
    r[0].append(1)
    return len(r[1])
def f_default_wrong(a, acc=[]):
    acc.append(a)
    return len(acc)
