"""Model of the built-ins and of the part of numpy / scipy that GPyOpt uses.

Every function here is an assumed contract on a dependency (listed in the evidence); the models are cross-checked
against CPython / numpy by selftest.py.
"""
import z3, math
from fractions import Fraction
from .values import *

R, Int, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
EXP = z3.Function('EXP', R, R); LOG = z3.Function('LOG', R, R); SQRT = z3.Function('SQRT', R, R)
ERFC = z3.Function('ERFC', R, R); NLOGCDF = z3.Function('NLOGCDF', R, R); NCDF = z3.Function('NCDF', R, R)
LOG1P = z3.Function('LOG1P', R, R)
MENTION = z3.Function('MENTION', Int, B)        # carries no meaning: contracts assume it of a term to make the solver consider it

# ------------------------------------------------------------------ helpers
class Kw(dict):
    """keyword arguments of a modelled function: the model has to look at every one of them"""
    def __init__(self, d): dict.__init__(self, d); self.seen = set()
    def get(self, x, default=None): self.seen.add(x); return dict.get(self, x, default)
    def __getitem__(self, x): self.seen.add(x); return dict.__getitem__(self, x)
    def __contains__(self, x): self.seen.add(x); return dict.__contains__(self, x)
    def pop(self, x, *d): self.seen.add(x); return dict.pop(self, x, *d)
FIRST = ('a', 'arr', 'x', 'm', 'ary', 'array', 'object', 'v')       # names numpy gives its first argument
def modelled(nm, f):
    def g(I, a, k):
        if not k: return f(I, a, k)
        if not a:
            for q in FIRST:
                if q in k: k = dict(k); a = [k.pop(q)]; break
        k = Kw(k); r = f(I, a, k); left = [q for q in k if q not in k.seen and not (q == 'dtype' and isinstance(dict.get(k, q), (Opaque, ExtV)) and False)]
        if left: raise Unsupported('argument %s of %s' % (', '.join(left), nm))
        return r
    g.modelled = True
    return g

def free_consts(t, cache=None):
    """names of the free 0-ary uninterpreted constants of a term"""
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.get_id())
            st.extend(x.children())
        elif z3.is_quantifier(x): st.append(x.body())
    return out

def mentions(t, k):
    if not is_sym(t): return False
    return k.get_id() in free_consts(t)

def mk(I, shape, fn, **kw): return Arr(I, shape, fn, **kw)

def scalar_of(v):
    if isinstance(v, Arr):
        if all(asint_const(s) == 1 for s in v.shape): return v.data(*[0] * v.ndim)
        if v.ndim == 0: return v.data()
    return v

def list_length(l): return l.length()

def list_get(I, l, i):
    segs = l.segs
    ci = asint_const(i)
    if ci is not None and ci < 0: raise Unsupported('negative index handled by caller')
    if len(segs) == 1 and segs[0][0] == 's': return I.elems.get(I, segs[0][2], i)
    if ci is not None:
        pos = 0
        for s in segs:
            if s[0] == 'e':
                if pos == ci: return s[1]
                pos += 1
            else:
                c = asint_const(s[1])
                if c is None: break
                if ci < pos + c: return I.elems.get(I, s[2], ci - pos)
                pos += c
        else: raise PyRaise('IndexError', ())
    # symbolic position
    off = 0; alts = []
    for s in segs:
        if s[0] == 'e':
            alts.append((zeq(i, off), s[1])); off = simp(zadd(off, 1))
        else:
            end = simp(zadd(off, s[1])); o = off
            alts.append((zand(zle(o, i), zlt(i, end)), (s[2], simp(zsub(i, o))))); off = end
    def val(a): return a[0](a[1]) if isinstance(a, tuple) and len(a) == 2 and callable(a[0]) else a
    if not alts: raise PyRaise('IndexError', ())
    v = val(alts[-1][1])
    for c, a in reversed(alts[:-1]): v = merge(I, c, val(a), v)
    return v

def merge(I, c, a, b):
    """if c then a else b, for values"""
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if is_num(a) and is_num(b):
        if isinstance(a, float) or isinstance(b, float):
            if type(a) == type(b) and a == b: return a
            raise Unsupported('merge with infinity')
        if is_conc(a) and is_conc(b) and a == b and isinstance(a, bool) == isinstance(b, bool): return a
        return zite(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    if a is None and b is None: return None
    if is_sym(a) and is_sym(b) and a.sort() == b.sort(): return zite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        da, db = a.data, b.data
        sh = [x if (not is_sym(x) and not is_sym(y) and x == y) or (is_sym(x) and is_sym(y) and x.eq(y)) else zite(c, x, y) for x, y in zip(a.shape, b.shape)]
        row = vec = None
        if a.row and b.row: ra, rb = a.row, b.row; row = lambda i: zite(c, ra(i), rb(i))
        if a.vec is not None and b.vec is not None: vec = zite(c, a.vec, b.vec)
        return mk(I, sh, lambda *ix: zite(c, da(*ix), db(*ix)), row=row, vec=vec, dtype=a.dtype if a.dtype == b.dtype else 'real')
    if isinstance(a, (Arr, AltV)) and isinstance(b, (Arr, AltV)): return AltV(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(I, c, x, y) for x, y in zip(a, b))
    if isinstance(a, TupV) and isinstance(b, TupV):
        vec = zite(c, a.vec, b.vec) if a.vec is not None and b.vec is not None else None
        return TupV(zite(c, a.n, b.n) if not same(a.n, b.n) else a.n, lambda j: zite(c, a.get(j), b.get(j)), vec)
    if isinstance(a, ListV) and isinstance(b, ListV):
        if a.concrete() and b.concrete() and len(a.segs) == len(b.segs):
            return ListV(I, [merge(I, c, x, y) for x, y in zip(a.items(), b.items())])
        la, lb = a.length(), b.length()
        sa, sb = list(a.segs), list(b.segs)
        A = ListV(I); A.segs = sa; Bl = ListV(I); Bl.segs = sb
        r = ListV(I); r.segs = [('s', zite(c, la, lb), lambda i: merge(I, c, list_get(I, A, i), list_get(I, Bl, i)))]
        return r
    if isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str)):
        if isinstance(a, Opaque) and isinstance(b, Opaque) and not hasattr(a, 'parts') and not hasattr(b, 'parts'): return a
        if same_text(a, b): return a
        return Opaque('str')
    if isinstance(a, (ObjV, DictV)) and type(a) is type(b) and (isinstance(a, DictV) or a.cls == b.cls):
        if isinstance(a, ObjV) and getattr(a, 'ident', None) is not None and getattr(b, 'ident', None) is not None and same(Z(a.ident), Z(b.ident)): return a
        fa, fb = fields_of(a), fields_of(b)
        if not (set(vars(a)) | set(vars(b))) - PLAIN and set(fa) == set(fb):
            r = ObjV(I, a.cls, {}, a.tag) if isinstance(a, ObjV) else DictV(I); r.derived = True
            for q in fa: fields_of(r)[q] = merge(I, c, fa[q], fb[q])
            return r
    if isinstance(a, IterV) and isinstance(b, IterV): return IterV(zite(c, a.n, b.n), lambda i: merge(I, c, a.get(i), b.get(i)))
    raise Unsupported('merge of %r and %r' % (type(a).__name__, type(b).__name__))

def same_text(a, b):
    """two built strings of the same pieces"""
    p, q = strparts(a), strparts(b)
    return len(p) == len(q) and all(x == y if isinstance(x, str) or isinstance(y, str) else is_num(x[1]) and is_num(y[1]) and same(x[1], y[1]) for x, y in zip(p, q))
def same(a, b):
    if is_sym(a) and is_sym(b): return a.eq(b) or z3.simplify(coerce(a, b)[0] == coerce(a, b)[1]).eq(z3.BoolVal(True))
    if is_sym(a) or is_sym(b): return False
    return a == b

def subst_term(t, pairs):
    if not is_sym(t): return t
    ps = []
    for k, v in pairs:
        v = Z(v)
        if k.sort() != v.sort(): v = z3.ToReal(v) if k.sort() == R else v
        ps.append((k, v))
    return z3.substitute(t, *ps)

def subst(I, v, pairs):
    """deep substitution of generic indices in a value"""
    if is_sym(v): return simp_light(subst_term(v, pairs))
    if isinstance(v, Arr):
        d = v.data
        def data(*ix, d=d):
            # generic arguments keep the template closed while it is built
            return subst_at(I, lambda jx: d(*jx), ix, pairs)
        row = None
        if v.row: rf = v.row; row = lambda i: subst_at(I, lambda jx: rf(*jx), (i,), pairs)
        vec = subst_term(v.vec, pairs) if v.vec is not None else None
        a = mk(I, [subst(I, s, pairs) for s in v.shape], data, row=row, vec=vec, dtype=v.dtype)
        if v.parts: a.parts = [subst(I, p, pairs) for p in v.parts]
        return a
    if isinstance(v, AltV): return AltV(subst(I, v.c, pairs), subst(I, v.a, pairs), subst(I, v.b, pairs))
    if isinstance(v, tuple): return tuple(subst(I, x, pairs) for x in v)
    if isinstance(v, TupV):
        g = v.get
        return TupV(subst(I, v.n, pairs), lambda j: subst_at(I, lambda jx: g(*jx), (j,), pairs), subst_term(v.vec, pairs) if v.vec is not None else None)
    if isinstance(v, ListV):
        l = ListV(I)
        l.segs = [('e', subst(I, s[1], pairs)) if s[0] == 'e' else ('s', subst(I, s[1], pairs), subst_getter(I, s[2], pairs)) for s in v.segs]
        return l
    if isinstance(v, IterV): return IterV(subst(I, v.n, pairs), subst_getter(I, v.get, pairs))
    if isinstance(v, RangeV): return RangeV(subst(I, v.lo, pairs), subst(I, v.hi, pairs), subst(I, v.step, pairs))
    if isinstance(v, ObjV):
        if v.tag == 'fixed': return v
        if getattr(v, 'substf', None): return v.substf(I, pairs)
        if not any(obj_mentions(x, [k for k, _ in pairs]) for x in v.fields.values()):
            # an object made by the iteration itself is another one in every iteration
            if not any(v.id > BORN.get(k.decl().name(), v.id) for k, _ in pairs if z3.is_const(k)) or set(vars(v)) - PLAIN: return v
        o = ObjV(I, v.cls, {}, v.tag); o.derived = True
        for f, x in v.fields.items(): o.fields[f] = subst(I, x, pairs)
        return o
    if isinstance(v, DictV):
        d = DictV(I); d.d = {k: subst(I, x, pairs) for k, x in v.d.items()}; d.derived = True; return d
    if isinstance(v, BoundV): return BoundV(v.func, subst(I, v.self_, pairs))
    if hasattr(v, 'subst_value'): return v.subst_value(I, pairs)
    if isinstance(v, Opaque) and any(not isinstance(x, str) and obj_mentions(x[1], [k for k, _ in pairs]) for x in getattr(v, 'parts', None) or []):
        return opstr([x if isinstance(x, str) else ('val', subst(I, x[1], pairs)) for x in v.parts])
    if isinstance(v, SetV):
        m = v.mem
        return SetV(I, lambda r: subst_at(I, lambda jx: m(*jx), (r,), pairs), v.kind)
    return v

def simp_light(t): return t

def obj_mentions(v, ks):
    if is_sym(v): return any(mentions(v, k) for k in ks)
    if isinstance(v, AltV): return True
    if isinstance(v, (tuple,)): return any(obj_mentions(x, ks) for x in v)
    if hasattr(v, 'subst_value'): return True
    if isinstance(v, Opaque): return any(not isinstance(x, str) and obj_mentions(x[1], ks) for x in getattr(v, 'parts', None) or [])
    if isinstance(v, (Arr, ListV, TupV, IterV, SetV, DictV, RangeV)): return True
    if isinstance(v, ObjV): return any(obj_mentions(x, ks) for x in v.fields.values())
    return False

_ph = [0]
def subst_at(I, f, ix, pairs):
    """f(ix) with the substitution applied to everything but the arguments"""
    hs = []
    back = []
    for a in ix:
        if is_sym(a) and any(mentions(a, k) for k, _ in pairs):
            _ph[0] += 1
            h = z3.Const('ph!%d' % _ph[0], a.sort()); hs.append(h); back.append((h, a))
        else: hs.append(a)
    v = f(hs)
    v = subst(I, v, pairs)
    if back: v = subst(I, v, back)
    return v

def subst_getter(I, g, pairs):
    f = lambda i: subst_at(I, lambda jx: g(*jx), (i,), pairs)
    if getattr(g, 'vec', None) is not None: f.vec = subst_term(g.vec, pairs)
    return f

def template(I, v, k):
    """value v (built at generic index k) as a function of the index"""
    return lambda i: v if (is_sym(i) and i.eq(k)) else subst(I, v, [(k, i)])

# ------------------------------------------------------------------ rows
def root(A):
    while A.base is not None: A = A.base
    return A

def rowfn(I, A):
    """Row term of each row of a 2-d array"""
    if A.row is not None: return A.row
    if A.ndim != 2: raise Unsupported('rowfn of %d-d array' % A.ndim)
    via = getattr(A, 'via', None)
    if via is not None and root(via[0])._data is via[1]:
        f = via[2]; A.row = f; return f
    d = A.data; n, m = A.shape
    if asint_const(n) == 1:
        r0 = I.fresh('row', 'Row')
        def emit():
            I.assume_forall([m], lambda j: zeq(el(r0, Z(j)), ZR(d(0, j))))
        I.definitional(emit)
        A.row = lambda i: r0
        return A.row
    f = I.fresh('row', 'Row', ['Int'])
    def emit():
        I.assume_forall([n, m], lambda i, j: zeq(el(f(i), j), ZR(d(i, j))))
    I.definitional(emit)
    A.row = lambda i: f(i)
    return A.row

def vecterm(I, A):
    if A.vec is not None: return A.vec
    if A.ndim != 1: raise Unsupported('vecterm')
    via = getattr(A, 'via', None)
    if via is not None and root(via[0])._data is via[1]:
        A.vec = via[2](); return A.vec
    d = A.data; r = I.fresh('row', 'Row')
    I.definitional(lambda: I.assume_forall([A.shape[0]], lambda j: zeq(el(r, Z(j)), ZR(d(j)))))
    A.vec = r
    return r

def tupvec(I, t):
    if isinstance(t, TupV):
        if t.vec is None:
            r = I.fresh('row', 'Row')
            I.definitional(lambda: I.assume_forall([t.n], lambda j: zeq(el(r, Z(j)), ZR(t.get(j)))))
            t.vec = r
        return t.vec
    if isinstance(t, tuple) and all(is_num(x) for x in t):
        r = I.fresh('row', 'Row')
        for j, x in enumerate(t): I.assume(zeq(el(r, z3.IntVal(j)), ZR(x)))
        return r
    raise Unsupported('row term of %r' % (t,))

# ------------------------------------------------------------------ conversions
def is_seq(v): return isinstance(v, (ListV, tuple, TupV, IterV, RangeV, Arr))

def iterate(I, v):
    """(n, get)"""
    if isinstance(v, ListV):
        segs = list(v.segs); c = ListV(I); c.segs = segs
        if v.concrete():
            its = v.items()
            return len(its), (lambda i: its[asint_const(i)] if asint_const(i) is not None else list_get(I, c, i))
        return v.length(), lambda i: list_get(I, c, i)
    if isinstance(v, tuple):
        l = ListV(I, v)
        return len(v), lambda i: v[asint_const(i)] if asint_const(i) is not None else list_get(I, l, i)
    if isinstance(v, TupV): return v.n, v.get
    if isinstance(v, IterV): return v.n, v.get
    if isinstance(v, RangeV):
        if asint_const(v.step) == 1:
            n = simp(zsub(v.hi, v.lo)) if not (is_conc(v.lo) and v.lo == 0) else v.hi
            if is_conc(n): n = max(int(n), 0)
            elif not I.check(zle(0, n)): n = zite(zle(0, n), n, 0)
            return n, lambda i: simp(zadd(v.lo, i))
        if is_conc(v.lo) and is_conc(v.hi) and is_conc(v.step):
            r = range(int(v.lo), int(v.hi), int(v.step)); return len(r), lambda i: r[i] if is_conc(i) else simp(zadd(v.lo, zmul(i, v.step)))
        raise Unsupported('range step')
    if isinstance(v, Arr):
        if v.ndim == 0: raise PyRaise('TypeError', ('iteration over a 0-d array',))
        return v.shape[0], lambda i: (v.data(i) if v.ndim == 1 else row_view(I, v, i))
    if isinstance(v, DictV):
        ks = list(v.d.keys()); return len(ks), lambda i: ks[i]
    if isinstance(v, str): return len(v), lambda i: v[i]
    if isinstance(v, SetV): return set_enum(I, v)
    if isinstance(v, ObjV):
        it = getattr(v, 'iterf', None)
        if it is not None: return it(I)
    if is_num(v) or v is None: raise PyRaise('TypeError', ('not iterable',))
    raise Unsupported('iteration over %r' % (v,))

def as_arr(I, v):
    if isinstance(v, Arr): return v
    if isinstance(v, (bool,)) or (is_sym(v) and z3.is_bool(v)): return mk(I, (), lambda: v, dtype='bool')
    if is_num(v): return mk(I, (), lambda: v, dtype='int' if (isinstance(v, int) or (is_sym(v) and v.sort() == Int)) else 'real')
    if isinstance(v, Opaque): raise Unsupported('array of opaque')
    if isinstance(v, TupV):
        return mk(I, (v.n,), lambda j: v.get(j), vec=v.vec)
    if isinstance(v, (ListV, tuple, IterV, RangeV)):
        n, get = iterate(I, v)
        r = arr_of(I, n, get)
        if isinstance(v, ListV) and len(v.segs) == 1 and v.segs[0][0] == 's' and getattr(v.segs[0][2], 'vec', None) is not None and r.ndim == 1: r.vec = v.segs[0][2].vec
        return r
    if isinstance(v, ObjV) and getattr(v, 'as_arr', None): return v.as_arr(I)
    raise Unsupported('array of %r' % (type(v).__name__,))

def arr_of(I, n, get):
    c = asint_const(n)
    if c is not None:
        if c == 0: return mk(I, (0,), lambda i: Fraction(0))
        xs = [get(i) for i in range(c)]
        if all(is_num(x) for x in xs):
            l = ListV(I, xs)
            dt = 'bool' if all(is_boolv(x) for x in xs) else 'int' if all(isinstance(num(x), int) or (is_sym(x) and num(x).sort() == Int) for x in xs) else 'real'
            if dt == 'real': xs = [x if isinstance(x, float) or not (isinstance(num(x), int)) else Fraction(num(x)) for x in xs]
            l = ListV(I, xs)
            return mk(I, (c,), lambda i: list_get(I, l, i), dtype=dt)
        As = [as_arr(I, x) for x in xs]
        for A in As[1:]:
            if A.ndim != As[0].ndim: raise Unsupported('ragged array')
            for s, t in zip(A.shape, As[0].shape):
                if not same(s, t) and not I.branch(zeq(s, t)): raise PyRaise('ValueError', ('inhomogeneous',))
        ds = [A.data for A in As]
        def data(i, *r):
            ci = asint_const(i)
            if ci is not None: return ds[ci](*r)
            v = ds[-1](*r)
            for q in range(c - 2, -1, -1): v = zite(zeq(i, q), ds[q](*r), v)
            return v
        row = None
        if As[0].ndim == 1 and all(A.vec is not None for A in As):
            vs = [A.vec for A in As]
            def row(i):
                ci = asint_const(i)
                if ci is not None: return vs[ci]
                v = vs[-1]
                for q in range(c - 2, -1, -1): v = zite(zeq(i, q), vs[q], v)
                return v
        return mk(I, (c,) + As[0].shape, data, row=row, dtype=As[0].dtype)
    with I.gen(n) as k:
        e = get(k)
        if is_num(e):
            dt = 'bool' if is_boolv(e) else 'int' if (isinstance(e, int) or (is_sym(e) and e.sort() == Int)) else 'real'
            return mk(I, (n,), lambda i: get(i), dtype=dt)
    if not I.check(zlt(0, n)):
        if I.branch(zeq(n, 0)): return mk(I, (0,), lambda i: Fraction(0))
    with I.gen(n) as k:
        e = get(k)
        A = as_arr(I, e)
        shape = []
        for s in A.shape:
            if mentions(s, k) if is_sym(s) else False:
                s0 = subst(I, s, [(k, z3.IntVal(0))])
                if not I.check(zeq(s, s0)): raise Unsupported('array of rows of different lengths')
                s = s0
            shape.append(s)
        hasvec = A.vec is not None
    def data(i, *r): return as_arr(I, get(i)).data(*r)
    row = (lambda i: as_arr(I, get(i)).vec) if A.ndim == 1 and hasvec else None
    return mk(I, (n,) + tuple(shape), data, row=row, dtype=A.dtype)

def copy_arr(I, A, dtype=None):
    r = mk(I, A.shape, A.data, row=A.row, vec=A.vec, dtype=dtype or A.dtype)
    r.masksel = A.masksel
    if A.row is None and A.ndim == 2:
        r.via = (A, root(A)._data, lambda i, A=A: rowfn(I, A)(i))
    if A.vec is None and A.ndim == 1:
        r.via = (A, root(A)._data, lambda A=A: vecterm(I, A))
    return r

# ------------------------------------------------------------------ views
def row_view(I, A, i):
    def vf(d): return lambda *r: d(i, *r)
    def wb(new, old): return lambda a, *r: zite(zeq(a, i), new(*r), old(a, *r))
    v = Arr(I, A.shape[1:], base=A, vf=vf, wb=wb, dtype=A.dtype)
    if A.ndim == 2:
        if A.row is not None: v.vec = A.row(i)
        else: v.via = (A, root(A)._data, lambda: rowfn(I, A)(i))
    return v

def atleast_2d(I, v):
    if isinstance(v, AltV): return merge(I, v.c, atleast_2d(I, v.a), atleast_2d(I, v.b))
    A = as_arr(I, v)
    if A.ndim >= 2: return A
    if A.ndim == 1:
        r = Arr(I, (1, A.shape[0]), base=A, vf=lambda d: (lambda i, j: d(j)), wb=lambda new, old: (lambda j: new(0, j)), dtype=A.dtype)
        if A.vec is not None: vv = A.vec; r.row = lambda i: vv
        else: r.via = (A, root(A)._data, lambda i: vecterm(I, A))
        return r
    x = A.data()
    return mk(I, (1, 1), lambda i, j: x, dtype=A.dtype)

def dim_unify(I, a, b):
    ca, cb = asint_const(a), asint_const(b)
    if ca is not None and cb is not None:
        if ca == cb: return ca
        if ca == 1: return cb
        if cb == 1: return ca
        raise PyRaise('ValueError', ('could not be broadcast',))
    if ca == 1: return b
    if cb == 1: return a
    if same(a, b): return a
    if I.branch(zeq(a, b)): return a if ca is None else ca
    if I.branch(zeq(a, 1)): return b
    if I.branch(zeq(b, 1)): return a
    raise PyRaise('ValueError', ('could not be broadcast',))

def bc_shape(I, shapes):
    nd = max(len(s) for s in shapes); out = []
    for p in range(nd):
        d = 1
        for s in shapes:
            q = p - (nd - len(s))
            if q >= 0: d = dim_unify(I, d, s[q]) if not (asint_const(d) == 1) else s[q]
        out.append(d)
    return tuple(out)

def bc_access(A, shape):
    nd = len(shape); d = A.data; off = nd - A.ndim
    ones = [asint_const(s) == 1 and asint_const(shape[off + q]) != 1 for q, s in enumerate(A.shape)]
    sym1 = [is_sym(s) and not same(s, shape[off + q]) for q, s in enumerate(A.shape)]
    sh = A.shape
    def f(*ix):
        jx = []
        for q in range(len(sh)):
            i = ix[off + q]
            if ones[q]: i = 0
            elif sym1[q]: i = zite(zeq(sh[q], 1), 0, i)
            jx.append(i)
        return d(*jx)
    return f

def emap(I, fn, *ops, **kw):
    """elementwise map with broadcasting; returns a scalar when all operands are scalars"""
    arrs = [o if isinstance(o, Arr) else None for o in ops]
    if all(a is None for a in arrs): return fn(*ops)
    shape = bc_shape(I, [a.shape for a in arrs if a is not None])
    acc = [(bc_access(a, shape) if a is not None else (lambda *ix, o=o: o)) for a, o in zip(arrs, ops)]
    dt = kw.get('dtype') or ('real' if any((a is not None and a.dtype == 'real') or (a is None and not isinstance(num(o), int) and not (is_sym(o) and num(o).sort() == Int)) for a, o in zip(arrs, ops)) else 'int')
    r = mk(I, shape, lambda *ix: fn(*[f(*ix) for f in acc]), dtype=dt)
    ms = [a for a in arrs if a is not None and a.masksel is not None]
    if ms and all(a is None or a.masksel is not None and a.masksel[0] is ms[0].masksel[0] for a in arrs):
        fulls = [a.masksel[1] if a is not None else (lambda *ix, o=o: o) for a, o in zip(arrs, ops)]
        r.masksel = (ms[0].masksel[0], lambda *ix: fn(*[f(*ix) for f in fulls]))
    return r

# ------------------------------------------------------------------ scalar functions
def cv(x): return asval(x)
def asval(x):
    x = num(x)
    return x

def s_sqrt(I, x):
    x = num(x)
    if isinstance(x, (int, Fraction)):
        f = Fraction(x)
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator: return Fraction(a, b)
    if isinstance(x, float): return math.sqrt(x)
    z = simp(ZR(x)); z = Z(z) if not is_sym(z) else z
    if not z.sort() == R: z = ZR(z)
    t = SQRT(z)
    I.definitional(lambda: I.assume(zimp(z >= 0, z3.And(t >= 0, t * t == z))))
    I.definitional(lambda: I.assume(zimp(z > 0, t > 0)))
    return t

def s_exp(I, x):
    x = num(x)
    if is_conc(x) and x == 0: return Fraction(1)
    if isinstance(x, float) and x == -INF: return Fraction(0)
    t = EXP(ZR(x)); I.definitional(lambda: I.assume(t > 0)); return t

def s_log(I, x):
    x = num(x)
    if is_conc(x) and x == 1: return Fraction(0)
    z = ZR(x)
    t = LOG(z); I.definitional(lambda: I.assume(z3.And(zimp(z > 0, EXP(t) == z), zimp(z > 1, t > 0)))); return t

def s_log1p(I, x): return s_log(I, zadd(1, num(x)))
def s_erfc(I, x):
    t = ERFC(ZR(num(x))); I.definitional(lambda: I.assume(z3.And(t >= 0, t <= 2))); return t
def s_abs(I, x):
    x = num(x)
    if is_conc(x): return abs(x)
    return z3.If(x >= 0, x, -x)
def s_min(a, b):
    if is_conc(a) and is_conc(b): return min(a, b)
    if isinstance(a, float) and a == INF: return b
    if isinstance(b, float) and b == INF: return a
    return zite(zle(a, b), a, b)
def s_max(a, b):
    if is_conc(a) and is_conc(b): return max(a, b)
    if isinstance(a, float) and a == -INF: return b
    if isinstance(b, float) and b == -INF: return a
    return zite(zle(b, a), a, b)

def s_pow(I, a, b):
    a, b = num(a), num(b)
    cb = asint_const(b)
    if cb is not None and not isinstance(b, float) and 0 <= cb <= 6:
        r = 1
        if is_conc(a): return a ** cb
        for _ in range(cb): r = zmul(r, a)
        return r
    if cb is not None and cb < 0 and cb >= -3: return zdiv(1, s_pow(I, a, -cb))
    if is_conc(b) and b == Fraction(1, 2): return s_sqrt(I, a)
    if is_conc(a) and is_conc(b) and isinstance(a, (int, Fraction)) and cb is not None: return Fraction(a) ** cb if cb < 0 else a ** cb
    ai = isinstance(a, int) or (is_sym(a) and a.sort() == Int); bi = isinstance(b, int) or (is_sym(b) and b.sort() == Int)
    if ai and bi: return ipow(I, a, b)
    raise Unsupported('power')

IPOW = z3.Function('IPOW', Int, Int, Int)
def ipow(I, a, b):
    """integer power (non-negative exponent): recursion axioms at the exponents that occur"""
    a, b = ZI(a), ZI(b)
    t = IPOW(a, b)
    I.definitional(lambda: I.assume(z3.And(IPOW(a, 0) == 1, z3.Implies(b >= 1, IPOW(a, b) == a * IPOW(a, b - 1)), z3.Implies(z3.And(a >= 0, b >= 0), IPOW(a, b) >= 0), z3.Implies(z3.And(a >= 1, b >= 0), IPOW(a, b) >= 1))))
    return t

IDIV = z3.Function('IDIV', Int, Int, Int)
def idiv(I, a, b):
    a, b = num(a), num(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0: raise PyRaise('ZeroDivisionError', ())
        return a // b
    if (is_sym(a) and a.sort() == R) or (is_sym(b) and b.sort() == R) or isinstance(a, Fraction) or isinstance(b, Fraction): raise Unsupported('real floor division')
    if I.branch(zeq(b, 0)): raise PyRaise('ZeroDivisionError', ())
    za, zb = ZI(a), ZI(b)
    if asint_const(b) is None:
        q = IDIV(za, zb)
        I.definitional(lambda: I.assume(z3.Implies(zb > 0, z3.And(q * zb <= za, za < q * zb + zb))))
        if not I.check(zb > 0): raise Unsupported('floor division by possibly negative')
        return q
    if int(asint_const(b)) < 0: raise Unsupported('floor division by negative')
    return za / zb

def imod(I, a, b):
    a, b = num(a), num(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0: raise PyRaise('ZeroDivisionError', ())
        return a % b
    if I.branch(zeq(b, 0)): raise PyRaise('ZeroDivisionError', ())
    if is_conc(a) and isinstance(a, float): raise Unsupported('mod')
    za, zb = ZI(a), ZI(b)
    return za % zb

# ------------------------------------------------------------------ operators
def binop(I, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, str) and getattr(b, 'sym', None) is not None and op == 'Add':
            o = Opaque('str'); o.src = (a, b.sym); return o
        return opstr(strparts(a) + strparts(b)) if op == 'Add' else Opaque('str')
    if isinstance(a, str) or isinstance(b, str):
        if op == 'Add' and isinstance(a, str) and isinstance(b, str): return a + b
        if op == 'Mult': return a * b
        if op == 'Mod': return percent_format(a, b)
        if op == 'Add': raise PyRaise('TypeError', ('str concatenation',))
        raise Unsupported('string operator ' + op)
    if isinstance(a, ObjV) and getattr(a, 'binopf', None): return a.binopf(I, op, a, b)
    if isinstance(b, ObjV) and getattr(b, 'binopf', None): return b.binopf(I, op, a, b)
    if isinstance(a, (ListV, tuple, TupV)) or isinstance(b, (ListV, tuple, TupV)):
        if op == 'Add':
            if isinstance(a, ListV) and isinstance(b, ListV):
                r = ListV(I); r.segs = list(a.segs) + list(b.segs); return r
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, Arr) or isinstance(b, Arr): return binop(I, op, as_arr(I, a), as_arr(I, b))
            raise PyRaise('TypeError', ('sequence addition',))
        if op == 'Mult':
            if isinstance(b, (ListV, tuple)): a, b = b, a
            if isinstance(b, Arr): return binop(I, op, as_arr(I, a), b)
            c = asint_const(b)
            if isinstance(a, tuple):
                if c is None: raise Unsupported('tuple repetition')
                return a * c
            if c is not None and a.concrete():
                r = ListV(I); r.segs = list(a.segs) * max(c, 0); return r
            if a.concrete() and len(a.segs) == 1:
                e = a.segs[0][1]
                n = b if I.check(zle(0, b)) else zite(zle(0, b), b, 0)
                r = ListV(I); r.segs = [('s', n, lambda i: e)]; return r
            raise Unsupported('list repetition')
        if isinstance(a, Arr) or isinstance(b, Arr): return binop(I, op, as_arr(I, a), as_arr(I, b))
        if op == 'Sub' and isinstance(a, SetV): raise Unsupported('set difference')
        raise PyRaise('TypeError', ('operand',))
    if isinstance(a, SetV) and isinstance(b, SetV):
        ma, mb = a.mem, b.mem
        if op == 'BitOr': r_ = SetV(I, lambda r: zor(ma(r), mb(r)), a.kind or b.kind)
        elif op == 'Sub': r_ = SetV(I, lambda r: zand(ma(r), znot(mb(r))), a.kind)
        elif op == 'BitAnd': r_ = SetV(I, lambda r: zand(ma(r), mb(r)), a.kind)
        else: raise Unsupported('set operation')
        r_.elen = getattr(a, 'elen', None) if a.kind else getattr(b, 'elen', None); r_.esort = getattr(a, 'esort', None) if a.kind else getattr(b, 'esort', None); return r_
    if a is None or b is None: raise PyRaise('TypeError', ('unsupported operand',))
    if not (is_num(a) or isinstance(a, Arr)) or not (is_num(b) or isinstance(b, Arr)): raise Unsupported('operator %s on %r and %r' % (op, a, b))
    if op == 'MatMult': return np_dot(I, [a, b], {})
    conc_inf = any(isinstance(x, float) for x in (a, b))
    if conc_inf:
        if is_conc(a) and is_conc(b):
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b}[op]()
        raise Unsupported('infinity in arithmetic')
    dt = None
    if op == 'Add': f = zadd
    elif op == 'Sub': f = zsub
    elif op == 'Mult': f = zmul
    elif op == 'Div':
        if is_num(b) and is_num(a):
            if is_conc(b) and b == 0: raise PyRaise('ZeroDivisionError', ())
        f = zdiv; dt = 'real'
        if is_conc(b) and b == 0: raise Unsupported('division by zero constant')
    elif op == 'Pow': f = lambda x, y: s_pow(I, x, y)
    elif op == 'FloorDiv': f = lambda x, y: idiv(I, x, y)
    elif op == 'Mod': f = lambda x, y: imod(I, x, y)
    elif op == 'BitAnd': f = lambda x, y: zand(tobool(x), tobool(y)); dt = 'bool'
    elif op == 'BitOr': f = lambda x, y: zor(tobool(x), tobool(y)); dt = 'bool'
    else: raise Unsupported('operator ' + op)
    return emap(I, lambda x, y: f(num(x) if op[0] != 'B' else x, num(y) if op[0] != 'B' else y), a, b, dtype=dt)

def tobool(x):
    if isinstance(x, bool) or (is_sym(x) and z3.is_bool(x)): return x
    return znot(zeq(x, 0))

def unop(I, op, v):
    if isinstance(v, Opaque): return v
    if op == 'USub':
        if isinstance(v, ObjV) and getattr(v, 'binopf', None): return v.binopf(I, 'USub', v, None)
        if isinstance(v, (ListV, tuple, str)) or v is None: raise PyRaise('TypeError', ('unary minus',))
        return emap(I, zneg, v)
    if op == 'UAdd': return v
    if op == 'Invert':
        if isinstance(v, Arr): return emap(I, lambda x: znot(tobool(x)), v, dtype='bool')
        raise Unsupported('invert')
    raise Unsupported('unary ' + op)

def compare(I, op, a, b):
    if op == 'Is' or op == 'IsNot':
        r = None
        if a is None or b is None: r = a is None and b is None
        elif hasattr(a, 'is_cmp'): r = a.is_cmp(I, b)
        elif hasattr(b, 'is_cmp'): r = b.is_cmp(I, a)
        elif isinstance(a, bool) or isinstance(b, bool): r = isinstance(a, bool) and isinstance(b, bool) and a == b
        elif isinstance(a, str) and isinstance(b, str): r = a == b      # interned constants
        elif isinstance(a, (Mut, ClassV, FuncV, ModV)) or isinstance(b, (Mut, ClassV, FuncV, ModV)): r = a is b
        elif isinstance(a, BoundV) and isinstance(b, BoundV): r = False
        elif type(a) != type(b) and (isinstance(a, (str, ExtV, Native)) or isinstance(b, (str, ExtV, Native))): r = False
        elif isinstance(a, ExtV) and isinstance(b, ExtV): r = a.name == b.name
        elif isinstance(a, Native) and isinstance(b, Native): r = a is b or a.name == b.name
        else: raise Unsupported('identity of %r and %r' % (a, b))
        return znot(r) if op == 'IsNot' else r
    if op in ('In', 'NotIn'):
        r = contains(I, a, b)
        return znot(r) if op == 'NotIn' else r
    if hasattr(a, 'cmpf'): return a.cmpf(I, op, a, b)
    if hasattr(b, 'cmpf'): return b.cmpf(I, op, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('comparison of opaque values')
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (ClassV, FuncV, Native, ExtV)) or isinstance(b, (ClassV, FuncV, Native, ExtV)):
        eqv = (type(a) == type(b) and (a == b if isinstance(a, str) else (a.name == b.name if isinstance(a, (ExtV, Native)) else a is b)))
        if a is None and b is None: eqv = True
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                A = a if isinstance(a, Arr) else b
                return mk(I, A.shape, lambda *ix: op == 'NotEq', dtype='bool')
        if op == 'Eq': return eqv
        if op == 'NotEq': return not eqv
        if isinstance(a, str) and isinstance(b, str): return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        raise PyRaise('TypeError', ('comparison',))
    if isinstance(a, (ListV, tuple, TupV)) and not isinstance(b, Arr):
        if op in ('Eq', 'NotEq'):
            if not isinstance(b, (ListV, tuple, TupV)) or (isinstance(a, ListV) != isinstance(b, ListV)): r = False
            else: r = seq_eq(I, a, b)
            return znot(r) if op == 'NotEq' else r
        raise Unsupported('sequence ordering')
    if isinstance(a, ObjV) or isinstance(b, ObjV) or isinstance(a, DictV) or isinstance(b, DictV):
        dn = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        if isinstance(a, ObjV) and isinstance(a.cls, ClassV):
            m = I.class_attr(a.cls, dn)
            if m is not None: return I.call(BoundV(m, a), [b])
            if op == 'NotEq' and I.class_attr(a.cls, '__eq__') is not None: return znot(I.truth(compare(I, 'Eq', a, b)))
        if isinstance(b, ObjV) and isinstance(b.cls, ClassV) and any(I.class_attr(b.cls, q) is not None for q in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')): raise Unsupported('reflected comparison')
        if op == 'Eq' and isinstance(a, ObjV) and isinstance(b, ObjV): return a is b
        if op == 'NotEq' and isinstance(a, ObjV) and isinstance(b, ObjV): return a is not b
        if (isinstance(a, ObjV) and is_num(b)) or (isinstance(b, ObjV) and is_num(a)):
            if op == 'Eq': return False
            if op == 'NotEq': return True
        raise Unsupported('comparison of objects')
    if isinstance(a, BoundV) or isinstance(b, BoundV):
        if op == 'Eq': return False
        if op == 'NotEq': return True
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not isinstance(a, Arr) and not is_num(a): a = as_arr(I, a)
        if not isinstance(b, Arr) and not is_num(b): b = as_arr(I, b)
    f = {'Eq': lambda x, y: zeq(x, y), 'NotEq': lambda x, y: znot(zeq(x, y)), 'Lt': zlt, 'LtE': zle,
         'Gt': lambda x, y: zlt(y, x), 'GtE': lambda x, y: zle(y, x)}[op]
    return emap(I, lambda x, y: f(num(x), num(y)), a, b, dtype='bool')

def seq_eq(I, a, b):
    if (isinstance(a, tuple) or (isinstance(a, ListV) and a.concrete())) and (isinstance(b, tuple) or (isinstance(b, ListV) and b.concrete())):
        xs = list(a) if isinstance(a, tuple) else a.items(); ys = list(b) if isinstance(b, tuple) else b.items()
        if len(xs) != len(ys): return False
        return zand(*[truth(I, compare(I, 'Eq', x, y)) for x, y in zip(xs, ys)])
    if isinstance(a, (TupV, tuple)) and isinstance(b, (TupV, tuple)):
        ra, rb = tupvec(I, a), tupvec(I, b)
        n = a.n if isinstance(a, TupV) else b.n
        row_ext(I, ra, rb, n)
        return ra == rb
    raise Unsupported('sequence equality')

def row_ext(I, ra, rb, n):
    """extensionality of rows of length n, for this pair"""
    if ra.eq(rb): return
    w = I.fresh('diff', 'Int')
    I.assume(z3.Or(ra == rb, z3.And(0 <= w, w < ZI(n), el(ra, w) != el(rb, w))))

def dict_key(I, d, x):
    """the key of the dictionary that x equals (x may be an arbitrary name), else some key it does not have"""
    if hasattr(x, 'cmpf'):
        for kk in d.d:
            if I.branch(truth(I, compare(I, 'Eq', x, kk))): return kk
        return ('no such key', id(x))
    return I.hashkey(x)
def contains(I, x, s):
    if isinstance(s, SetV):
        if isinstance(x, (TupV, tuple)): return s.mem(tupvec(I, x))
        if is_num(x): return s.mem(Z(x))
        raise Unsupported('set membership')
    if isinstance(s, DictV):
        return dict_key(I, s, x) in s.d
    if isinstance(s, str):
        if isinstance(x, str): return x in s
        raise Unsupported('substring')
    if isinstance(s, ObjV):
        c = getattr(s, 'containsf', None)
        if c is not None: return c(I, x)
        raise Unsupported('membership')
    if isinstance(s, Opaque): raise Unsupported('membership in opaque')
    n, get = iterate(I, s)
    c = asint_const(n)
    if c is not None: return zor(*[truth(I, compare(I, 'Eq', x, get(i))) for i in range(c)])
    # symbolic: skolem position
    if not is_num(x): raise Unsupported('membership of a non-number in a symbolic sequence')
    return member_fn(I, s, n, get)(x)

def min_apps(t, k):
    """smallest uninterpreted applications with the variable k as an argument (usable as triggers)"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(x.arg(i).eq(k) for i in range(x.num_args())):
            if all(x.arg(i).eq(k) or not mentions(x.arg(i), k) for i in range(x.num_args())) and not mentions_arith(x): out.append(x)
            continue
        st.extend(x.children())
    return out[:3]
def mentions_arith(t):
    return z3.is_app(t) and (t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED,) or any(mentions_arith(c) for c in t.children())) and not z3.is_int_value(t)
def member_fn(I, s, n, get):
    """characteristic function of the values of a number sequence"""
    with I.gen(n) as k: t = get(k)
    if not is_num(t): raise Unsupported('membership in a sequence of non-numbers')
    t = Z(t); so = t.sort()
    for (kk, tt, nn, mem) in I.memsets:
        if same(nn, n) and z3.substitute(tt, (kk, k)).eq(t): return mem
    sn = 'Int' if so == z3.IntSort() else 'Real'
    M, at = I.fresh('mem', 'Bool', [sn]), I.fresh('at', 'Int', [sn])
    def coerce(x):
        x = Z(x)
        return z3.ToReal(x) if sn == 'Real' and x.sort() == z3.IntSort() else x
    intx = z3.Real('mx!%d' % uid()) if sn == 'Real' else z3.Int('mx!%d' % uid())
    def emit():
        w = at(intx)
        I.raw_fact([intx], z3.Implies(M(intx), z3.And(0 <= w, w < ZI(n), Z(zeq(get(w), intx)))), [M(intx)])
        I.assume_forall([n], lambda i: M(Z(get(i))))
        seg = s.segs[0] if isinstance(s, ListV) and len(s.segs) == 1 else None
        fl = getattr(seg[2], 'flat', None) if seg is not None and seg[0] == 's' else None
        if fl is not None and sn == 'Int':
            N, cnt, inner = fl
            q, j = z3.Int('mq!%d' % uid()), z3.Int('mj!%d' % uid())
            try: a, b = Z(inner(q, j)), Z(inner(q, z3.IntVal(0)))
            except (Unsupported, AttributeError, z3.Z3Exception): return
            if not mentions(a, j) and a.sort() == so: I.raw_fact([q], z3.Implies(z3.And(0 <= q, q < ZI(N), ZI(cnt(q)) >= 1), M(a)), [M(a)] if not mentions_arith(a) else None)
            if z3.is_int_value(z3.simplify(a - b - j)) and z3.simplify(a - b - j).as_long() == 0 and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED and b.num_args() and any(b.arg(i).eq(q) for i in range(b.num_args())):
                I.raw_fact([q, intx], z3.Implies(z3.And(0 <= q, q < ZI(N), b <= intx, intx < b + ZI(cnt(q))), M(intx)), [z3.MultiPattern(b, M(intx))])
    I.definitional(emit)
    mem = lambda x: (M(coerce(x)) if not (sn == 'Int' and Z(x).sort() == z3.RealSort()) else z3.And(z3.IsInt(Z(x)), M(z3.ToInt(Z(x)))))
    I.memsets.append((k, t, n, mem))
    return mem

def truth(I, v):
    if isinstance(v, bool): return v
    if is_sym(v): return v if z3.is_bool(v) else znot(zeq(v, 0))
    if v is None: return False
    if isinstance(v, (int, Fraction, float)): return v != 0
    if isinstance(v, str): return len(v) > 0
    if isinstance(v, ListV): return zlt(0, v.length()) if is_sym(v.length()) else v.length() > 0
    if isinstance(v, tuple): return len(v) > 0
    if isinstance(v, TupV): return zlt(0, v.n)
    if isinstance(v, DictV): return len(v.d) > 0
    if isinstance(v, (FuncV, ClassV, BoundV, Native, ExtV, ModV, Opaque)): return True
    if isinstance(v, ObjV):
        t = getattr(v, 'truthf', None)
        if t is not None: return t(I)
        if isinstance(v.cls, ClassV):
            b = I.class_attr(v.cls, '__bool__')
            if b is not None: return truth(I, I.call(BoundV(b, v), []))
            l = I.class_attr(v.cls, '__len__')
            if l is not None: return truth(I, I.call(BoundV(l, v), []))
        return True
    if isinstance(v, Arr):
        if all(asint_const(s) == 1 for s in v.shape): return truth(I, v.data(*[0] * v.ndim))
        sz = 1
        for s in v.shape: sz = zmul(sz, s)
        if asint_const(sz) is not None: raise PyRaise('ValueError', ('truth value of an array',))
        if I.branch(zeq(sz, 1)): return truth(I, v.data(*[0] * v.ndim))
        raise PyRaise('ValueError', ('truth value of an array',))
    if isinstance(v, SetV):
        raise Unsupported('truth of a set')
    raise Unsupported('truth of %r' % (v,))

def inplace(I, op, a, b):
    if isinstance(a, ListV) and op == 'Add':
        if isinstance(b, ListV): a.segs = list(a.segs) + list(b.segs); return a
        n, get = iterate(I, b)
        c = asint_const(n)
        a.segs = list(a.segs) + ([('e', get(i)) for i in range(c)] if c is not None and c <= 64 else [('s', n, get)])
        return a
    if isinstance(a, Arr):
        r = binop(I, op, a, b)
        if r.ndim != a.ndim: raise PyRaise('ValueError', ('non-broadcastable output',))
        for s, t in zip(r.shape, a.shape):
            if not same(s, t) and not I.branch(zeq(s, t)): raise PyRaise('ValueError', ('non-broadcastable output',))
        if a.dtype == 'int' and r.dtype == 'real': raise PyRaise('TypeError', ('UFuncTypeError cast',))
        a.set(r.data); return a
    if isinstance(a, SetV) and op == 'BitOr' and isinstance(b, SetV):
        ma, mb = a.mem, b.mem; a.mem = lambda r: zor(ma(r), mb(r)); return a
    return binop(I, op, a, b)

# ------------------------------------------------------------------ indexing
class FullSlice(object): pass

def as_index_int(v):
    if isinstance(v, bool): return None
    if isinstance(v, int): return v
    if is_sym(v) and z3.is_arith(v) and v.sort() == Int: return v
    if isinstance(v, Arr) and v.ndim == 0 and v.dtype == 'int': return v.data()
    return None

def slice_bounds(I, s, n):
    """(lo, len, step) of a slice along an axis of length n"""
    st = 1 if s.step is None else s.step
    cst = asint_const(st)
    if cst is not None and cst <= 0: raise Unsupported('negative slice step')
    if cst is None and not I.check(zlt(0, st)): raise Unsupported('slice step of unknown sign')
    def norm(v, default):
        if v is None: return default
        v = scalar_of(v)
        if as_index_int(v) is None: raise Unsupported('slice bound %r' % (v,))
        c, cn = asint_const(v), asint_const(n)
        if c is not None and cn is not None: return max(0, min(cn, c if c >= 0 else cn + c))
        if c is not None and c < 0:
            v = simp(zadd(n, c))
            return v if I.check(zle(0, v)) else zite(zle(0, v), v, 0)
        if c == 0: return 0
        if I.check(zand(zle(0, v), zle(v, n))): return v
        if not I.check(zle(0, v)): v = zite(zlt(v, 0), zite(zlt(zadd(v, n), 0), 0, zadd(v, n)), v)
        return zite(zle(v, n), v, n)
    lo, hi = norm(s.lo, 0), norm(s.hi, n)
    if cst == 1:
        ln = simp(zsub(hi, lo))
        if is_conc(ln): ln = max(int(ln), 0)
        elif not I.check(zle(0, ln)): ln = zite(zle(0, ln), ln, 0)
        return lo, ln, 1
    if cst is not None:
        t = simp(zadd(zsub(hi, lo), cst - 1))
        if is_conc(t): ln = max(int(t) // cst, 0)
        else: ln = ZI(t) / cst; ln = zite(zlt(ln, 0), 0, ln)
        return lo, ln, cst
    # symbolic step: number of elements lo + q*step < hi
    ln = I.fresh('nstep', 'Int')
    I.definitional(lambda: I.assume(z3.And(ln >= 0, z3.Implies(ZI(lo) >= ZI(hi), ln == 0), z3.Implies(ZI(lo) < ZI(hi), z3.And(ZI(lo) + (ln - 1) * ZI(st) < ZI(hi), ln >= 1)), ZI(lo) + ln * ZI(st) >= ZI(hi))))
    return lo, ln, st

def norm_int(I, i, n):
    ci = asint_const(i); cn = asint_const(n)
    if ci is not None:
        if cn is not None:
            if not -cn <= ci < cn: raise PyRaise('IndexError', ())
            return ci if ci >= 0 else cn + ci
        if ci < 0:
            if not I.branch(zle(-ci, n)): raise PyRaise('IndexError', ())
            return simp(zadd(n, ci))
        if not I.branch(zlt(ci, n)): raise PyRaise('IndexError', ())
        return ci
    if I.check(zand(zle(0, i), zlt(i, n)), 500): return i
    if I.ctx.kind != 'path': return zite(zlt(i, 0), zadd(i, n), i) if not I.check(zle(0, i)) else i
    if I.branch(zand(zle(0, i), zlt(i, n))): return i
    if I.branch(zand(zlt(i, 0), zle(zneg(n), i))): return simp(zadd(i, n))
    raise PyRaise('IndexError', ())

def int_seq(I, v):
    """(n, get) of an index sequence of ints"""
    if isinstance(v, Arr):
        if v.ndim != 1: raise Unsupported('fancy index of dimension %d' % v.ndim)
        d = v.data
        return v.shape[0], lambda i: toint(d(i))
    n, get = iterate(I, v)
    return n, get

def toint(x):
    if is_sym(x) and x.sort() == R: return z3.ToInt(x)
    return x

def expand_index(I, A, idx):
    if not isinstance(idx, tuple): idx = (idx,)
    idx = list(idx)
    if any(isinstance(x, Opaque) for x in idx): raise Unsupported('ellipsis')
    used = sum(1 for x in idx if x is not None)
    for x in idx:
        if isinstance(x, Arr) and x.dtype == 'bool' and x.ndim > 1: used += x.ndim - 1
    if used > A.ndim: raise PyRaise('IndexError', ('too many indices',))
    idx += [SliceV(None, None, None)] * (A.ndim - used)
    return idx

def is_mask(x): return isinstance(x, Arr) and x.dtype == 'bool'
def is_fancy(x): return isinstance(x, (ListV, RangeV)) or (isinstance(x, Arr) and x.ndim >= 1) or (isinstance(x, IterV))

def filter_sel(I, n, cond, name='sel'):
    """enumeration of {k < n : cond(k)} in increasing order: returns (count, sel)"""
    c = asint_const(n)
    if c is not None and all(isinstance(cond(i), bool) for i in range(c)):
        ks = [i for i in range(c) if cond(i)]
        l = ListV(I, ks)
        return len(ks), lambda i: list_get(I, l, i)
    # the increasing enumeration of a set is unique: the same set has the same one
    pk = z3.Int('filter!k'); pc = z3.simplify(Z(cond(pk)))
    key = (z3.simplify(ZI(n)).sexpr(), pc.sexpr(), tuple(x.sexpr() for x in I.idx_stack()))
    if key not in I.filters: I.filters[key] = (I.fresh('cnt', 'Int'), I.fresh(name, 'Int', ['Int']), I.fresh(name + 'inv', 'Int', ['Int']))
    cnt, sel, inv = I.filters[key]
    def emit():
        I.assume(z3.And(cnt >= 0, cnt <= ZI(n)))
        I.assume_forall([cnt], lambda i: zand(0 <= sel(i), sel(i) < ZI(n), cond(sel(i)), inv(sel(i)) == i))
        I.assume_forall([n], lambda k: zimp(cond(k), zand(0 <= inv(k), inv(k) < cnt, sel(inv(k)) == k)))
        with I.gen(cnt) as i:
            with I.gen(cnt) as j: I.assume(z3.Implies(i < j, sel(i) < sel(j)))
    I.definitional(emit)
    return cnt, lambda i: sel(i)

def getitem(I, o, idx):
    if isinstance(o, Arr): return arr_get(I, o, idx)
    if isinstance(o, Opaque): return Opaque(o.what + '[]')
    if isinstance(o, DictV):
        k = dict_key(I, o, idx)
        if k not in o.d: raise PyRaise('KeyError', (k,))
        return o.d[k]
    if isinstance(o, (ListV, tuple, TupV, RangeV)):
        if isinstance(idx, SliceV):
            n, get = iterate(I, o)
            lo, ln, st = slice_bounds(I, idx, n)
            if isinstance(o, tuple) and asint_const(lo) is not None and asint_const(ln) is not None:
                return o[int(lo):int(lo) + int(ln) * int(st):int(st)]
            if isinstance(o, TupV): return TupV(ln, lambda i: get(zadd(lo, zmul(i, st))))
            if asint_const(lo) == 0 and isinstance(o, ListV) and same(ln, n) and asint_const(st) == 1:
                r = ListV(I); r.segs = list(o.segs); return r
            if asint_const(ln) is not None and asint_const(ln) <= 64: return ListV(I, [get(simp(zadd(lo, zmul(i, st)))) for i in range(asint_const(ln))])
            r = ListV(I); r.segs = [('s', ln, lambda i: get(simp(zadd(lo, zmul(i, st)))))]; return r
        i = as_index_int(scalar_of(idx))
        if i is None:
            if isinstance(idx, (Arr, ListV, str, tuple, Fraction)) or idx is None: raise PyRaise('TypeError', ('list indices',))
            raise Unsupported('list index %r' % (idx,))
        n, get = iterate(I, o)
        return get(norm_int(I, i, n))
    if isinstance(o, str):
        if isinstance(idx, SliceV):
            g = lambda v: None if v is None else asint_const(v)
            return o[g(idx.lo):g(idx.hi):g(idx.step)]
        return o[asint_const(idx)]
    if isinstance(o, ObjV):
        g = getattr(o, 'getitemf', None)
        if g is not None: return g(I, o, idx)
        if isinstance(o.cls, ClassV):
            m = I.class_attr(o.cls, '__getitem__')
            if m is not None: return I.call(BoundV(m, o), [idx])
    if o is None: raise PyRaise('TypeError', ('None is not subscriptable',))
    if isinstance(o, tuple) and o and o[0] == 'globals': raise Unsupported('globals()')
    raise Unsupported('indexing %r' % (o,))

def arr_get(I, A, idx):
    if isinstance(idx, Arr) and idx.dtype == 'bool' and idx.ndim == A.ndim and A.ndim >= 2:
        return mask_full_get(I, A, idx)
    idx = expand_index(I, A, idx)
    # plain element
    if all(as_index_int(scalar_of(x) if isinstance(x, Arr) and x.ndim == 0 else x) is not None for x in idx):
        ii = [norm_int(I, as_index_int(x), s) for x, s in zip(idx, A.shape)]
        return A.data(*ii)
    shape = []; acc = []; ax = 0; fancy = 0; view = True; masks = []
    simple = True
    for x in idx:
        if x is None:
            shape.append(1); acc.append(('new',)); continue
        n = A.shape[ax]
        if isinstance(x, Arr) and x.ndim == 0 and x.dtype != 'bool': x = x.data()
        i = as_index_int(x)
        if i is not None:
            acc.append(('int', norm_int(I, i, n)))
        elif isinstance(x, SliceV):
            lo, ln, st = slice_bounds(I, x, n)
            shape.append(ln); acc.append(('slice', lo, st, ln))
        elif is_mask(x) and x.ndim == 1:
            if not same(x.shape[0], n) and not I.branch(zeq(x.shape[0], n)): raise PyRaise('IndexError', ('boolean index',))
            md = x.data
            cnt, sel = filter_sel(I, n, lambda k: tobool(md(k)))
            shape.append(cnt); acc.append(('fancy', sel)); fancy += 1; view = False; masks.append((md, len(shape) - 1))
        elif is_fancy(x):
            fx = as_arr(I, x) if not isinstance(x, Arr) else x
            if is_mask(fx): return arr_get(I, A, tuple(fx if y is x else y for y in idx))
            if fx.ndim == 1 and fx.dtype == 'real' and asint_const(fx.shape[0]) != 0 and not isinstance(fx.data(z3.Int('probe!')), z3.ArithRef):
                pass
            m, get = int_seq(I, fx)
            if fx.dtype == 'real' and asint_const(m) != 0: raise PyRaise('IndexError', ('arrays used as indices must be of integer type',))
            shape.append(m); acc.append(('fancy', lambda p, get=get, n=n: wrap_neg(get(p), n))); fancy += 1; view = False
            fancy_bounds(I, m, get, n)
        else: raise Unsupported('index %r' % (x,))
        ax += 1
    if fancy > 1: raise Unsupported('several fancy indices')
    def mapidx(ix):
        out = []; p = 0
        for a in acc:
            if a[0] == 'new': p += 1
            elif a[0] == 'int': out.append(a[1])
            elif a[0] == 'slice':
                out.append(simp(zadd(a[1], zmul(ix[p], a[2])))); p += 1
            else: out.append(a[1](ix[p])); p += 1
        return out
    full_rest = lambda q: all(a[0] == 'slice' and asint_const(a[1]) == 0 and asint_const(a[2]) == 1 and same(a[3], s) for a, s in list(zip([a for a in acc if a[0] != 'new'], A.shape))[q:])
    if view:
        def vf(d): return lambda *ix: d(*mapidx(ix))
        wb = make_wb(I, A, acc)
        r = Arr(I, shape, base=A, vf=vf, wb=wb, dtype=A.dtype)
    else:
        d = A.data
        r = mk(I, shape, lambda *ix: d(*mapidx(ix)), dtype=A.dtype)
        if len(masks) == 1 and A.ndim == 1:
            r.masksel = (masks[0][0], d)
    # row provenance
    na = [a for a in acc if a[0] != 'new']
    if A.ndim == 2 and full_rest(1):
        a0 = na[0]
        pos = lambda i: a0[1] if a0[0] == 'int' else simp(zadd(a0[1], zmul(i, a0[2]))) if a0[0] == 'slice' else a0[1](i)
        if len(shape) == 2 and acc[0][0] != 'new' and acc[-1][0] != 'new':
            if A.row is not None: rf = A.row; r.row = lambda i: rf(pos(i))
            else: r.via = (A, root(A)._data, lambda i: rowfn(I, A)(pos(i)))
        elif len(shape) == 1:
            if A.row is not None: r.vec = A.row(pos(0))
            else: r.via = (A, root(A)._data, lambda: rowfn(I, A)(pos(0)))
        elif len(shape) == 2 and acc[0][0] == 'new' and na[0][0] == 'int':
            if A.row is not None: v = A.row(pos(0)); r.row = lambda i: v
            else: r.via = (A, root(A)._data, lambda i: rowfn(I, A)(pos(0)))
    if A.ndim == 1 and full_rest(0):
        if len(shape) == 2 and acc[0][0] == 'new':
            if A.vec is not None: v = A.vec; r.row = lambda i: v
            else: r.via = (A, root(A)._data, lambda i: vecterm(I, A))
        elif len(shape) == 1:
            if A.vec is not None: r.vec = A.vec
            else: r.via = (A, root(A)._data, lambda: vecterm(I, A))
    return r

def wrap_neg(i, n):
    c = asint_const(i)
    if c is not None: return c if c >= 0 else simp(zadd(n, c))
    return i

def fancy_bounds(I, m, get, n):
    """indices of a fancy index must be in range"""
    c = asint_const(m)
    if c is not None and all(asint_const(get(i)) is not None for i in range(c)) and asint_const(n) is not None:
        for i in range(c):
            if not -n <= asint_const(get(i)) < n: raise PyRaise('IndexError', ())
        return
    I.side(lambda: I.prove_forall([m], lambda p: zand(zle(0, get(p)), zlt(get(p), n)), 'index-in-range'))

def make_wb(I, A, acc):
    na = [(q, a) for q, a in enumerate(acc)]
    def wb(new, old):
        def data(*ax):
            cond = True; nx = []; q = 0
            for a in acc:
                if a[0] == 'new': nx.append(0); continue
                i = ax[q]; q += 1
                if a[0] == 'int': cond = zand(cond, zeq(i, a[1]))
                else:
                    lo, st, ln = a[1], a[2], a[3]
                    if asint_const(st) == 1:
                        if not (asint_const(lo) == 0 and same(ln, A.shape[q - 1])):
                            cond = zand(cond, zle(lo, i), zlt(i, zadd(lo, ln)))
                        nx.append(simp(zsub(i, lo)))
                    else:
                        p, ok = step_pos(I, i, lo, st, ln)
                        cond = zand(cond, ok); nx.append(p)
            return zite(cond, new(*nx), old(*ax)) if cond is not True else new(*nx)
        return data
    return wb

STEPQ = z3.Function('STEPQ', Int, Int, Int, Int)
def step_pos(I, i, lo, st, ln):
    """position of i in lo, lo+st, ... (ln elements) and whether it occurs there"""
    c = [asint_const(v) for v in (i, lo, st, ln)]
    if None not in c:
        ok = c[0] >= c[1] and (c[0] - c[1]) % c[2] == 0 and (c[0] - c[1]) // c[2] < c[3]
        return (c[0] - c[1]) // c[2] if ok else 0, ok
    q = STEPQ(ZI(i), ZI(lo), ZI(st))
    d = ZI(i) - ZI(lo)
    I.definitional(lambda: I.assume(z3.Implies(ZI(st) > 0, z3.And(q * ZI(st) <= d, d < q * ZI(st) + ZI(st)))))
    return q, z3.And(q * ZI(st) == d, 0 <= q, q < ZI(ln))

def mask_full_get(I, A, m):
    if A.ndim == 2 and asint_const(A.shape[1]) == 1 and asint_const(m.shape[1]) == 1:
        if not same(m.shape[0], A.shape[0]) and not I.branch(zeq(m.shape[0], A.shape[0])): raise PyRaise('IndexError', ('boolean index',))
        md, d = m.data, A.data
        cnt, sel = filter_sel(I, A.shape[0], lambda k: tobool(md(k, 0)))
        return mk(I, (cnt,), lambda i: d(sel(i), 0), dtype=A.dtype)
    raise Unsupported('selection with a multidimensional mask')

def setitem(I, o, idx, v):
    if isinstance(o, Opaque): return
    if isinstance(o, DictV):
        kk = dict_key(I, o, idx)
        if isinstance(kk, tuple) and kk[:1] == ('no such key',):
            if I.refuted(2500): raise Infeasible()
            raise Unsupported('new dictionary entry under an arbitrary name')
        o.own()[kk] = v; return
    if isinstance(o, ListV):
        i = as_index_int(scalar_of(idx))
        if i is None: raise Unsupported('list slice assignment')
        i = norm_int(I, i, o.length())
        if o.concrete() and asint_const(i) is not None:
            s = list(o.segs); s[asint_const(i)] = ('e', v); o.segs = s; return
        n = o.length(); c = ListV(I); c.segs = list(o.segs)
        o.segs = [('s', n, lambda p: merge(I, zeq(p, i), v, list_get(I, c, p)))]
        return
    if isinstance(o, Arr): return arr_set(I, o, idx, v)
    if isinstance(o, ObjV):
        g = getattr(o, 'setitemf', None)
        if g is not None: return g(I, o, idx, v)
    if isinstance(o, tuple): raise PyRaise('TypeError', ('item assignment',))
    raise Unsupported('item assignment on %r' % (o,))

def arr_set(I, A, idx, v):
    old = A.data
    if isinstance(idx, Arr) and idx.dtype == 'bool' and idx.ndim == A.ndim:
        md = idx.data
        sc = scalar_of(v) if isinstance(v, Arr) else v
        if is_num(sc):
            A.set(lambda *ix: zite(tobool(md(*ix)), sc, old(*ix))); return
        if isinstance(v, Arr) and v.masksel is not None:
            mm, full = v.masksel
            with_ok = mm is md
            if not with_ok:
                ks = [I.fresh('mi', 'Int') for _ in A.shape]
                with I.hyp(zand(*[zand(zle(0, k), zlt(k, s)) for k, s in zip(ks, A.shape)])):
                    with_ok = I.check(zeq(tobool(mm(*ks)), tobool(md(*ks))) if True else None)
            if with_ok:
                A.set(lambda *ix: zite(tobool(md(*ix)), full(*ix), old(*ix))); return
        raise Unsupported('masked assignment of an array')
    idx = expand_index(I, A, idx)
    dims = []; acc = []; ax = 0
    for x in idx:
        if x is None: raise Unsupported('newaxis in assignment')
        n = A.shape[ax]; ax += 1
        if isinstance(x, Arr) and x.ndim == 0: x = x.data()
        i = as_index_int(x)
        if i is not None: acc.append(('int', norm_int(I, i, n)))
        elif isinstance(x, SliceV):
            lo, ln, st = slice_bounds(I, x, n)
            dims.append(ln); acc.append(('slice', lo, st, ln, n))
        elif is_mask(x):
            md = x.data; dims.append(None); acc.append(('mask', md))
        elif is_fancy(x):
            m, get = int_seq(I, x if isinstance(x, Arr) else as_arr(I, x))
            fancy_bounds(I, m, get, n)
            inv = inverse_index(I, m, get, n)
            dims.append(m); acc.append(('fancy', inv, m))
        else: raise Unsupported('index %r' % (x,))
    sc = scalar_of(v) if isinstance(v, Arr) and v.ndim == 0 else v
    if is_num(sc): src = lambda *nx: sc
    else:
        V = as_arr(I, v)
        if any(d is None for d in dims):
            s1 = scalar_of(V)
            if is_num(s1): src = lambda *nx: s1
            else: raise Unsupported('masked assignment')
        else:
            shp = V.shape
            # leading unit dimensions of the value are dropped
            while len(shp) > len(dims):
                if asint_const(shp[0]) == 1:
                    dV = V.data; V = mk(I, shp[1:], lambda *ix, dV=dV: dV(0, *ix), dtype=V.dtype); shp = V.shape
                else: raise PyRaise('ValueError', ('could not broadcast',))
            for s, t in zip(shp, dims[len(dims) - len(shp):]):
                if asint_const(s) == 1: continue
                if not same(s, t) and not I.branch(zeq(s, t)):
                    if is_sym(s) and I.branch(zeq(s, 1)): continue
                    raise PyRaise('ValueError', ('could not broadcast',))
            src = bc_access(V, tuple(dims))
    isint = A.dtype == 'int'
    def data(*axs):
        cond = True; nx = []
        for i, a in zip(axs, acc):
            if a[0] == 'int': cond = zand(cond, zeq(i, a[1]))
            elif a[0] == 'slice':
                lo, st, ln, n = a[1:]
                if asint_const(st) == 1:
                    if not (asint_const(lo) == 0 and same(ln, n)): cond = zand(cond, zle(lo, i), zlt(i, zadd(lo, ln)))
                    nx.append(simp(zsub(i, lo)))
                else:
                    p, ok = step_pos(I, i, lo, st, ln); cond = zand(cond, ok); nx.append(p)
            elif a[0] == 'mask': cond = zand(cond, tobool(a[1](i))); nx.append(i)
            else:
                p, ok = a[1](i); cond = zand(cond, ok); nx.append(p)
        if cond is False: return old(*axs)
        if cond is True: return src(*nx)
        return zite(cond, src(*nx), old(*axs))
    if A.dtype == 'int' and not is_num(sc) and isinstance(v, Arr) and v.dtype == 'real': raise Unsupported('real into an integer array')
    A.set(data)

def inverse_index(I, m, get, n):
    """i -> (position p with get(p) == i, occurs?) ; positions must be distinct"""
    c = asint_const(m)
    if c is not None and c <= 16 and all(asint_const(get(p)) is not None for p in range(c)):
        vals = [asint_const(get(p)) for p in range(c)]
        def inv(i):
            ci = asint_const(i)
            if ci is not None: return (max([p for p in range(c) if vals[p] == ci]), True) if ci in vals else (0, False)
            pos = 0
            for p in range(c): pos = zite(zeq(i, vals[p]), p, pos)
            return pos, zor(*[zeq(i, v) for v in vals])
        return inv
    f = I.fresh('inv', 'Int', ['Int']); isin = I.fresh('isin', 'Bool', ['Int'])
    def emit():
        I.assume_forall([m], lambda p: zand(isin(get(p)), f(get(p)) == p))
        I.assume_forall([n], lambda i: zimp(isin(i), zand(0 <= f(i), f(i) < ZI(m), zeq(get(f(i)), i))))
    # distinctness is required for "the" position to be well defined
    with I.gen(m) as p:
        with I.gen(m) as q:
            ok = I.check(zimp(zeq(get(p), get(q)), zeq(p, q)), 4000)
    if not ok: raise Unsupported('assignment to possibly repeated positions')
    I.definitional(emit)
    return lambda i: (f(i), isin(i))

# ------------------------------------------------------------------ sums (linearity of finite sums is a rule of the engine)
def flat_add(t, sign, out):
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        for c in t.children(): flat_add(c, sign, out)
    elif k == z3.Z3_OP_SUB:
        cs = t.children(); flat_add(cs[0], sign, out)
        for c in cs[1:]: flat_add(c, -sign, out)
    elif k == z3.Z3_OP_UMINUS: flat_add(t.children()[0], -sign, out)
    else: out.append((sign, t))

def poly(t, k, depth=0):
    """list of (k-free coefficient term, [k-dependent atoms])"""
    if not mentions(t, k): return [(t, [])]
    kind = t.decl().kind()
    if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        out = []; terms = []
        flat_add(t, 1, terms)
        for s, x in terms:
            for c, a in poly(x, k, depth + 1): out.append((c if s > 0 else -c, a))
        return out
    if kind == z3.Z3_OP_MUL:
        out = [(z3.RealVal(1), [])]
        for c in t.children():
            p = poly(c, k, depth + 1)
            out = [(a * ZR(b), x + y) for a, x in out for b, y in p]
            if len(out) > 60: raise Unsupported('sum too large')
        return out
    if kind == z3.Z3_OP_DIV:
        n, d = t.children()
        if not mentions(d, k): return [(ZR(c) / ZR(d), a) for c, a in poly(n, k, depth + 1)]
        return [(z3.RealVal(1), [t])]
    if kind == z3.Z3_OP_TO_REAL:
        return [(ZR(c), a) for c, a in poly(t.children()[0], k, depth + 1)]
    return [(z3.RealVal(1), [t])]

def ite_eq(t, k):
    """t == ite(k == c, a, 0) with c free of k: (c, a)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: t0 = t.children()[0]
    else: t0 = t
    if z3.is_app(t0) and t0.decl().kind() == z3.Z3_OP_ITE:
        g, a, b = t0.children()
        if z3.is_eq(g):
            l, r = g.children()
            if r.eq(k): l, r = r, l
            if l.eq(k) and not mentions(r, k):
                if (z3.is_int_value(b) or z3.is_rational_value(b)) and z3.is_true(z3.simplify(b == 0)): return r, a
    return None

def ssum(I, n, g, hints=()):
    """sum of g(k) for k < n"""
    c = asint_const(n)
    if c is not None and c <= 64:
        s = 0
        for i in range(c): s = zadd(s, g(i))
        return s
    with I.gen(n) as k:
        t = g(k)
        if not is_sym(t): return zmul(n, t)
        t = num(t)
        isint = t.sort() == Int
        total = z3.RealVal(0)
        for coef, atoms in poly(t, k):
            if not atoms:
                total = total + ZR(coef) * ZR(n); continue
            col = None
            for q, a in enumerate(atoms):
                col = ite_eq(a, k)
                if col is not None: break
            if col is not None:
                rest = [x for p, x in enumerate(atoms) if p != q]
                v = ZR(col[1])
                for x in rest: v = v * ZR(x)
                v = z3.substitute(v, (k, col[0]))
                total = total + ZR(coef) * z3.If(z3.And(0 <= col[0], col[0] < ZI(n)), v, z3.RealVal(0))
                continue
            total = total + ZR(coef) * sum_symbol(I, n, atoms, k)
    r = z3.simplify(total) if False else total
    if isint: return z3.ToInt(r)
    r = simp(r) if is_sym(r) else r
    if is_sym(r) and is_square(t): I.definitional(lambda: I.assume(ZR(r) >= 0))       # a sum of squares
    return r

def is_square(t):
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return is_square(t.arg(0))
    if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2: return t.arg(0).eq(t.arg(1))
    return z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_int_value(simp(t.arg(1))) and simp(t.arg(1)).as_long() % 2 == 0

def canon_atom(t, k, args, K):
    """t with k replaced by K and maximal k-free subterms replaced by numbered holes"""
    if t.eq(k): return K
    if not mentions(t, k):
        if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t): return t
        for h, a in args:
            if a.eq(t): return h
        h = z3.Const('hole!%d!%s' % (len(args), t.sort()), t.sort()); args.append((h, t))
        return h
    ch = [canon_atom(c, k, args, K) for c in t.children()]
    return t.decl()(*ch) if t.num_args() else t

def sum_symbol(I, n, atoms, k):
    K = z3.Int('K!')
    best = None
    atoms = sorted(atoms, key=lambda a: z3.simplify(z3.substitute(a, (k, K))).sexpr())
    args = []
    body = z3.RealVal(1)
    cs = [canon_atom(a, k, args, K) for a in atoms]
    for c in cs: body = body * ZR(c)
    key = (z3.simplify(body).sexpr(), tuple(str(h.sort()) for h, _ in args))
    tab = I.sumtab
    if key not in tab:
        f = z3.Function('SUM!%d' % len(tab), *([Int] + [h.sort() for h, _ in args] + [R]))
        tab[key] = (f, K, [h for h, _ in args], body)
    f = tab[key][0]
    t = f(*([ZI(n)] + [a for _, a in args]))
    def emit():
        I.assume(z3.Implies(ZI(n) <= 0, t == 0))
        sq = len(cs) % 2 == 0 and all(cs[i].eq(cs[i + 1]) for i in range(0, len(cs), 2))
        if sq: I.assume(t >= 0)
    I.definitional(emit)
    I.sumterms.append((t, key, ZI(n), [a for _, a in args]))
    return t

# ------------------------------------------------------------------ extrema
def extremum(I, n, get, sign, what='min'):
    """minimum (sign=1) / maximum (sign=-1) value and first position over k < n (n >= 1)"""
    c = asint_const(n)
    le = (lambda a, b: zle(a, b)) if sign == 1 else (lambda a, b: zle(b, a))
    lt = (lambda a, b: zlt(a, b)) if sign == 1 else (lambda a, b: zlt(b, a))
    if c is not None and c <= 16:
        if c == 0: raise PyRaise('ValueError', ('empty',))
        v, p = get(0), 0
        for i in range(1, c):
            x = get(i); b = lt(x, v)
            p = zite(b, i, p); v = zite(b, x, v) if not (is_conc(x) and is_conc(v)) else (x if b else v)
        return v, p
    if not I.check(zlt(0, n)):
        if I.branch(zle(n, 0)): raise PyRaise('ValueError', ('empty sequence',))
    a = I.fresh('arg' + what, 'Int')
    v = get(a)
    def emit():
        I.assume(z3.And(0 <= a, a < ZI(n)))
        I.assume_forall([n], lambda j: zand(le(v, get(j)), zimp(zlt(j, a), lt(v, get(j)))))
    I.definitional(emit)
    return v, a

def flat_view(I, A):
    """1-d enumeration (C order) of an array for full reductions: (n, get)"""
    if A.ndim == 0: x = A.data(); return 1, lambda i: x
    if A.ndim == 1: return A.shape[0], A.data
    big = [q for q, s in enumerate(A.shape) if asint_const(s) != 1]
    d = A.data
    if len(big) <= 1:
        q = big[0] if big else 0
        def get(i): 
            ix = [0] * A.ndim; ix[q] = i; return d(*ix)
        return A.shape[q] if big else 1, get
    cs = [asint_const(s) for s in A.shape]
    if all(c is not None for c in cs):
        tot = 1
        for c in cs: tot *= c
        def get(i):
            ci = asint_const(i)
            if ci is None: raise Unsupported('symbolic position in a flattened array')
            ix = []
            for c in reversed(cs): ix.append(ci % c); ci //= c
            return d(*reversed(ix))
        return tot, get
    return None

def reduce_axis(I, A, axis, f):
    """f(n, get) over the axis"""
    ax = axis if axis >= 0 else A.ndim + axis
    d = A.data; n = A.shape[ax]
    sh = A.shape[:ax] + A.shape[ax + 1:]
    def data(*ix):
        ix = list(ix)
        return f(n, lambda k: d(*(ix[:ax] + [k] + ix[ax:])))
    if not sh: return data()
    return mk(I, sh, data, dtype=A.dtype if A.dtype != 'bool' else 'int')

def kw_axis(a, k, pos=1):
    ax = k.get('axis', a[pos] if len(a) > pos else None)
    if ax is not None and not isinstance(ax, int): raise Unsupported('axis')
    return ax

def np_sum(I, a, k):
    A = a[0]
    if not isinstance(A, Arr): A = as_arr(I, A)
    ax = kw_axis(a, k)
    if ax is None:
        fl = flat_view(I, A)
        if fl is None:
            if A.ndim == 2:
                d = A.data
                return ssum(I, A.shape[0], lambda i: ssum(I, A.shape[1], lambda j: num(d(i, j))))
            raise Unsupported('sum of a multidimensional array')
        return ssum(I, fl[0], lambda i: num(fl[1](i)))
    return reduce_axis(I, A, ax, lambda n, g: ssum(I, n, lambda i: num(g(i))))

def np_minmax(sign, what):
    def f(I, a, k):
        A = as_arr(I, a[0]); ax = kw_axis(a, k)
        if ax is None or A.ndim == 1:
            fl = flat_view(I, A)
            if fl is None:
                # full extremum of a matrix: witness position
                n, m = A.shape; d = A.data
                if A.ndim != 2: raise Unsupported('extremum')
                if not I.check(zand(zlt(0, n), zlt(0, m))):
                    if I.branch(zor(zle(n, 0), zle(m, 0))): raise PyRaise('ValueError', ())
                p, q = I.fresh('p', 'Int'), I.fresh('q', 'Int'); v = d(p, q)
                I.assume(zand(zle(0, p), zlt(p, n), zle(0, q), zlt(q, m)))
                I.assume_forall([n, m], lambda i, j: zle(v, d(i, j)) if sign == 1 else zle(d(i, j), v))
                return v
            return extremum(I, fl[0], fl[1], sign, what)[0]
        return eager_axis(I, A, ax, lambda n, g: extremum(I, n, g, sign, what)[0])
    return f

def eager_axis(I, A, ax, f):
    """reduction along an axis whose per-position result introduces fresh symbols: built once, at a generic position"""
    ax = ax if ax >= 0 else A.ndim + ax
    d = A.data; n = A.shape[ax]; sh = A.shape[:ax] + A.shape[ax + 1:]
    import contextlib
    with contextlib.ExitStack() as st:
        ks = [st.enter_context(I.gen(s)) for s in sh]
        v = f(n, lambda q: d(*(ks[:ax] + [q] + ks[ax:])))
    return mk(I, sh, lambda *ix: subst(I, v, list(zip(ks, ix))), dtype='real')

def np_argminmax(sign):
    def f(I, a, k):
        A = as_arr(I, a[0]); ax = kw_axis(a, k)
        if ax is None or A.ndim == 1:
            fl = flat_view(I, A)
            if fl is None: raise Unsupported('argmin of a matrix')
            return extremum(I, fl[0], fl[1], sign, 'min' if sign == 1 else 'max')[1]
        r = eager_axis(I, A, ax, lambda n, g: extremum(I, n, g, sign)[1]); r.dtype = 'int'
        return r
    return f

def np_mean(I, a, k):
    A = as_arr(I, a[0]); ax = kw_axis(a, k)
    if ax is None:
        n = 1
        for s in A.shape: n = zmul(n, s)
        return zdiv(np_sum(I, [A], {}), n)
    n = A.shape[ax]
    return emap(I, lambda x: zdiv(x, n), np_sum(I, [A], {'axis': ax}))

def np_var(I, a, k):
    A = as_arr(I, a[0])
    if kw_axis(a, k) is not None: raise Unsupported('var along an axis')
    dd = k.get('ddof', 0)
    m = np_mean(I, [A], {})
    D = emap(I, lambda x: zmul(zsub(x, m), zsub(x, m)), A)
    n = 1
    for s in A.shape: n = zmul(n, s)
    v = zdiv(np_sum(I, [D], {}), zsub(n, dd))
    if is_sym(v): I.assume(zimp(zlt(dd, n), ZR(v) >= 0))
    return v

def np_std(I, a, k): return s_sqrt(I, np_var(I, a, k))
def np_ptp(I, a, k): return zsub(np_minmax(-1, 'max')(I, a, k), np_minmax(1, 'min')(I, a, k))

# ------------------------------------------------------------------ constructors
def shape_arg(I, v):
    if is_num(v): return (v,)
    n, get = iterate(I, v)
    return tuple(get(i) for i in range(asint_const(n)))

def np_full(val):
    def f(I, a, k):
        sh = shape_arg(I, k.get('shape', a[0] if a else None))
        for s in sh:
            if as_index_int(s) is None: raise PyRaise('TypeError', ('shape',))
            if is_sym(s) and not I.check(zle(0, s)):
                if I.branch(zlt(s, 0)): raise PyRaise('ValueError', ('negative dimensions',))
        dt = k.get('dtype', a[1] if len(a) > 1 else None)
        isint = isinstance(dt, Native) and dt.name == 'int'
        v = val if isint else Fraction(val)
        return mk(I, sh, lambda *ix: v, dtype='int' if isint else 'real')
    return f

def np_empty(I, a, k):
    sh = shape_arg(I, k.get('shape', a[0] if a else None))
    g = I.fresh('empty', 'Real', ['Int'] * len(sh)) if sh else I.fresh('empty')
    for s in sh:
        if is_sym(s) and not I.check(zle(0, s)):
            if I.branch(zlt(s, 0)): raise PyRaise('ValueError', ('negative dimensions',))
    return mk(I, sh, (lambda *ix: g(*ix)) if sh else (lambda: g))

def np_zeros_like(val):
    def f(I, a, k):
        A = as_arr(I, a[0]); return mk(I, A.shape, lambda *ix: Fraction(val))
    return f

def np_eye(I, a, k):
    n = a[0]
    return mk(I, (n, n), lambda i, j: zite(zeq(i, j), Fraction(1), Fraction(0)) if not isinstance(zeq(i, j), bool) else Fraction(1 if zeq(i, j) else 0))

def np_array(copy):
    def f(I, a, k):
        v = a[0]; dt = k.get('dtype', a[1] if len(a) > 1 else None)
        want = None
        if dt is not None:
            nm = dt.name if isinstance(dt, (Native, ExtV)) else str(dt)
            want = 'int' if 'int' in nm else 'bool' if 'bool' in nm else 'real' if 'float' in nm else None
            if want is None: raise Unsupported('dtype ' + nm)
        if isinstance(v, Opaque): raise Unsupported('array of opaque')
        if isinstance(v, Arr):
            if not copy and (want is None or want == v.dtype): return v
            r = copy_arr(I, v)
        else:
            if isinstance(v, (SetV, DictV)): raise Unsupported('array of a set')
            r = as_arr(I, v)
        if want and want != r.dtype: r = astype(I, r, want)
        return r
    return f

def astype(I, A, want):
    d = A.data
    if want == 'real': return mk(I, A.shape, lambda *ix: toreal(d(*ix)), dtype='real')
    if want == 'int': return mk(I, A.shape, lambda *ix: trunc(I, d(*ix)), dtype='int')
    if want == 'bool': return mk(I, A.shape, lambda *ix: tobool(d(*ix)), dtype='bool')

def toreal(x):
    x = num(x)
    if isinstance(x, int): return Fraction(x)
    if is_sym(x) and x.sort() == Int: return z3.ToReal(x)
    return x

def trunc(I, x):
    x = num(x)
    if isinstance(x, int): return x
    if isinstance(x, Fraction): return int(x)
    if isinstance(x, float): raise PyRaise('OverflowError', ())
    if x.sort() == Int: return x
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x.children()[0]
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

def np_arange(I, a, k):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    n, get = iterate(I, RangeV(lo, hi))
    return mk(I, (n,), get, dtype='int')

def np_linspace(I, a, k):
    lo, hi = a[0], a[1]; n = a[2] if len(a) > 2 else k.get('num', 50)
    lo, hi = scalar_of(lo), scalar_of(hi)
    def data(i):
        if is_conc(n): return zadd(lo, zmul(zdiv(zsub(hi, lo), max(int(n) - 1, 1)), i)) if n > 1 else lo
        return zite(zle(n, 1), toreal(lo), zadd(lo, zmul(zdiv(zsub(hi, lo), zsub(n, 1)), i)))
    return mk(I, (n,), data)

def vstack_parts(I, v):
    """parts of a vstack / concatenate argument: list of Arr, or (n, get) symbolic"""
    if isinstance(v, (tuple,)): return list(v)
    if isinstance(v, ListV) and v.concrete(): return v.items()
    return None

def hetero(As):
    return As[0].dtype if all(A.dtype == As[0].dtype for A in As) else 'real'

def concat(I, As, axis=0):
    nd = As[0].ndim
    for A in As:
        if A.ndim != nd: raise PyRaise('ValueError', ('dimensions do not match',))
    if nd == 0: raise PyRaise('ValueError', ('zero-dimensional',))
    if axis < 0: axis += nd
    for q in range(nd):
        if q == axis: continue
        for A in As[1:]:
            if not same(A.shape[q], As[0].shape[q]) and not I.branch(zeq(A.shape[q], As[0].shape[q])): raise PyRaise('ValueError', ('dimensions do not match',))
    ds = [A.data for A in As]; offs = [0]
    for A in As: offs.append(simp(zadd(offs[-1], A.shape[axis])))
    def pick(i, fs):
        ci = asint_const(i)
        if ci is not None:
            for q in range(len(As)):
                o = asint_const(offs[q + 1])
                if o is None: break
                if ci < o: return fs[q](simp(zsub(i, offs[q])))
        v = fs[-1](simp(zsub(i, offs[-2])))
        for q in range(len(As) - 2, -1, -1):
            c = zlt(i, offs[q + 1])
            v = zite(c, fs[q](simp(zsub(i, offs[q]))), v) if not isinstance(c, bool) else (fs[q](simp(zsub(i, offs[q]))) if c else v)
        return v
    def data(*ix):
        ix = list(ix)
        return pick(ix[axis], [lambda p, q=q: ds[q](*(ix[:axis] + [p] + ix[axis + 1:])) for q in range(len(As))])
    sh = list(As[0].shape); sh[axis] = offs[-1]
    row = None
    if nd == 2 and axis == 0:
        rfs = []
        for A in As:
            if A.row is not None: rfs.append(A.row)
            else: rfs = None; break
        if rfs: row = lambda i: pick(i, rfs)
    r = mk(I, sh, data, row=row, dtype=hetero(As))
    if axis == 0: r.parts = list(As)
    return r

def np_vstack(I, a, k):
    parts = vstack_parts(I, a[0])
    if parts is None:
        if isinstance(a[0], Arr) and a[0].ndim == 2: return copy_arr(I, a[0])
        return sym_vstack(I, a[0])
    if not parts: raise PyRaise('ValueError', ('need at least one array to concatenate',))
    As = [atleast_2d(I, p) for p in parts]
    # an empty accumulator with the right number of columns is dropped
    keep = [A for A in As if asint_const(A.shape[0]) != 0] or As[:1]
    if len(keep) != len(As):
        for A in As:
            if not same(A.shape[1], keep[0].shape[1]) and not I.branch(zeq(A.shape[1], keep[0].shape[1])): raise PyRaise('ValueError', ('dimensions do not match',))
        if len(keep) == 1: 
            r = copy_arr(I, keep[0]); r.parts = [keep[0]]; r.dtype = hetero(As); return r
    return concat(I, keep if len(keep) > 1 else As, 0)

def sym_vstack(I, v):
    """vstack of a symbolic list of rows (or of arrays with symbolic numbers of rows)"""
    if isinstance(v, ListV) and len(v.segs) > 1:
        pieces = []
        for s in v.segs:
            if s[0] == 'e': pieces.append(atleast_2d(I, s[1]))
            else:
                c = ListV(I); c.segs = [s]
                if not I.check(zlt(0, s[1])) and I.branch(zeq(s[1], 0)): continue
                pieces.append(sym_vstack(I, c))
        if not pieces: raise PyRaise('ValueError', ('need at least one array to concatenate',))
        return concat(I, pieces, 0) if len(pieces) > 1 else pieces[0]
    n, get = iterate(I, v)
    if asint_const(n) is not None and asint_const(n) <= 64:
        if asint_const(n) == 0: raise PyRaise('ValueError', ('need at least one array to concatenate',))
        return concat(I, [atleast_2d(I, get(i)) for i in range(asint_const(n))], 0)
    if not I.check(zlt(0, n)):
        if I.branch(zeq(n, 0)): raise PyRaise('ValueError', ('need at least one array to concatenate',))
    with I.gen(n) as k:
        e = atleast_2d(I, get(k))
        h, w = e.shape
        if is_sym(w) and mentions(w, k):
            w0 = subst(I, w, [(k, z3.IntVal(0))])
            if not I.check(zeq(w, w0)): raise Unsupported('vstack of rows of different lengths')
            w = w0
        hasrow = e.row is not None
        if asint_const(h) != 1: hs = h
    if asint_const(h) == 1:
        r = mk(I, (n, w), lambda i, j: atleast_2d(I, get(i)).data(0, j), row=(lambda i: atleast_2d(I, get(i)).row(0)) if hasrow else None, dtype=e.dtype)
        if not hasrow: r.viaget = True
        return r
    P, own = prefix(I, n, lambda i: subst(I, h, [(k, Z(i))]))
    tot = P(n)
    r = mk(I, (tot, w), lambda i, j: atleast_2d(I, get(own(i))).data(simp(zsub(i, P(own(i)))), j), dtype=e.dtype,
           row=(lambda i: atleast_2d(I, get(own(i))).row(simp(zsub(i, P(own(i)))))) if hasrow else None)
    return r

def prefix(I, n, c):
    """prefix sums P of the non-negative integers c(k), k < n, and the owner function of positions.
    (P is monotone: a lemma by induction on the definition.)"""
    with I.gen(n) as k: t = c(k)
    t = Z(t)
    for (kk, tt, nn, P, own) in I.prefixes:
        if z3.substitute(tt, (kk, k)).eq(t) and same(nn, n) : return P, own
    for (kk, tt, nn, P, own) in I.prefixes:
        if same(nn, n):
            with I.gen(n) as q:
                if I.check(z3.substitute(tt, (kk, q)) == z3.substitute(t, (k, q)), 500): return P, own
    Pf = I.fresh('P', 'Int', ['Int']); w = I.fresh('own', 'Int', ['Int'])
    P = lambda i: Pf(i); own = lambda i: w(i)
    def emit():
        I.assume(Pf(0) == 0)
        I.assume_forall([n], lambda i: z3.And(Pf(i + 1) == Pf(i) + ZI(c(i)), Pf(i) >= 0, ))
        i, j = z3.Int('pi!'), z3.Int('pj!')
        I.raw_fact([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= ZI(n)), Pf(i) <= Pf(j)), [z3.MultiPattern(Pf(i), Pf(j))])
        tot = Pf(ZI(n))
        inv = lambda p: z3.And(0 <= w(p), w(p) < ZI(n), Pf(w(p)) <= p, p < Pf(w(p) + 1), Pf(w(p) + 1) == Pf(w(p)) + ZI(c(w(p))))
        I.assume_forall([tot], inv)
        I.assume(z3.Implies(tot >= 1, inv(tot - 1)))
        I.raw_fact([i, j], z3.Implies(z3.And(0 <= i, i < ZI(n), Pf(i) <= j, j < Pf(i + 1)), w(j) == i), [z3.MultiPattern(Pf(i), w(j))])
        ps = min_apps(t, k)
        if ps: I.raw_fact([k], z3.Implies(z3.And(0 <= k, k < ZI(n), t >= 1), z3.And(w(Pf(k)) == k, Pf(k) >= 0, Pf(k) < tot)), ps)
    I.definitional(emit)
    I.prefixes.append((k, t, n, P, own))
    return P, own

def np_concatenate(I, a, k):
    ax = kw_axis(a, k)
    parts = vstack_parts(I, a[0])
    if parts is not None:
        if not parts: raise PyRaise('ValueError', ('need at least one array to concatenate',))
        As = [as_arr(I, p) for p in parts]
        return concat(I, As, 0 if ax is None else ax)
    if ax not in (None, 0): raise Unsupported('concatenate along an axis of a symbolic list')
    n, get = iterate(I, a[0])
    with I.gen(n) as q: e = as_arr(I, get(q))
    if e.ndim == 2: return sym_vstack(I, a[0])
    if e.ndim != 1: raise Unsupported('concatenate')
    l = flatten_list(I, n, lambda i: as_arr(I, get(i)))
    return as_arr(I, l)

def flatten_list(I, n, get):
    """list of all elements of the sequences get(k), k < n"""
    with I.gen(n) as q:
        e = get(q); h, g0 = iterate(I, e)
    if is_conc(h) and h == 1:
        l = ListV(I); l.segs = [('s', n, lambda i: iterate(I, get(i))[1](0))]; return l
    P, own = prefix(I, n, lambda i: subst(I, h, [(q, Z(i))]) if is_sym(h) else h)
    l = ListV(I); l.segs = [('s', P(n), lambda i: iterate(I, get(own(i)))[1](simp(zsub(i, P(own(i))))))]
    return l

def flatten_any(I, v):
    n, get = iterate(I, v); c = asint_const(n)
    if c is None: return flatten_list(I, n, get)
    out = ListV(I)
    for i in range(c):
        e = get(i)
        if isinstance(e, ListV): out.segs = out.segs + list(e.segs)
        else: m, g = iterate(I, e); out.segs = out.segs + ([('e', g(j)) for j in range(asint_const(m))] if asint_const(m) is not None else [('s', m, g)])
    return out

def np_hstack(I, a, k):
    parts = vstack_parts(I, a[0])
    if parts is None:
        n, get = iterate(I, a[0])
        with I.gen(n) as q: e = as_arr(I, get(q))
        if e.ndim == 1: return as_arr(I, flatten_list(I, n, lambda i: as_arr(I, get(i))))
        raise Unsupported('hstack of a symbolic list')
    As = [as_arr(I, p) for p in parts]
    As = [A if A.ndim else mk(I, (1,), lambda i, x=A.data(): x, dtype=A.dtype) for A in As]
    return concat(I, As, 0 if As[0].ndim == 1 else 1)

def np_dot(I, a, k):
    A, C = as_arr(I, a[0]), as_arr(I, a[1])
    da, dc = A.data, C.data
    def unify(s, t):
        if not same(s, t) and not I.branch(zeq(s, t)): raise PyRaise('ValueError', ('shapes not aligned',))
    if A.ndim == 2 and C.ndim == 2:
        unify(A.shape[1], C.shape[0])
        n = A.shape[1] if asint_const(A.shape[1]) is not None else C.shape[0]
        return mk(I, (A.shape[0], C.shape[1]), lambda i, j: ssum(I, n, lambda q: zmul(da(i, q), dc(q, j))))
    if A.ndim == 1 and C.ndim == 1:
        unify(A.shape[0], C.shape[0])
        return ssum(I, A.shape[0], lambda q: zmul(da(q), dc(q)))
    if A.ndim == 2 and C.ndim == 1:
        unify(A.shape[1], C.shape[0])
        return mk(I, (A.shape[0],), lambda i: ssum(I, A.shape[1], lambda q: zmul(da(i, q), dc(q))))
    raise Unsupported('dot')

def np_diag(I, a, k):
    A = as_arr(I, a[0]); d = A.data
    if A.ndim == 1:
        n = A.shape[0]
        return mk(I, (n, n), lambda i, j: zite(zeq(i, j), d(j), Fraction(0)) if not isinstance(zeq(i, j), bool) else (d(j) if zeq(i, j) else Fraction(0)))
    return mk(I, (A.shape[0],), lambda i: d(i, i))

def np_where(I, a, k):
    if len(a) == 1:
        A = as_arr(I, a[0])
        if A.ndim == 2 and asint_const(A.shape[1]) == 1: A = getitem(I, A, (SliceV(None, None, None), 0)); two = True
        else: two = False
        if A.ndim != 1: raise Unsupported('where with one argument')
        pos = getitem(I, np_arange(I, [A.shape[0]], {}), emap(I, tobool, A, dtype='bool'))
        return (pos, emap(I, lambda x: 0, pos, dtype='int')) if two else (pos,)
    if len(a) != 3: raise Unsupported('where with two arguments')
    c = a[0] if isinstance(a[0], Arr) or is_boolv(a[0]) else as_arr(I, a[0])
    return emap(I, lambda c, x, y: zite(tobool(c), num(x), num(y)), c, a[1], a[2])

def np_clip(I, a, k):
    A = a[0]; lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min')); hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max'))
    def f(x):
        x = num(x)
        if lo is not None: x = s_max(x, scalar_of(lo))
        if hi is not None: x = s_min(x, scalar_of(hi))
        return x
    if isinstance(lo, Arr) and lo.ndim or isinstance(hi, Arr) and hi.ndim: 
        return emap(I, lambda x, l, h: s_min(s_max(x, l), h), A, lo, hi)
    if not isinstance(A, Arr) and not is_num(A): A = as_arr(I, A)
    return emap(I, f, A)

def np_norm(I, a, k):
    A = as_arr(I, a[0]); ax = kw_axis(a, k, 2)
    if len(a) > 1 and a[1] is not None or k.get('ord') is not None: raise Unsupported('norm order')
    S = np_sum(I, [emap(I, lambda x: zmul(x, x), A)], {} if ax is None else {'axis': ax})
    def root_of(x):
        if is_sym(x): I.definitional(lambda: I.assume(ZR(x) >= 0))      # a sum of squares
        return s_sqrt(I, x)
    return emap(I, root_of, S)

def np_argsort(I, a, k):
    A = as_arr(I, a[0])
    if A.ndim != 1: raise Unsupported('argsort')
    n = A.shape[0]; d = A.data
    perm = I.fresh('perm', 'Int', ['Int']); pinv = I.fresh('pinv', 'Int', ['Int'])
    def emit():
        I.assume_forall([n], lambda i: z3.And(0 <= perm(i), perm(i) < ZI(n), pinv(perm(i)) == i))
        I.assume_forall([n], lambda i: z3.And(0 <= pinv(i), pinv(i) < ZI(n), perm(pinv(i)) == i))
        with I.gen(n) as i:
            with I.gen(n) as j: I.assume(zimp(i < j, zle(d(perm(i)), d(perm(j)))))
        q = z3.Int('as!%d' % uid()); ps = min_apps(Z(d(q)), q)
        if ps: I.raw_fact([q], z3.Implies(z3.And(0 <= q, q < ZI(n)), z3.And(0 <= pinv(q), pinv(q) < ZI(n), perm(pinv(q)) == q)), ps)
    I.definitional(emit)
    return mk(I, (n,), lambda i: perm(i), dtype='int')

def np_allany(isall):
    def f(I, a, k):
        v = a[0]
        if is_boolv(v): return v
        if kw_axis(a, k) is not None: raise Unsupported('all/any along an axis')
        A = v if isinstance(v, Arr) else as_arr(I, v)
        if A.ndim == 2 and flat_view(I, A) is None:
            n, m = A.shape; d = A.data
            return quant_bool(I, [n, m], lambda i, j: tobool(d(i, j)), isall)
        n, get = flat_view(I, A)
        return quant_bool(I, [n], lambda i: tobool(get(i)), isall)
    return f

def quant_bool(I, ns, p, isall):
    c = asint_const(ns[0]) if len(ns) == 1 else None
    if c is not None:
        return (zand if isall else zor)(*[p(i) for i in range(c)])
    b = I.fresh('all' if isall else 'any', 'Bool'); ws = [I.fresh('w', 'Int') for _ in ns]
    inr = zand(*[zand(zle(0, w), zlt(w, n)) for w, n in zip(ws, ns)])
    def emit():
        if isall:
            I.assume_forall(ns, lambda *ix: zimp(b, p(*ix)))
            I.assume(z3.Or(b, Z(zand(inr, znot(p(*ws))))))
        else:
            I.assume_forall(ns, lambda *ix: zimp(p(*ix), b))
            I.assume(zimp(b, zand(inr, p(*ws))))
    I.definitional(emit)
    return b

def np_isnan(I, a, k): return emap(I, lambda x: isinstance(x, float) and x != x, opnd(I, a[0]), dtype='bool')
def np_isfn(I, a, k): return emap(I, lambda x: False if not isinstance(x, float) else x in (INF, -INF), a[0], dtype='bool')

# ------------------------------------------------------------------ random draws (adversarial values within the documented support)
def size_arg(I, s):
    if s is None: return ()
    return shape_arg(I, s)

def rnd_uniform(I, a, k):
    lo = k.get('low', a[0] if a else 0); hi = k.get('high', a[1] if len(a) > 1 else 1); sz = k.get('size', a[2] if len(a) > 2 else None)
    sh = size_arg(I, sz)
    if isinstance(lo, Arr) or isinstance(hi, Arr): raise Unsupported('array bounds of uniform')
    u = I.fresh('unif', 'Real', ['Int'] * len(sh)) if sh else I.fresh('unif')
    if not sh:
        I.assume(zimp(zle(lo, hi), zand(zle(lo, u), zle(u, hi)))); return u
    I.assume_forall(list(sh), lambda *ix: zimp(zle(lo, hi), zand(zle(lo, u(*ix)), zle(u(*ix), hi))))
    return mk(I, sh, lambda *ix: u(*ix))

def rnd_rand(I, a, k): return rnd_uniform(I, [0, 1], {'size': tuple(a) if a else None})

def rnd_choice(I, a, k):
    if k.get('replace', True) is not True or len(a) > 2 or 'p' in k: raise Unsupported('choice without replacement')
    dom = a[0]; sh = size_arg(I, k.get('size', a[1] if len(a) > 1 else None))
    if is_num(dom): n, get = dom, lambda i: i
    else:
        A = as_arr(I, dom)
        if A.ndim != 1: raise PyRaise('ValueError', ('a must be 1-dimensional',))
        n, get = A.shape[0], A.data
    c = I.fresh('choice', 'Int', ['Int'] * len(sh)) if sh else I.fresh('choice', 'Int')
    if not sh:
        I.assume(zand(zle(0, c), zlt(c, n))); return get(c)
    I.assume_forall(list(sh), lambda *ix: zand(zle(0, c(*ix)), zlt(c(*ix), n)))
    return mk(I, sh, lambda *ix: get(c(*ix)))

def rnd_randint(I, a, k):
    lo, hi = (0, a[0]) if len(a) < 2 or a[1] is None else (a[0], a[1])
    if 'high' in k: lo, hi = a[0], k['high']
    sh = size_arg(I, k.get('size', a[2] if len(a) > 2 else None))
    c = I.fresh('randint', 'Int', ['Int'] * len(sh)) if sh else I.fresh('randint', 'Int')
    if not sh:
        I.assume(zand(zle(lo, c), zlt(c, hi))); return c
    I.assume_forall(list(sh), lambda *ix: zand(zle(lo, c(*ix)), zlt(c(*ix), hi)))
    return mk(I, sh, lambda *ix: c(*ix), dtype='int')

def rnd_normal(I, a, k):
    m = a[0] if a else 0
    sh = size_arg(I, k.get('size', a[2] if len(a) > 2 else None))
    if not sh:
        shp = None
        for x in a[:2]:
            if isinstance(x, Arr): shp = x.shape
        if shp is None: return I.fresh('normal')
        sh = shp
    u = I.fresh('normal', 'Real', ['Int'] * len(sh))
    return mk(I, sh, lambda *ix: u(*ix))

def rnd_randn(I, a, k):
    if not a: return I.fresh('normal')
    u = I.fresh('normal', 'Real', ['Int'] * len(a))
    return mk(I, tuple(a), lambda *ix: u(*ix))

def np_meshgrid(I, a, k):
    vs = [as_arr(I, x) for x in a]; m = len(vs)
    if any(v.ndim != 1 for v in vs) or set(k) - {'indexing'}: raise Unsupported('meshgrid')
    ax = list(range(m))
    if k.get('indexing', 'xy') == 'xy' and m >= 2: ax[0], ax[1] = 1, 0      # axis of the result along which vector q varies
    shp = [None] * m
    for q in range(m): shp[ax[q]] = vs[q].shape[0]
    def one(q):
        d = vs[q].data
        return mk(I, tuple(shp), lambda *ix: d(ix[ax[q]]), dtype=vs[q].dtype)
    return ListV(I, [one(q) for q in range(m)])


def np_prod(I, a, k):
    n, get = iterate(I, a[0]); c = asint_const(n)
    if c is None or c > 16 or len(a) > 1: raise Unsupported('prod')
    r = 1
    for i in range(c): r = zmul(r, num(scalar_of(get(i))))
    return r
def np_rot90(I, a, k):
    A = as_arr(I, a[0]); q = k.get('k', a[1] if len(a) > 1 else 1)
    if A.ndim != 2 or not isinstance(q, int) or set(k) - {'k'}: raise Unsupported('rot90')
    n, m = A.shape; d = A.data; q %= 4
    if q == 0: return copy_arr(I, A)
    if q == 2: return mk(I, (n, m), lambda i, j: d(zsub(zsub(n, 1), i), zsub(zsub(m, 1), j)), dtype=A.dtype)
    if q == 1: return mk(I, (m, n), lambda i, j: d(j, zsub(zsub(m, 1), i)), dtype=A.dtype)
    return mk(I, (m, n), lambda i, j: d(zsub(zsub(n, 1), j), i), dtype=A.dtype)

def np_einsum(I, a, k):
    spec = a[0]; ops = [as_arr(I, x) for x in a[1:]]
    if not isinstance(spec, str) or '->' not in spec or '.' in spec or set(k): raise Unsupported('einsum')
    ins, out = spec.replace(' ', '').split('->'); ins = ins.split(',')
    if len(ins) != len(ops) or any(len(x) != A.ndim or len(set(x)) != len(x) for x, A in zip(ins, ops)) or len(set(out)) != len(out): raise Unsupported('einsum')
    dim = {}
    for x, A in zip(ins, ops):
        for c, n in zip(x, A.shape):
            if c in dim:
                if not same(dim[c], n) and not I.branch(zeq(dim[c], n)): raise PyRaise('ValueError', ('einsum: extents differ',))
            else: dim[c] = n
    red = [c for c in dim if c not in out]
    if any(c not in dim for c in out): raise Unsupported('einsum')
    ds = [A.data for A in ops]
    def term(env):
        v = 1
        for x, d in zip(ins, ds): v = zmul(v, num(d(*[env[c] for c in x])))
        return v
    def val(*ix):
        def go(env, rest):
            if not rest: return term(env)
            return ssum(I, dim[rest[0]], lambda q: go(dict(env, **{rest[0]: q}), rest[1:]))
        return go(dict(zip(out, ix)), red)
    return mk(I, tuple(dim[c] for c in out), val) if out else val()

# ------------------------------------------------------------------ array methods
def reshape(I, A, sh):
    sh = list(sh)
    d = A.data
    if any(is_conc(s) and s == -1 for s in sh):
        others = [s for s in sh if not (is_conc(s) and s == -1)]
        tot = 1
        for s in A.shape: tot = zmul(tot, s)
        o = 1
        for s in others: o = zmul(o, s)
        if asint_const(o) == 1: miss = simp(tot)
        elif is_conc(tot) and is_conc(o): miss = tot // o
        else:
            # drop equal dimensions
            rest = list(A.shape); ok = True
            for s in others:
                for q, t in enumerate(rest):
                    if same(s, t): rest.pop(q); break
                else: ok = False
            if not ok: raise Unsupported('reshape')
            miss = 1
            for t in rest: miss = zmul(miss, t)
        sh = [miss if (is_conc(s) and s == -1) else s for s in sh]
    srcb = [(q, s) for q, s in enumerate(A.shape) if asint_const(s) != 1]
    dstb = [(q, s) for q, s in enumerate(sh) if asint_const(s) != 1]
    cs = [asint_const(q) for _, q in srcb], [asint_const(q) for _, q in dstb]
    if len(srcb) == len(dstb) and (len(srcb) < 2 or None in cs[0] + cs[1] or cs[0] == cs[1]):
        # same non-unit dimensions in the same order
        conds = [same(s, t) for (_, s), (_, t) in zip(srcb, dstb)]
        for ok, (_, s), (_, t) in zip(conds, srcb, dstb):
            if not ok and not I.branch(zeq(s, t)):
                if len(srcb) > 1: raise Unsupported('reshape to other extents')
                raise PyRaise('ValueError', ('cannot reshape',))
        mp = {sq: dq for (sq, _), (dq, _) in zip(srcb, dstb)}
        nd = A.ndim
        def vf(dd): return lambda *ix: dd(*[ix[mp[q]] if q in mp else 0 for q in range(nd)])
        inv = {dq: sq for sq, dq in mp.items()}
        def wb(new, old): return lambda *ix: new(*[ix[inv[q]] if q in inv else 0 for q in range(len(sh))])
        r = Arr(I, sh, base=A, vf=vf, wb=wb, dtype=A.dtype)
        if A.ndim == 1 and len(sh) == 2 and asint_const(sh[0]) == 1:
            if A.vec is not None: vv = A.vec; r.row = lambda i: vv
            else: r.via = (A, root(A)._data, lambda i: vecterm(I, A))
        if A.ndim == 2 and len(sh) == 1 and asint_const(A.shape[0]) == 1:
            if A.row is not None: r.vec = A.row(0)
            else: r.via = (A, root(A)._data, lambda: rowfn(I, A)(0))
        if A.ndim == 2 and len(sh) == 2 and srcb == dstb:
            if A.row is not None: r.row = A.row
            else: r.via = (A, root(A)._data, lambda i: rowfn(I, A)(i))
        return r
    def size(s):
        t = 1
        for x in s: t = zmul(t, x)
        return simp(t)
    sa, sb = size(A.shape), size(sh)
    # sizes that the solver can decide (a symbolic dimension that must be one)
    if len(dstb) < len(srcb):
        for q, s in srcb:
            if is_sym(s) and I.check(zeq(s, 1)):
                d2 = d; shape2 = tuple(1 if p == q else t for p, t in enumerate(A.shape))
                return reshape(I, mk(I, shape2, d2, dtype=A.dtype), sh)
    if len(dstb) > len(srcb):
        for q, s in dstb:
            if is_sym(s) and I.check(zeq(s, 1)): return reshape(I, A, [1 if p == q else t for p, t in enumerate(sh)])
    if asint_const(sa) is not None and asint_const(sb) is not None:
        if sa != sb: raise PyRaise('ValueError', ('cannot reshape',))
        ca = [asint_const(s) for s in A.shape]; cb = [asint_const(s) for s in sh]
        if None not in ca and None not in cb and all(True for _ in cb):
            def data(*ix):
                ii = [asint_const(i) for i in ix]
                if None in ii: raise Unsupported('symbolic position in a reshaped array')
                lin = 0
                for i, c in zip(ii, cb): lin = lin * c + i
                out = []
                for c in reversed(ca): out.append(lin % c); lin //= c
                return d(*reversed(out))
            return mk(I, sh, data, dtype=A.dtype)
    # (1, a) <-> ... mismatch of symbolic sizes
    if len(srcb) == 2 and len(dstb) == 1:
        q0 = dstb[0][0]
        if not same(sa, sh[q0]) and not I.branch(zeq(sa, sh[q0])): raise PyRaise('ValueError', ('cannot reshape',))
        f = flatten2(I, mk(I, tuple(s for _, s in srcb), (lambda *ix: d(*[ix[[p for p, _ in srcb].index(q)] if q in [p for p, _ in srcb] else 0 for q in range(A.ndim)])), dtype=A.dtype) if A.ndim != 2 else A, 'C')
        if len(sh) == 1: return f
        g = f.data; return mk(I, tuple(sh), lambda *ix: g(ix[q0]), dtype=A.dtype)
    raise Unsupported('reshape %r to %r' % (A.shape, sh))

def flatten2(I, A, order):
    """flattened matrix: position p = i*m+j (C) or j*n+i (F)"""
    n, m = A.shape; d = A.data
    q = m if order == 'C' else n
    tot = simp(zmul(n, m))
    def data(p):
        cp, cq = asint_const(p), asint_const(q)
        if cp is not None and cq is not None: hi, lo = cp // cq, cp % cq
        else:
            hi = STEPQ(ZI(p), z3.IntVal(0), ZI(q)); lo = ZI(p) - hi * ZI(q)
            I.definitional(lambda: I.assume(z3.Implies(ZI(q) > 0, z3.And(hi * ZI(q) <= ZI(p), ZI(p) < hi * ZI(q) + ZI(q)))))
        return d(hi, lo) if order == 'C' else d(lo, hi)
    return mk(I, (tot,), data, dtype=A.dtype)

def flatten(I, A, order='C'):
    if A.ndim == 0: x = A.data(); return mk(I, (1,), lambda i: x, dtype=A.dtype)
    if A.ndim == 1: return copy_arr(I, A)
    big = [q for q, s in enumerate(A.shape) if asint_const(s) != 1]
    if len(big) >= 2:
        for q in big:
            if is_sym(A.shape[q]) and I.check(zeq(A.shape[q], 1)):
                A2 = mk(I, tuple(1 if p == q else t for p, t in enumerate(A.shape)), A.data, dtype=A.dtype)
                if A.ndim == 2 and q == 0:
                    A2.row = A.row
                    if A.row is None: A2.via = (A, root(A)._data, lambda i: rowfn(I, A)(i))
                return flatten(I, A2, order)
    if len(big) <= 1:
        q = big[0] if big else A.ndim - 1
        d = A.data
        def data(i):
            ix = [0] * A.ndim; ix[q] = i; return d(*ix)
        r = mk(I, (A.shape[q],), data, dtype=A.dtype)
        if A.ndim == 2 and q == 1:
            if A.row is not None: r.vec = A.row(0)
            else: r.via = (A, root(A)._data, lambda: rowfn(I, A)(0))
        r.masksel = None
        return r
    if A.ndim == 2: return flatten2(I, A, order)
    if order not in ('C', 'F'): raise Unsupported('flatten')
    axes = list(range(A.ndim)) if order == 'F' else list(range(A.ndim))[::-1]     # fastest axis first
    tot = 1
    for n in A.shape: tot = zmul(tot, n)
    d = A.data
    def data(p):
        ix = [None] * A.ndim
        for ax in axes[:-1]:
            q = A.shape[ax]; cp, cq = asint_const(p), asint_const(q)
            if cp is not None and cq is not None: hi, lo = cp // cq, cp % cq
            else:
                hi = STEPQ(ZI(p), z3.IntVal(0), ZI(q)); lo = ZI(p) - hi * ZI(q)
                I.definitional(lambda: I.assume(z3.Implies(ZI(q) > 0, z3.And(hi * ZI(q) <= ZI(p), ZI(p) < hi * ZI(q) + ZI(q)))))
            ix[ax] = lo; p = hi
        ix[axes[-1]] = p
        return d(*ix)
    return mk(I, (simp(tot),), data, dtype=A.dtype)

def transpose(I, A):
    if A.ndim < 2: return A
    if A.ndim == 2:
        return Arr(I, (A.shape[1], A.shape[0]), base=A, vf=lambda d: (lambda i, j: d(j, i)), wb=lambda new, old: (lambda i, j: new(j, i)), dtype=A.dtype)
    raise Unsupported('transpose')

def arr_attr(I, A, nm):
    N = lambda f: [Native(nm, modelled('the array method ' + nm, f))]
    if nm == 'shape': return [A.shape]
    if nm == 'ndim': return [A.ndim]
    if nm == 'size':
        t = 1
        for s in A.shape: t = zmul(t, s)
        return [simp(t)]
    if nm == 'T': return [transpose(I, A)]
    if nm == 'dtype': return [Opaque('dtype')]
    if nm in ('copy',): return N(lambda I, a, k: copy_arr(I, A))
    if nm == 'flatten': return N(lambda I, a, k: flatten(I, A, k.get('order', a[0] if a else 'C')))
    if nm == 'ravel': return N(lambda I, a, k: flatten(I, A))
    if nm == 'reshape': return N(lambda I, a, k: reshape(I, A, shape_arg(I, a[0]) if len(a) == 1 else tuple(a)))
    if nm == 'astype': return N(lambda I, a, k: astype(I, A, 'int' if 'int' in a[0].name else 'bool' if 'bool' in a[0].name else 'real'))
    if nm == 'tolist': return N(lambda I, a, k: arr_tolist(I, A))
    if nm == 'sum': return N(lambda I, a, k: np_sum(I, [A] + a, k))
    if nm == 'min': return N(lambda I, a, k: np_minmax(1, 'min')(I, [A] + a, k))
    if nm == 'max': return N(lambda I, a, k: np_minmax(-1, 'max')(I, [A] + a, k))
    if nm == 'argmin': return N(lambda I, a, k: np_argminmax(1)(I, [A] + a, k))
    if nm == 'argmax': return N(lambda I, a, k: np_argminmax(-1)(I, [A] + a, k))
    if nm == 'argsort': return N(lambda I, a, k: np_argsort(I, [A] + a, k))
    if nm == 'mean': return N(lambda I, a, k: np_mean(I, [A] + a, k))
    if nm == 'std': return N(lambda I, a, k: np_std(I, [A] + a, k))
    if nm == 'var': return N(lambda I, a, k: np_var(I, [A] + a, k))
    if nm == 'all': return N(lambda I, a, k: np_allany(True)(I, [A] + a, k))
    if nm == 'any': return N(lambda I, a, k: np_allany(False)(I, [A] + a, k))
    if nm == 'dot': return N(lambda I, a, k: np_dot(I, [A] + a, k))
    if nm == 'clip': return N(lambda I, a, k: np_clip(I, [A] + a, k))
    if nm == 'round': return N(lambda I, a, k: np_round(I, [A] + a, k))
    if nm == 'cumsum': return N(lambda I, a, k: np_cumsum(I, [A] + a, k))
    if nm == 'repeat': return N(lambda I, a, k: np_repeat(I, [A] + a, k))
    if nm == 'ptp': return N(lambda I, a, k: np_ptp(I, [A] + a, k))
    if nm == 'item': return N(lambda I, a, k: scalar_of(A))
    if nm == 'transpose': return N(lambda I, a, k: transpose(I, A))
    if nm == 'squeeze':
        def squeeze(I, a, k):
            if a or k or any(asint_const(s) is None and not I.check(znot(zeq(s, 1))) for s in A.shape): raise Unsupported('squeeze')
            return reshape(I, A, [s for s in A.shape if asint_const(s) != 1])
        return N(squeeze)
    if nm == 'fill':
        def fill(I, a, k): v = a[0]; A.set(lambda *ix: v)
        return N(fill)
    return None

def arr_tolist(I, A):
    if A.ndim == 1:
        d = A.data
        return ListV.sym(I, A.shape[0], lambda i: d(i))
    d = A.data; m = A.shape[1]
    if A.ndim != 2: raise Unsupported('tolist')
    return ListV.sym(I, A.shape[0], lambda i: ListV.sym(I, m, lambda j: d(i, j)))

# ------------------------------------------------------------------ methods of other values
def method(I, o, nm):
    N = lambda f: [Native(nm, f)]
    if isinstance(o, Arr): return arr_attr(I, o, nm)
    if isinstance(o, ListV):
        if nm == 'append':
            def f(I, a, k): o.segs = list(o.segs) + [('e', a[0])]
            return N(f)
        if nm == 'extend': return N(lambda I, a, k: (inplace(I, 'Add', o, a[0]), None)[1])
        if nm == 'copy':
            def f(I, a, k):
                r = ListV(I); r.segs = list(o.segs); return r
            return N(f)
        if nm == 'index':
            def f(I, a, k):
                n, get = iterate(I, o)
                if asint_const(n) is None:
                    r = I.fresh('first', 'Int'); eq = lambda i: truth(I, compare(I, 'Eq', get(i), a[0])); i = z3.Int('ix!%d' % uid()); t = Z(eq(i))
                    if not I.branch(z3.Exists([i], z3.And(0 <= i, i < ZI(n), t))): raise PyRaise('ValueError', ())
                    I.assume(zand(0 <= r, zlt(r, n), z3.substitute(t, (i, r)))); I.assume_forall([r], lambda q: znot(z3.substitute(t, (i, ZI(q))))); return r
                for i in range(asint_const(n)):
                    if I.branch(truth(I, compare(I, 'Eq', get(i), a[0]))): return i
                raise PyRaise('ValueError', ())
            return N(f)
        if nm == 'pop':
            def f(I, a, k):
                if not o.concrete() or not o.segs: raise Unsupported('pop')
                i = asint_const(a[0]) if a else -1
                s = list(o.segs); x = s.pop(i); o.segs = s; return x[1]
            return N(f)
        if nm == 'insert':
            def f(I, a, k):
                if not o.concrete(): raise Unsupported('insert')
                s = list(o.segs); s.insert(asint_const(a[0]), ('e', a[1])); o.segs = s
            return N(f)
        if nm == 'sort': 
            raise Unsupported('list.sort')
        return None
    if isinstance(o, DictV):
        if nm == 'get': return N(lambda I, a, k: o.d.get(dict_key(I, o, a[0]), a[1] if len(a) > 1 else k.get('default')))
        if nm == 'keys': return N(lambda I, a, k: ListV(I, list(o.d.keys())))
        if nm == 'values': return N(lambda I, a, k: ListV(I, list(o.d.values())))
        if nm == 'items': return N(lambda I, a, k: ListV(I, [(x, y) for x, y in o.d.items()]))
        if nm == 'copy': return N(lambda I, a, k: DictV(I, o.d))
        if nm == 'update':
            def f(I, a, k):
                if a: o.own().update(a[0].d)
                o.own().update(k)
            return N(f)
        if nm == 'pop':
            def f(I, a, k):
                kk = I.hashkey(a[0])
                if kk in o.d: return o.own().pop(kk)
                if len(a) > 1: return a[1]
                raise PyRaise('KeyError', (kk,))
            return N(f)
        if nm == 'setdefault': return N(lambda I, a, k: o.own().setdefault(I.hashkey(a[0]), a[1] if len(a) > 1 else None))
        return None
    if isinstance(o, SetV):
        if nm == 'copy': return N(lambda I, a, k: SetV(I, o.mem, o.kind))
        if nm == 'add':
            def f(I, a, k):
                m = o.mem; r = set_elem(I, o, a[0])
                o.mem = lambda x: zor(m(x), zeq_any(x, r))
            return N(f)
        if nm == 'update':
            def f(I, a, k):
                for s in a:
                    s2 = make_set(I, s); m, m2 = o.mem, s2.mem
                    if o.kind is None: o.kind = s2.kind
                    o.mem = lambda x, m=m, m2=m2: zor(m(x), m2(x))
            return N(f)
        if nm == 'union':
            def f(I, a, k):
                r = SetV(I, o.mem, o.kind)
                for s in a:
                    s2 = make_set(I, s); m, m2 = r.mem, s2.mem
                    r.mem = lambda x, m=m, m2=m2: zor(m(x), m2(x))
                return r
            return N(f)
        if nm in ('discard', 'remove'):
            def f(I, a, k):
                m = o.mem; r = set_elem(I, o, a[0])
                o.mem = lambda x: zand(m(x), znot(zeq_any(x, r)))
            return N(f)
        return None
    if isinstance(o, str):
        if nm in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split', 'rstrip', 'lstrip'):
            def f(I, a, k):
                r = getattr(o, nm)(*a)
                return ListV(I, r) if isinstance(r, list) else r
            return N(f)
        if nm == 'format': 
            def f(I, a, k):
                if all(isinstance(x, (str, int)) for x in a) and not k: return o.format(*a)
                return brace_format(o, a) if not k else Opaque('str')
            return N(f)
        if nm == 'join': return N(lambda I, a, k: Opaque('str'))
        if nm == 'decode': raise PyRaise('AttributeError', (nm,))
        return None
    if isinstance(o, (tuple, TupV)) and nm in ('index', 'count'): raise Unsupported('tuple method')
    if is_num(o) and nm in ('item', 'copy'): return N(lambda I, a, k: o)
    if is_num(o) and nm in ('min', 'max', 'sum', 'mean'): return N(lambda I, a, k: o)
    if is_num(o) and nm in ('flatten', 'reshape', 'astype'): return arr_attr(I, as_arr(I, o), nm)
    if is_num(o) and nm == 'shape': return [()]
    if is_num(o) and nm == 'ndim': return [0]
    if isinstance(o, Native) and nm == '__name__': return [o.name]
    if isinstance(o, IterV) : return None
    return None

def zeq_any(x, r):
    if is_sym(x) and is_sym(r) and x.sort() == r.sort(): return x == r
    return zeq(x, r)

def set_elem(I, s, v):
    if isinstance(v, (TupV, tuple)):
        if s.kind is None: s.kind = 'row'
        return tupvec(I, v)
    if is_num(v):
        if s.kind is None: s.kind = 'num'
        return Z(v)
    raise Unsupported('set element %r' % (v,))

def make_set(I, v):
    """set of the elements of an iterable"""
    if v is None: return SetV(I, lambda r: False, None)
    if isinstance(v, SetV): return SetV(I, v.mem, v.kind)
    n, get = iterate(I, v)
    c = asint_const(n)
    if c is not None and c <= 16:
        es = [get(i) for i in range(c)]
        s = SetV(I, None, None)
        rs = [set_elem(I, s, e) for e in es]
        s.mem = lambda x: zor(*[zeq_any(x, r) for r in rs])
        if rs and all(is_sym(r) and r.sort() == rs[0].sort() for r in rs): s.esort = rs[0].sort()
        if es and isinstance(es[0], TupV): s.elen = es[0].n
        return s
    with I.gen(n) as k:
        e = get(k)
        if isinstance(e, (TupV, tuple)):
            t = tupvec(I, e); kind = 'row'
        elif is_num(e): t = Z(e); kind = 'num'
        else: raise Unsupported('set of %r' % (e,))
    mem = I.fresh('mem', 'Bool', [t.sort()]); wit = I.fresh('wit', 'Int', [t.sort()])
    tt = template(I, t, k)
    def emit():
        I.assume_forall([n], lambda i: mem(tt(i)))
        r = z3.Const('sr!%d' % uid(), t.sort())
        I.raw_fact([r], z3.Implies(mem(r), z3.And(0 <= wit(r), wit(r) < ZI(n), tt(wit(r)) == r)), [mem(r)])
    I.definitional(emit)
    s = SetV(I, lambda r: mem(r), kind)
    s.elen = e.n if isinstance(e, TupV) else None; s.esort = t.sort()
    return s

def mem_apps(b, r):
    """membership predicates applied to r inside b (triggers)"""
    out = []; todo = [b]
    while todo:
        x = todo.pop()
        if not z3.is_app(x): continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).eq(r): out.append(x)
        else: todo += x.children()
    return out[:2]

def set_enum(I, s):
    """the elements of a set in some order, without repetition"""
    if s.kind == 'num' and getattr(s, 'esort', None) == z3.IntSort():
        n = I.fresh('card', 'Int'); g = I.fresh('elem', 'Int', ['Int']); at = I.fresh('pos', 'Int', ['Int'])
        def emitn():
            I.assume(n >= 0)
            I.assume_forall([n], lambda i: zand(s.mem(g(i)), at(g(i)) == i))
            r = z3.Const('se!%d' % uid(), z3.IntSort()); b = Z(s.mem(r)); 
            for pt in [at(r), MENTION(r)] + mem_apps(b, r): I.raw_fact([r], z3.Implies(b, z3.And(0 <= at(r), at(r) < n, g(at(r)) == r)), [pt])
        I.definitional(emitn)
        return n, lambda i: g(Z(i))
    if s.kind != 'row': raise Unsupported('iteration over a set')
    n = I.fresh('card', 'Int'); f = I.fresh('elem', 'Row', ['Int']); pos = I.fresh('pos', 'Int', ['Row'])
    def emit():
        I.assume(n >= 0)
        I.assume_forall([n], lambda i: zand(s.mem(f(i)), pos(f(i)) == i))
        r = z3.Const('se!%d' % uid(), Row)
        b = s.mem(r)
        I.raw_fact([r], Z(zimp(b, z3.And(0 <= pos(r), pos(r) < n, f(pos(r)) == r))), [pos(r)] if not (is_sym(b) and b.num_args() == 1) else [b])
    I.definitional(emit)
    elen = getattr(s, 'elen', None)
    if elen is None: raise Unsupported('iteration over a set of rows of unknown length')
    return n, lambda i: TupV(elen, lambda j, i=i: el(f(Z(i)), Z(j)), f(Z(i)))

def do_exec(I, args, env):
    src = args[0]
    import re
    if isinstance(src, Opaque) and hasattr(src, 'src'):
        m = re.match(r'\s*(\w+)\s*=\s*lambda\s+(\w+)\s*:\s*$', src.src[0])
        if not m: raise Unsupported('exec of ' + src.src[0])
        fn = src.src[1]
        target = env.module
        if len(args) < 2: raise Unsupported('exec without globals')
        def call(I, a, k): return fn(I, a[0])
        r = fn(I, None)      # compile-time check: may raise
        target.globals[m.group(1)] = Native(m.group(1), call)
        return None
    raise Unsupported('exec')

# ------------------------------------------------------------------ builtins
def b_len(I, a, k):
    v = a[0]
    if isinstance(v, ListV): return v.length()
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, TupV): return v.n
    if isinstance(v, DictV): return len(v.d)
    if isinstance(v, Arr):
        if v.ndim == 0: raise PyRaise('TypeError', ('len of unsized object',))
        return v.shape[0]
    if isinstance(v, RangeV): return iterate(I, v)[0]
    if isinstance(v, SetV):
        n, _ = set_enum(I, v); return n
    if isinstance(v, ObjV):
        f = getattr(v, 'lenf', None)
        if f is not None: return f(I)
        if isinstance(v.cls, ClassV):
            m = I.class_attr(v.cls, '__len__')
            if m is not None: return I.call(BoundV(m, v), [])
    if is_num(v) or v is None: raise PyRaise('TypeError', ('object has no len()',))
    raise Unsupported('len of %r' % (v,))

def b_range(I, a, k):
    a = [scalar_of(x) for x in a]
    for x in a:
        if as_index_int(x) is None: raise PyRaise('TypeError', ('range',))
    if len(a) == 1: return RangeV(0, a[0])
    if len(a) == 2: return RangeV(a[0], a[1])
    return RangeV(a[0], a[1], a[2])

def b_enumerate(I, a, k):
    n, get = iterate(I, a[0]); st = a[1] if len(a) > 1 else k.get('start', 0)
    return IterV(n, lambda i: (simp(zadd(i, st)), get(i)))

def b_zip(I, a, k):
    its = [iterate(I, x) for x in a]
    n = its[0][0]
    for m, _ in its[1:]:
        if same(n, m): continue
        if is_conc(n) and is_conc(m): n = min(n, m)
        elif I.check(zle(n, m)): pass
        elif I.check(zle(m, n)): n = m
        else: n = zite(zle(n, m), n, m)
    return IterV(n, lambda i: tuple(g(i) for _, g in its))

def b_list(I, a, k):
    if not a: return ListV(I)
    v = a[0]
    if isinstance(v, ListV):
        r = ListV(I); r.segs = list(v.segs); return r
    n, get = iterate(I, v)
    if isinstance(v, Arr) and v.ndim == 1 and v.vec is not None:
        g0 = get; get = lambda i: g0(i)
        get.vec = v.vec
    r = ListV.sym(I, n, get)
    if isinstance(v, SetV): r.fromset = True
    return r

def b_tuple(I, a, k):
    if not a: return ()
    v = a[0]
    if isinstance(v, (tuple, TupV)): return v
    if isinstance(v, Arr) and v.ndim == 1:
        d = v.data; c = asint_const(v.shape[0])
        t = TupV(v.shape[0], d, v.vec)
        if v.vec is None:
            via = getattr(v, 'via', None)
            if via is not None and root(via[0])._data is via[1]: t.vec = via[2]()
        if c is not None and c <= 8 and t.vec is None: return tuple(d(i) for i in range(c))
        return t
    n, get = iterate(I, v)
    c = asint_const(n)
    if c is not None and c <= 64: return tuple(get(i) for i in range(c))
    with I.gen(n) as kk: e = get(kk)
    if is_num(e): return TupV(n, get)
    l = ListV(I); l.segs = [('s', n, get)]; return l

def b_sum(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    n, get = iterate(I, a[0])
    c = asint_const(n)
    if c is not None and c <= 64:
        s = start
        for i in range(c): s = binop(I, 'Add', s if not isinstance(s, bool) else int(s), boolnum(get(i)))
        return s
    with I.gen(n) as q: e = get(q)
    if isinstance(e, Arr):
        A = e
        dat = lambda *ix: ssum(I, n, lambda i: get(i).data(*ix))
        r = mk(I, A.shape, dat); return r if is_num(start) and is_conc(start) and start == 0 else binop(I, 'Add', start, r)
    if isinstance(e, ListV): return inplace(I, 'Add', start, flatten_list(I, n, get))
    if is_sym(e) and e.sort() == Int and is_conc(start):
        with I.gen(n) as q: pos = I.check(num(get(q)) >= 0)
        if pos: return zadd(start, prefix(I, n, lambda i: num(get(i)))[0](ZI(n)))
    return zadd(start, ssum(I, n, lambda i: num(get(i))))

def boolnum(x): return num(x) if is_boolv(x) else x

def b_minmax(sign):
    def f(I, a, k):
        key = k.get('key')
        seq = a[0] if len(a) == 1 else tuple(a)
        n, get = iterate(I, seq)
        if isinstance(asint_const(n), int) and asint_const(n) == 0:
            if 'default' in k: return k['default']
            raise PyRaise('ValueError', ('empty',))
        kf = (lambda i: scalar_val(I, I.call(key, [get(i)]))) if key is not None else (lambda i: scalar_val(I, get(i)))
        c = asint_const(n)
        if c is not None and c <= 16:
            xs = [get(i) for i in range(c)]; ks = [kf(i) for i in range(c)]
            v, kv = xs[0], ks[0]
            for i in range(1, c):
                b = zlt(ks[i], kv) if sign == 1 else zlt(kv, ks[i])
                if isinstance(b, bool):
                    if b: v, kv = xs[i], ks[i]
                else: v = merge(I, b, xs[i], v); kv = zite(b, ks[i], kv)
            return v
        # the key is evaluated once, at a generic position
        with I.gen(n) as q: kt = kf(q)
        kk = template(I, kt, q)
        v, p = extremum(I, n, kk, sign)
        return get(p)
    return f

def scalar_val(I, v):
    v = scalar_of(v)
    if isinstance(v, Arr):
        if I.check(zand(*[zeq(s, 1) for s in v.shape])): return v.data(*[0] * v.ndim)
        raise Unsupported('comparison of arrays')
    if not is_num(v): raise Unsupported('ordering of %r' % (v,))
    return num(v)

def b_sorted(I, a, k):
    v = a[0]
    key, rev = k.get('key'), k.get('reverse', False)
    n, get = iterate(I, v); c = asint_const(n)
    if c is not None and c <= 64:
        its = [get(i) for i in range(c)]; ks = its if key is None else [I.call(key, [x]) for x in its]
        if rev in (True, False) and (all(isinstance(x, (int, Fraction)) for x in ks) or all(isinstance(x, str) for x in ks)): return ListV(I, [its[i] for i in sorted(range(c), key=lambda i: ks[i], reverse=rev)])
    if key is not None or rev is not False: raise Unsupported('sorted with a key')
    if isinstance(v, ListV) and v.concrete():
        its = v.items()
        if all(isinstance(x, (int, Fraction)) for x in its) or all(isinstance(x, str) for x in its): return ListV(I, sorted(its))
    n, get = iterate(I, v)
    with I.gen(n) as q: e = get(q)
    perm = I.fresh('sperm', 'Int', ['Int']); pinv = I.fresh('spinv', 'Int', ['Int'])
    def emit():
        I.assume_forall([n], lambda i: z3.And(0 <= perm(i), perm(i) < ZI(n), pinv(perm(i)) == i))
        I.assume_forall([n], lambda i: z3.And(0 <= pinv(i), pinv(i) < ZI(n), perm(pinv(i)) == i))
        if is_num(e):
            with I.gen(n) as i:
                with I.gen(n) as j: I.assume(zimp(i < j, zle(get(perm(i)), get(perm(j)))))
        z = z3.Int('so!%d' % uid()); x = get(z); t = Z(x) if is_num(x) else x.vec if isinstance(x, TupV) and x.vec is not None else None
        ps = min_apps(t, z) if is_sym(t) else []
        if ps: I.raw_fact([z], z3.Implies(z3.And(0 <= z, z < ZI(n)), z3.And(0 <= pinv(z), pinv(z) < ZI(n), perm(pinv(z)) == z)), ps)
    I.definitional(emit)
    l = ListV(I); l.segs = [('s', n, lambda i: get(perm(i)))]; return l

def b_allany(isall):
    def f(I, a, k):
        n, get = iterate(I, a[0])
        c = asint_const(n)
        if c is not None:
            r = True if isall else False
            return (zand if isall else zor)(*[truth(I, get(i)) for i in range(c)])
        return quant_bool(I, [n], lambda i: truth(I, get(i)), isall)
    return f

def b_isinstance(I, a, k):
    v, c = a
    if isinstance(c, tuple): return zor(*[b_isinstance(I, [v, x], {}) for x in c])
    return isinst(I, v, c)

def isinst(I, v, c):
    f = getattr(v, 'isinstf', None)
    if f is not None: return f(I, c)
    if isinstance(c, ClassV):
        return isinstance(v, ObjV) and isinstance(v.cls, ClassV) and c in I.mro(v.cls)
    nm = c.name if isinstance(c, (Native, ExtV)) else None
    if nm == 'numpy.ndarray': return isinstance(v, Arr)
    if nm == 'str': return isinstance(v, str) or (isinstance(v, Opaque) and v.what.startswith('str'))
    if nm == 'int':
        return isinstance(v, (int,)) or (is_sym(v) and (v.sort() == Int or z3.is_bool(v)))
    if nm == 'float': return isinstance(v, (Fraction, float)) or (is_sym(v) and v.sort() == R)
    if nm == 'bool': return is_boolv(v)
    if nm == 'list': return isinstance(v, ListV)
    if nm == 'tuple': return isinstance(v, (tuple, TupV))
    if nm == 'dict': return isinstance(v, DictV)
    if nm == 'bytes': return False
    if nm == 'set': return isinstance(v, SetV)
    if nm in ('six.string_types',): return isinstance(v, str)
    raise Unsupported('isinstance with %r' % (c,))

def b_type(I, a, k):
    v = a[0]
    if isinstance(v, ObjV): return v.cls
    if isinstance(v, Arr): return ExtV('numpy.ndarray')
    for nm, t in (('bool', bool), ('int', int), ('str', str), ('tuple', tuple)):
        if isinstance(v, t): return BUILTINS[nm]
    if isinstance(v, TupV): return BUILTINS['tuple']
    if isinstance(v, ListV): return BUILTINS['list']
    if isinstance(v, Fraction) or (is_sym(v) and v.sort() == R): return BUILTINS['float']
    if is_sym(v) and v.sort() == Int: return BUILTINS['int']
    if isinstance(v, DictV): return BUILTINS['dict']
    raise Unsupported('type of %r' % (v,))

def b_hasattr(I, a, k):
    try:
        r = I.getattr(a[0], a[1], default=None) if not isinstance(a[0], ObjV) else None
        if isinstance(a[0], ObjV):
            o = a[0]
            if a[1] in o.fields: return True
            if isinstance(o.cls, ClassV) and any(a[1] in c.attrs for c in I.mro(o.cls)): return True
            if getattr(o, 'lazy', None) is not None:
                v = o.lazy(I, a[1])
                return v is not UNDEF
            return False
        return r is not None
    except PyRaise: return False

def b_getattr(I, a, k):
    if len(a) > 2:
        if isinstance(a[0], ObjV) and not b_hasattr(I, a[:2], {}): return a[2]
        return I.getattr(a[0], a[1], default=a[2])
    return I.getattr(a[0], a[1])

def b_setattr(I, a, k): I.setattr(a[0], a[1], a[2])

def b_int(I, a, k):
    if not a: return 0
    v = scalar_of(a[0])
    if isinstance(v, str):
        try: return int(v)
        except ValueError: raise PyRaise('ValueError', ())
    if isinstance(v, Opaque): raise Unsupported('int of opaque')
    if isinstance(v, Arr):
        if v.ndim and all(asint_const(s) is not None for s in v.shape): raise PyRaise('TypeError', ('only length-1 arrays',))
        raise Unsupported('int of an array')
    if not is_num(v): raise PyRaise('TypeError', ('int',))
    return trunc(I, v)

def b_float(I, a, k):
    v = scalar_of(a[0]) if a else Fraction(0)
    if isinstance(v, str):
        if v in ('inf', 'Inf'): return INF
        if v == '-inf': return -INF
        raise Unsupported('float of string')
    if isinstance(v, Arr):
        if I.check(zand(*[zeq(s, 1) for s in v.shape])): return toreal(v.data(*[0] * v.ndim))
        raise PyRaise('TypeError', ('only length-1 arrays',))
    if isinstance(v, Opaque): raise Unsupported('float of opaque')
    if not is_num(v): raise PyRaise('TypeError', ('float',))
    return toreal(v)

def opstr(parts):
    if all(isinstance(p, str) for p in parts): return ''.join(parts)
    o = Opaque('str'); o.parts = parts; return o
def strparts(v):
    """pieces of a built string: literal text, or ('val', value printed)"""
    if isinstance(v, str): return [v]
    p = getattr(v, 'parts', None)
    return list(p) if p is not None else [('val', getattr(v, 'strof', None))]
def percent_format(a, b):
    import re
    vals = list(b) if isinstance(b, tuple) else [b]
    ps = re.split('(%[sdifr])', a); out = []
    for x in ps:
        if re.fullmatch('%[sdir]', x) and vals:
            v = vals.pop(0)
            if x in ('%d', '%s', '%i') and isinstance(v, int) and not isinstance(v, bool): v = str(v)
            out += strparts(v) if isinstance(v, (str, Opaque)) else [('val', v)]
        elif '%' in x: return Opaque('str')
        elif x: out.append(x)
    return opstr(out)
def brace_format(a, args):
    ps = a.split('{}')
    if any('{' in x or '}' in x for x in ps) or len(ps) - 1 > len(args): return Opaque('str')
    out = [ps[0]]
    for x, v in zip(ps[1:], args): out += (strparts(v) if isinstance(v, (str, Opaque)) else [('val', v)]) + [x]
    return opstr([x for x in out if x != ''])
def b_str(I, a, k):
    v = a[0] if a else ''
    if isinstance(v, str): return v
    if isinstance(v, bool) or isinstance(v, int): return str(v)
    if v is None: return 'None'
    if isinstance(v, Opaque) and getattr(v, 'parts', None) is not None: return v
    o = Opaque('str'); o.strof = v; o.parts = [('val', v)]
    return o

def b_filter(I, a, k):
    n, get = iterate(I, a[1]); c = asint_const(n)
    if c is None or c > 16: raise Unsupported('filter')
    its = [get(i) for i in range(c)]; ts = [I.truth(I.call(a[0], [x]) if a[0] is not None else x) for x in its]
    ts = [simp(t) if is_sym(t) else t for t in ts]; ts = [z3.is_true(t) if is_sym(t) and (z3.is_true(t) or z3.is_false(t)) else t for t in ts]
    if any(is_sym(t) for t in ts): raise Unsupported('filter')
    return ListV(I, [x for x, t in zip(its, ts) if t])
def b_map(I, a, k):
    n, get = iterate(I, a[1])
    if len(a) > 2: raise Unsupported('map')
    f = a[0]
    c = asint_const(n)
    if c is not None: return ListV(I, [I.call(f, [get(i)]) for i in range(c)])
    return IterV(n, lambda i: I.call(f, [get(i)]))

def b_print(I, a, k): return None
def b_abs(I, a, k): return emap(I, lambda x: s_abs(I, x), a[0])
def b_id(I, a, k): raise Unsupported('id')
def b_set(I, a, k): return make_set(I, a[0] if a else None)
def b_dict(I, a, k):
    d = DictV(I)
    if a:
        if isinstance(a[0], DictV): d.d.update(a[0].d)
        else:
            n, get = iterate(I, a[0])
            for i in range(asint_const(n)):
                x, y = I.unpack(get(i), 2); d.d[I.hashkey(x)] = y
    d.d.update(k)
    return d
def b_callable(I, a, k): return isinstance(a[0], (FuncV, BoundV, Native, ClassV, ExtV)) 
def b_bool(I, a, k): return truth(I, a[0]) if a else False
def b_pow(I, a, k): return binop(I, 'Pow', a[0], a[1])
def b_round(I, a, k):
    x = num(scalar_val(I, a[0])) if not is_num(a[0]) else num(a[0]); dec = a[1] if len(a) > 1 else 0
    r = s_round(I, x, asint_const(dec))
    if len(a) > 1: return r
    return int(r) if is_conc(r) else (r if r.sort() == Int else z3.ToInt(r))
def b_reversed(I, a, k):
    n, get = iterate(I, a[0]); return IterV(n, lambda i: get(simp(zsub(zsub(n, 1), i))))
def b_iter(I, a, k):
    n, get = iterate(I, a[0]); return IterV(n, get)
def b_next(I, a, k):
    f = getattr(a[0], 'nextf', None)
    if f is not None and len(a) == 1: return f(I)
    raise Unsupported('next')
def b_open(I, a, k): 
    h = getattr(I, 'open_hook', None)
    if 'open' in I.natives: return I.natives['open'](I, a, k)
    if h is not None: return h(I, a, k)
    return Opaque('file')

def exc(nm): return Native(nm, lambda I, a, k: ExcV(nm, tuple(a)))

BUILTINS = {n: Native(n, f) for n, f in {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'list': b_list, 'tuple': b_tuple, 'sum': b_sum,
    'min': b_minmax(1), 'max': b_minmax(-1), 'sorted': b_sorted, 'all': b_allany(True), 'any': b_allany(False),
    'isinstance': b_isinstance, 'type': b_type, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr, 'int': b_int, 'float': b_float,
    'str': b_str, 'map': b_map, 'filter': b_filter, 'print': b_print, 'abs': b_abs, 'set': b_set, 'dict': b_dict, 'callable': b_callable, 'bool': b_bool,
    'pow': b_pow, 'round': b_round, 'reversed': b_reversed, 'open': b_open, 'bytes': lambda I, a, k: Opaque('bytes'), 'iter': b_iter, 'next': b_next,
    'object': lambda I, a, k: ObjV(I, 'object'),
}.items()}
for _e in ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'NotImplementedError', 'RuntimeError', 'ImportError', 'AssertionError', 'ZeroDivisionError', 'StopIteration', 'LookupError', 'NameError', 'EOFError', 'OSError', 'IOError'):
    BUILTINS[_e] = exc(_e)

def builtin(I, nm):
    if nm in BUILTINS: return [BUILTINS[nm]]
    if nm in ('True', 'False', 'None'): return [{'True': True, 'False': False, 'None': None}[nm]]
    if nm == '__name__': return ['module']
    return None

def elementwise(f): return lambda I, a, k: emap(I, lambda x: f(I, x), a[0] if isinstance(a[0], Arr) or is_num(a[0]) else as_arr(I, a[0]))

def deepcopy(I, a, k, memo=None):
    memo = {}
    def go(v):
        if isinstance(v, (Mut,)) and id(v) in memo: return memo[id(v)]
        if isinstance(v, Arr): r = copy_arr(I, v); memo[id(v)] = r; return r
        if isinstance(v, ListV):
            r = ListV(I); memo[id(v)] = r
            r.segs = [('e', go(s[1])) if s[0] == 'e' else ('s', s[1], lambda i, g=s[2]: go(g(i))) for s in v.segs]; return r
        if isinstance(v, DictV):
            r = DictV(I); memo[id(v)] = r; r.d = {kk: go(x) for kk, x in v.d.items()}; return r
        if isinstance(v, tuple): return tuple(go(x) for x in v)
        if isinstance(v, ObjV):
            cp = getattr(v, 'copyf', None)
            if cp is not None: r = cp(I); memo[id(v)] = r; return r
            r = ObjV(I, v.cls, {}, v.tag); memo[id(v)] = r
            for f, x in v.fields.items(): r.fields[f] = go(x)
            for at in ('iterf', 'lazy', 'substf', 'lenf', 'getitemf', 'isinstf'):
                if at in v.__dict__: setattr(r, at, getattr(v, at))
            return r
        if isinstance(v, SetV): return SetV(I, v.mem, v.kind)
        return v
    return go(a[0])

def shallowcopy(I, a, k):
    v = a[0]
    if isinstance(v, Arr): return copy_arr(I, v)
    if isinstance(v, ListV): r = ListV(I); r.segs = list(v.segs); return r
    if isinstance(v, DictV): return DictV(I, v.d)
    if isinstance(v, ObjV): return ObjV(I, v.cls, v.fields, v.tag)
    return v

def np_maximum(f): return lambda I, a, k: emap(I, lambda x, y: f(num(x), num(y)), a[0] if isinstance(a[0], Arr) or is_num(a[0]) else as_arr(I, a[0]), a[1] if isinstance(a[1], Arr) or is_num(a[1]) else as_arr(I, a[1]))

def val_op(v): return v if isinstance(v, Arr) or is_num(v) else None
def opnd(I, v): return v if isinstance(v, Arr) or is_num(v) else as_arr(I, v)
def np_isclose(I, a, k):
    rt = k.get('rtol', a[2] if len(a) > 2 else Fraction(1, 100000)); at = k.get('atol', a[3] if len(a) > 3 else Fraction(1, 10 ** 8))
    return emap(I, lambda x, y: zle(s_abs(I, zsub(x, y)), zadd(at, zmul(rt, s_abs(I, y)))), opnd(I, a[0]), opnd(I, a[1]), dtype='bool')
def np_allclose(I, a, k): return np_allany(True)(I, [np_isclose(I, a, k)], {})
def np_array_equal(I, a, k):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x.ndim != y.ndim: return False
    same_shape = simp(zand(*[zeq(p, q) for p, q in zip(x.shape, y.shape)])) if x.ndim else True
    if not I.branch(same_shape): return False
    return np_allany(True)(I, [compare(I, 'Eq', x, y)], {})
RNDF = {}
def s_round(I, x, dec=0):
    """rounding to dec decimals: some value within half a unit"""
    if is_conc(x) and not isinstance(x, float): return Fraction(round(Fraction(x) * 10 ** dec)) / 10 ** dec if not isinstance(x, int) or dec < 0 else x
    if is_sym(x) and x.sort() == Int and dec >= 0: return x
    f = RNDF.setdefault(dec, z3.Function('round!%d' % dec, R, R)); t = f(ZR(x)); h = ZR(Fraction(1, 2) / Fraction(10) ** dec)
    I.definitional(lambda: I.assume(z3.And(t - ZR(x) <= h, ZR(x) - t <= h)))
    return t
def np_round(I, a, k):
    dec = k.get('decimals', a[1] if len(a) > 1 else 0)
    if asint_const(dec) is None: raise Unsupported('round with symbolic decimals')
    return emap(I, lambda x: s_round(I, x, asint_const(dec)), opnd(I, a[0]))
def s_floor(I, x):
    if is_conc(x): return int(x // 1)
    if x.sort() == Int: return x
    return z3.ToReal(z3.ToInt(x))
def s_ceil(I, x): return zneg(s_floor(I, zneg(x)))
def s_sign(I, x): return zite(zlt(0, x), 1, zite(zlt(x, 0), -1, 0))
def np_cumsum(I, a, k):
    A = as_arr(I, a[0]); ax = kw_axis(a, k)
    if A.ndim != 1 and ax is None: A = flatten(I, A)
    if A.ndim != 1: raise Unsupported('cumsum of a matrix')
    d = A.data
    return mk(I, A.shape, lambda i: ssum(I, zadd(i, 1), d), dtype=A.dtype)
def accumulate(sign):
    def f(I, a, k):
        A = as_arr(I, a[0]); 
        if A.ndim == 2 and asint_const(A.shape[1]) == 1 and kw_axis(a, k) in (0, None): d = lambda i: A.data(i, 0); two = True
        elif A.ndim == 1: d = A.data; two = False
        else: raise Unsupported('accumulate')
        r = I.fresh('acc', 'Real', ['Int']); w = I.fresh('accat', 'Int', ['Int']); n = A.shape[0]
        def emit():
            I.assume_forall([n], lambda i: z3.And(0 <= w(i), w(i) <= i, Z(zeq(r(i), d(w(i))))))
            I.assume_forall([n, n], lambda i, j: zimp(zle(j, i), zle(r(i), d(j)) if sign == 1 else zle(d(j), r(i))))
        I.definitional(emit)
        return mk(I, (n, 1), lambda i, j: r(ZI(i))) if two else mk(I, (n,), lambda i: r(ZI(i)))
    return f
def np_sort(I, a, k):
    A = as_arr(I, a[0])
    if A.ndim != 1: raise Unsupported('sort of a matrix')
    p = np_argsort(I, [A], {}); d = A.data
    return mk(I, A.shape, lambda i: d(p.data(i)), dtype=A.dtype)
def np_column_stack(I, a, k):
    n, get = iterate(I, a[0]); c = asint_const(n)
    if c is None: raise Unsupported('column_stack of a symbolic number of arrays')
    As = [as_arr(I, get(i)) for i in range(c)]
    As = [reshape(I, x, [x.shape[0], 1]) if x.ndim == 1 else x for x in As]
    return concat(I, As, 1)
def np_tile(I, a, k):
    A = as_arr(I, a[0]); reps = a[1] if len(a) > 1 else k['reps']
    reps = list(reps) if isinstance(reps, tuple) else [reps]
    sh = list(A.shape)
    while len(reps) < len(sh): reps.insert(0, 1)
    if len(sh) > len(reps) or len(reps) > 2: raise Unsupported('tile')
    while len(sh) < len(reps): sh.insert(0, 1)
    d = A.data; nd = A.ndim
    out = [simp(zmul(x, y)) for x, y in zip(sh, reps)]
    def data(*ix):
        q = [0 if asint_const(s) == 1 else (i if asint_const(r) == 1 else imod(I, i, s)) for i, s, r in zip(ix, sh, reps)]
        return d(*q[len(q) - nd:])
    return mk(I, tuple(out), data, dtype=A.dtype)
def np_repeat(I, a, k):
    A = as_arr(I, a[0]); r = a[1] if len(a) > 1 else k['repeats']; ax = kw_axis(a, k, 2)
    if ax is None: A = flatten(I, A); ax = 0
    if not is_num(r): raise Unsupported('repeat counts')
    sh = list(A.shape); d = A.data; s0 = sh[ax]; sh[ax] = simp(zmul(s0, r))
    def data(*ix):
        ix = list(ix); ix[ax] = 0 if asint_const(s0) == 1 else ix[ax] if asint_const(r) == 1 else idiv(I, ix[ax], r)
        return d(*ix)
    return mk(I, tuple(sh), data, dtype=A.dtype)
def np_squeeze(I, a, k): return arr_attr(I, as_arr(I, a[0]), 'squeeze')[0].fn(I, [], {})
def np_count_nonzero(I, a, k): return np_sum(I, [emap(I, lambda x: zite(tobool(x), 1, 0), opnd(I, a[0]))], {})
def np_expand_dims(I, a, k):
    ax = k.get('axis', a[1] if len(a) > 1 else 0); A = as_arr(I, a[0])
    idx = [SliceV(None, None, None)] * A.ndim; idx.insert(ax if ax >= 0 else A.ndim + 1 + ax, None)
    return arr_get(I, A, tuple(idx))

NATIVES = {
    'numpy.atleast_2d': lambda I, a, k: atleast_2d(I, a[0]),
    'numpy.atleast_1d': lambda I, a, k: (lambda A: A if A.ndim else mk(I, (1,), lambda i, x=A.data(): x, dtype=A.dtype))(as_arr(I, a[0])),
    'numpy.array': np_array(True), 'numpy.asarray': np_array(False), 'numpy.asanyarray': np_array(False),
    'numpy.zeros': np_full(0), 'numpy.ones': np_full(1), 'numpy.empty': np_empty, 'numpy.eye': np_eye, 'numpy.identity': np_eye,
    'numpy.full': lambda I, a, k: (lambda sh, v: mk(I, sh, lambda *ix: v))(shape_arg(I, a[0]), a[1] if len(a) > 1 else k['fill_value']),
    'numpy.zeros_like': np_zeros_like(0), 'numpy.ones_like': np_zeros_like(1), 'numpy.empty_like': lambda I, a, k: np_empty(I, [as_arr(I, a[0]).shape], {}),
    'numpy.arange': np_arange, 'numpy.linspace': np_linspace,
    'numpy.vstack': np_vstack, 'numpy.hstack': np_hstack, 'numpy.concatenate': np_concatenate, 'numpy.row_stack': np_vstack,
    'numpy.append': lambda I, a, k: concat(I, [as_arr(I, a[0]), as_arr(I, a[1])], k['axis']) if k.get('axis') is not None else concat(I, [flatten(I, as_arr(I, a[0])), flatten(I, as_arr(I, a[1]))], 0),
    'numpy.dot': np_dot, 'numpy.matmul': np_dot, 'numpy.diag': np_diag, 'numpy.where': np_where, 'numpy.clip': np_clip,
    'numpy.rot90': np_rot90, 'numpy.prod': np_prod, 'numpy.einsum': np_einsum,
    'numpy.sum': np_sum, 'numpy.min': np_minmax(1, 'min'), 'numpy.max': np_minmax(-1, 'max'), 'numpy.amin': np_minmax(1, 'min'), 'numpy.amax': np_minmax(-1, 'max'),
    'numpy.argmin': np_argminmax(1), 'numpy.argmax': np_argminmax(-1), 'numpy.mean': np_mean, 'numpy.std': np_std, 'numpy.var': np_var, 'numpy.ptp': np_ptp,
    'numpy.argsort': np_argsort, 'numpy.all': np_allany(True), 'numpy.any': np_allany(False),
    'numpy.sqrt': elementwise(s_sqrt), 'numpy.exp': elementwise(s_exp), 'numpy.log': elementwise(s_log), 'numpy.log1p': elementwise(s_log1p),
    'numpy.abs': elementwise(s_abs), 'numpy.absolute': elementwise(s_abs), 'numpy.fabs': elementwise(s_abs),
    'numpy.square': elementwise(lambda I, x: zmul(x, x)), 'numpy.negative': elementwise(lambda I, x: zneg(x)),
    'numpy.maximum': np_maximum(s_max), 'numpy.minimum': np_maximum(s_min),
    'numpy.power': lambda I, a, k: binop(I, 'Pow', a[0], a[1]), 'numpy.multiply': lambda I, a, k: binop(I, 'Mult', a[0], a[1]),
    'numpy.add': lambda I, a, k: binop(I, 'Add', a[0], a[1]), 'numpy.subtract': lambda I, a, k: binop(I, 'Sub', a[0], a[1]), 'numpy.divide': lambda I, a, k: binop(I, 'Div', a[0], a[1]),
    'numpy.linalg.norm': np_norm, 'numpy.copy': lambda I, a, k: copy_arr(I, as_arr(I, a[0])), 'numpy.ravel': lambda I, a, k: flatten(I, as_arr(I, a[0])),
    'numpy.reshape': lambda I, a, k: reshape(I, as_arr(I, a[0]), shape_arg(I, a[1])), 'numpy.transpose': lambda I, a, k: transpose(I, as_arr(I, a[0])),
    'numpy.isinf': np_isfn, 'numpy.expand_dims': np_expand_dims, 'numpy.logical_not': lambda I, a, k: emap(I, lambda x: znot(tobool(x)), a[0], dtype='bool'),
    'numpy.logical_and': lambda I, a, k: binop(I, 'BitAnd', a[0], a[1]), 'numpy.logical_or': lambda I, a, k: binop(I, 'BitOr', a[0], a[1]),
    'numpy.shape': lambda I, a, k: as_arr(I, a[0]).shape, 'numpy.size': lambda I, a, k: arr_attr(I, as_arr(I, a[0]), 'size')[0],
    'numpy.random.uniform': rnd_uniform, 'numpy.random.rand': rnd_rand, 'numpy.random.choice': rnd_choice, 'numpy.random.randint': rnd_randint,
    'numpy.random.normal': rnd_normal, 'numpy.random.randn': rnd_randn, 'numpy.random.seed': lambda I, a, k: None,
    'numpy.meshgrid': np_meshgrid,
    'numpy.isclose': np_isclose, 'numpy.allclose': np_allclose, 'numpy.array_equal': np_array_equal, 'numpy.array_equiv': np_array_equal,
    'numpy.round': np_round, 'numpy.around': np_round, 'numpy.round_': np_round, 'numpy.rint': elementwise(s_round), 'numpy.floor': elementwise(s_floor), 'numpy.ceil': elementwise(s_ceil),
    'numpy.sign': elementwise(s_sign), 'numpy.cumsum': np_cumsum, 'numpy.minimum.accumulate': accumulate(1), 'numpy.maximum.accumulate': accumulate(-1),
    'numpy.sort': np_sort, 'numpy.column_stack': np_column_stack, 'numpy.tile': np_tile, 'numpy.repeat': np_repeat, 'numpy.squeeze': np_squeeze,
    'numpy.count_nonzero': np_count_nonzero, 'numpy.fmin': np_maximum(s_min), 'numpy.fmax': np_maximum(s_max), 'numpy.nanmin': np_minmax(1, 'min'), 'numpy.nanmax': np_minmax(-1, 'max'),
    'numpy.isnan': np_isnan, 'numpy.isfinite': lambda I, a, k: emap(I, lambda x: znot(x) if is_sym(x) else not x, np_isfn(I, a, k), dtype='bool'),
    'numpy.less_equal': lambda I, a, k: compare(I, 'LtE', a[0], a[1]), 'numpy.less': lambda I, a, k: compare(I, 'Lt', a[0], a[1]),
    'numpy.greater': lambda I, a, k: compare(I, 'Gt', a[0], a[1]), 'numpy.greater_equal': lambda I, a, k: compare(I, 'GtE', a[0], a[1]),
    'numpy.outer': lambda I, a, k: (lambda x, y: mk(I, (x.shape[0], y.shape[0]), lambda i, j: zmul(x.data(i), y.data(j))))(flatten(I, as_arr(I, a[0])), flatten(I, as_arr(I, a[1]))),
    'numpy.full_like': lambda I, a, k: (lambda A, v: mk(I, A.shape, lambda *ix: v))(as_arr(I, a[0]), a[1] if len(a) > 1 else k['fill_value']),
    'math.floor': elementwise(s_floor), 'math.ceil': elementwise(s_ceil), 'math.fabs': elementwise(s_abs), 'math.log1p': elementwise(s_log1p),
    'numpy.float64_': lambda I, a, k: b_float(I, a, k),
    'scipy.special.erfc': elementwise(s_erfc),
    'scipy.stats.norm.cdf': elementwise(lambda I, x: NCDF(ZR(x))), 'scipy.stats.norm.logcdf': elementwise(lambda I, x: NLOGCDF(ZR(x))),
    'math.sqrt': elementwise(s_sqrt), 'math.exp': elementwise(s_exp), 'math.log': elementwise(s_log),
    'itertools.chain.from_iterable': lambda I, a, k: flatten_any(I, a[0]), 'itertools.chain': lambda I, a, k: flatten_any(I, ListV(I, a)),
    'copy.deepcopy': deepcopy, 'copy.copy': shallowcopy,
    'logging.getLogger': lambda I, a, k: Opaque('logger'),
    'time.strftime': lambda I, a, k: Opaque('str'),
    'six.with_metaclass': lambda I, a, k: ObjV(I, 'object'),
}

def install(I):
    I.natives = {nm: modelled(nm, f) for nm, f in NATIVES.items()}
    I.sumtab = {}; I.sumterms = []; I.prefixes = []; I.memsets = []
