"""Values of the symbolic interpreter.

Scalars: Python bool / int / Fraction (exact) / float inf, or z3 Bool / Int / Real terms (floats are mathematical reals).
Everything mutable derives from Mut and can be snapshotted and restored (needed for path exploration).
"""
import z3
from fractions import Fraction
import itertools

class Unsupported(Exception):
    """The construct is outside the verifier's subset: the function is out of reach (never a verdict)."""

class Infeasible(Exception):
    """The current path is contradictory and is dropped."""

class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, clsname, args=(), obj=None):
        Exception.__init__(self, clsname, args)
        self.clsname = clsname; self.pargs = args; self.obj = obj

Row = z3.DeclareSort('Row')
el = z3.Function('el', Row, z3.IntSort(), z3.RealSort())
INF = float('inf')

UNDEF = type('Undef', (), {'__repr__': lambda s: '<undef>'})()

_ids = itertools.count(1)
def uid(): return next(_ids)

def is_sym(x): return isinstance(x, z3.ExprRef)
def is_num(x): return (isinstance(x, (int, Fraction, float)) or (is_sym(x) and (z3.is_arith(x) or z3.is_bool(x))))
def is_boolv(x): return isinstance(x, bool) or (is_sym(x) and z3.is_bool(x))
def is_conc(x): return isinstance(x, (int, Fraction, float)) and not is_sym(x)

def simp(x):
    if is_sym(x):
        s = z3.simplify(x)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        if z3.is_int_value(s): return s.as_long()
        if z3.is_rational_value(s): return Fraction(s.numerator_as_long(), s.denominator_as_long())
        return s
    return x

def asint_const(x):
    """concrete int or None"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, Fraction) and x.denominator == 1: return int(x)
    if is_sym(x):
        s = simp(x)
        if isinstance(s, (int,)) and not isinstance(s, bool): return s
    return None

def Z(x):
    """any scalar to a z3 term"""
    if is_sym(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if isinstance(x, float):
        if x in (INF, -INF) or x != x: raise Unsupported('infinite value in arithmetic')
        return z3.RealVal(str(Fraction(repr(x))))
    raise Unsupported('not a scalar: %r' % (x,))

def ZR(x):
    z = Z(x)
    if z3.is_bool(z): return z3.If(z, z3.RealVal(1), z3.RealVal(0))
    if z.sort() == z3.IntSort(): return z3.ToReal(z)
    return z

def ZI(x):
    z = Z(x)
    if z3.is_bool(z): return z3.If(z, z3.IntVal(1), z3.IntVal(0))
    if z.sort() == z3.RealSort(): raise Unsupported('real where int expected: %s' % z)
    return z

def num(x):
    """bool -> int"""
    if isinstance(x, bool): return int(x)
    if is_sym(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x

def coerce(a, b):
    a, b = Z(num(a)), Z(num(b))
    if a.sort() != b.sort(): a, b = ZR(a), ZR(b)
    return a, b

def zand(*xs):
    out = []
    for x in xs:
        if x is True or (is_sym(x) and z3.is_true(x)): continue
        if x is False: return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*[Z(o) for o in out])

def zor(*xs):
    out = []
    for x in xs:
        if x is False or (is_sym(x) and z3.is_false(x)): continue
        if x is True: return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*[Z(o) for o in out])

def znot(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)

def zimp(a, b):
    if a is True: return b
    if a is False: return True
    if b is True: return True
    return z3.Implies(Z(a), Z(b))

def zeq(a, b):
    if is_conc(a) and is_conc(b): return a == b
    a, b = coerce(a, b) if not (is_sym(a) and not z3.is_arith(a) and not z3.is_bool(a)) else (a, b)
    if a.eq(b): return True
    return a == b

def zlt(a, b):
    if is_conc(a) and is_conc(b): return a < b
    if a == INF if isinstance(a, float) else False: return False
    if b == INF if isinstance(b, float) else False: return True
    if a == -INF if isinstance(a, float) else False: return True
    if b == -INF if isinstance(b, float) else False: return False
    a, b = coerce(a, b); return a < b

def zle(a, b):
    if is_conc(a) and is_conc(b): return a <= b
    if isinstance(a, float) and a == INF: return False
    if isinstance(b, float) and b == INF: return True
    if isinstance(a, float) and a == -INF: return True
    if isinstance(b, float) and b == -INF: return False
    a, b = coerce(a, b); return a <= b

def zadd(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b): return a + b
    if is_conc(a) and a == 0 and not (isinstance(a, Fraction) and False): return b
    if is_conc(b) and b == 0: return a
    a, b = coerce(a, b); return a + b

def zneg(a):
    a = num(a)
    if is_conc(a): return -a
    return -a

def zsub(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b): return a - b
    if is_conc(b) and b == 0: return a
    a, b = coerce(a, b); return a - b

def zmul(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b): return a * b
    if is_conc(a) and a == 1: return b
    if is_conc(b) and b == 1: return a
    a, b = coerce(a, b); return a * b

def zdiv(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        if b == 0: raise Unsupported('division by constant zero')
        if isinstance(a, float) or isinstance(b, float): return a / b
        return Fraction(a) / Fraction(b)
    if is_conc(b) and b == 1: return a if not (is_sym(a) and a.sort() == z3.IntSort()) else z3.ToReal(a)
    return ZR(a) / ZR(b)

def zite(c, a, b):
    if c is True: return a
    if c is False: return b
    if is_conc(a) and is_conc(b) and type(a) == type(b) and a == b: return a
    if is_boolv(a) and is_boolv(b): return z3.If(c, Z(a), Z(b))
    if is_sym(a) and is_sym(b) and a.sort() == b.sort():
        if a.eq(b): return a
        return z3.If(c, a, b)
    a, b = coerce(a, b)
    return z3.If(c, a, b)

# ----------------------------------------------------------------- mutable values

class Mut(object):
    """mutable heap value; registered with the interpreter for snapshots"""
    def save(self): raise NotImplementedError
    def restore(self, s): raise NotImplementedError

class ListV(Mut):
    """list: sequence of segments ('e', value) or ('s', n, get) with n an int or z3 Int"""
    def __init__(self, I, items=()):
        self.segs = [('e', x) for x in items]; self.id = uid(); I.register(self)
    @classmethod
    def sym(cls, I, n, get):
        l = cls(I); c = asint_const(n)
        if c is not None and c <= 64: l.segs = [('e', get(i)) for i in range(c)]
        else: l.segs = [('s', n, get)]
        return l
    def save(self): return list(self.segs)
    def restore(self, s): self.segs = list(s)
    def concrete(self): return all(s[0] == 'e' for s in self.segs)
    def items(self):
        if not self.concrete(): raise Unsupported('concrete list expected')
        return [s[1] for s in self.segs]
    def length(self):
        n = 0
        for s in self.segs: n = zadd(n, 1 if s[0] == 'e' else s[1])
        return simp(n)
    def __repr__(self): return 'ListV%r' % (self.segs,)

BORN = {}     # generic index of a loop -> uid when it was introduced
PLAIN = {'cls', 'fields', 'id', 'tag', 'derived', 'd'}
def fields_of(o): return o.d if isinstance(o, DictV) else o.fields
def fields_differ(o, was):
    """whether the fields of o are no longer those of `was`"""
    F = fields_of(o)
    for kx in set(F) | set(was):
        a, b = was.get(kx, UNDEF), F.get(kx, UNDEF)
        if a is b: continue
        if a is UNDEF and getattr(o, 'lazy', None) is not None: continue
        if is_num(a) and is_num(b) and type(a) == type(b) and (a.eq(b) if is_sym(a) else a == b): continue
        if isinstance(a, str) and isinstance(b, str) and a == b: continue
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func and a.self_ is b.self_: continue
        return True
    return False

class ElemCache(Mut):
    """identity of the mutable elements of symbolic sequences: a second access with the same index gives the same object; elements changed in place are remembered"""
    def __init__(self, I): self.c = {}; self.spoiled = {}; I.register(self)
    def save(self): return (dict(self.c), dict(self.spoiled))
    def restore(self, s): self.c = dict(s[0]); self.spoiled = dict(s[1])
    @staticmethod
    def key(i): return i if not is_sym(i) else ('z', z3.simplify(ZI(i)).sexpr())
    @staticmethod
    def differs(a, d): return a._data is not d if isinstance(a, Arr) else fields_differ(a, d)
    def get(self, I, f, i):
        m = self.c.get(id(f))
        if m is not None and self.key(i) in m[1]: return m[1][self.key(i)][1]
        if id(f) in self.spoiled: raise Unsupported('element of a sequence whose elements were changed in place in a loop')
        u = uid(); v = f(i)
        if isinstance(v, (ObjV, DictV)):
            if v.id < u: return v          # one object, not one per index
            v.derived = False; d = dict(fields_of(v))
        elif isinstance(v, Arr) and v.base is None: d = v._data
        else: return v
        if m is not None:
            for j, a, was in m[1].values():
                if self.differs(a, was) and not I.check(Z(znot(zeq(ZI(j), ZI(i)))), 3000): raise Unsupported('element of a sequence, possibly one changed in place')
        new = dict(m[1]) if m is not None else {}; new[self.key(i)] = (i, v, d); self.c[id(f)] = (f, new); return v
    def changed(self, I):
        """(sequence, index) -> (getter, element, what it was) of the elements changed in place"""
        return {(id(f), kx): (f, a, d) for f, m in self.c.values() for kx, (j, a, d) in m.items() if self.differs(a, d)}

class TupV(object):
    """immutable sequence of symbolic length (tuple(row)); vec is the Row term when known"""
    def __init__(self, n, get, vec=None):
        self.n = n; self.get = get; self.vec = vec

class DictV(Mut):
    derived = False        # a copy standing for an element of a sequence: not to be changed in place
    def __init__(self, I, d=None):
        self.d = dict(d or {}); self.id = uid(); I.register(self)
    def own(self):
        if self.derived: raise Unsupported('entry of an element reached through a copy')
        return self.d
    def save(self): return dict(self.d)
    def restore(self, s): self.d = dict(s)

class SetV(Mut):
    """set of row tuples / scalars given by its characteristic function"""
    def __init__(self, I, mem=None, kind=None):
        self.mem = mem; self.kind = kind; I.register(self)   # kind: 'row' | 'int' | 'real'
    def save(self): return (self.mem, self.kind)
    def restore(self, s): self.mem, self.kind = s

class ObjV(Mut):
    def __init__(self, I, cls, fields=None, tag=None):
        self.cls = cls; self.fields = dict(fields or {}); self.id = uid(); self.tag = tag; I.register(self)
    def save(self): return dict(self.fields)
    def restore(self, s): self.fields = dict(s)
    def __repr__(self): return '<%s #%d %s>' % (getattr(self.cls, 'name', self.cls), self.id, self.tag or '')

class Env(Mut):
    def __init__(self, I, parent=None, module=None, func=None):
        self.vars = {}; self.parent = parent; self.module = module; self.func = func; I.register(self)
    def save(self): return dict(self.vars)
    def restore(self, s): self.vars = dict(s)

class Arr(Mut):
    """numpy array: shape (ints / z3 Ints) and content function of the indices.
    row(i) (2-d) or vec (1-d): the Row term this row equals, when the array is known row-wise.
    A view has a base, vf (content of the base -> content of the view) and wb (write back)."""
    def __init__(self, I, shape, data=None, row=None, vec=None, dtype='real', base=None, vf=None, wb=None):
        self.I = I
        self.shape = tuple(simp(s) for s in shape); self._data = data; self.row = row; self.vec = vec
        self.dtype = dtype; self.id = uid(); self.base = base; self.vf = vf; self.wb = wb
        self.views = []
        self.parts = None        # vstack provenance: list of Arr
        self.masksel = None      # (mask closure, full data closure): result of selecting with a mask
        self.cols = None         # symbolic column list provenance
        if base is not None: base.views.append(self)
        I.register(self)
    @property
    def data(self):
        if self.base is not None: return self.vf(self.base.data)
        return self._data
    @property
    def ndim(self): return len(self.shape)
    def save(self): return (self.shape, self._data, self.row, self.vec, self.dtype, self.parts, self.masksel, len(self.views), self.base, self.vf, self.wb)
    def restore(self, s):
        self.shape, self._data, self.row, self.vec, self.dtype, self.parts, self.masksel, n, self.base, self.vf, self.wb = s
        del self.views[n:]
    def clear(self):
        self.row = None; self.vec = None; self.parts = None; self.masksel = None
        for v in self.views: v.clear()
    def set(self, data):
        if self.base is not None:
            if self.wb is None: raise Unsupported('write through a view')
            self.base.set(self.wb(data, self.base.data))
            self.clear()
            return
        self._data = data; self.clear()
    def at(self, *idx): return self.data(*idx)
    def __repr__(self): return '<Arr #%d %s>' % (self.id, self.shape)

class AltV(object):
    """one of two arrays of different dimensions, depending on a condition; only usable where numpy makes the dimensions equal (vstack)"""
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

class FuncV(object):
    def __init__(self, node, env, module, name, qual, cls=None, defaults=None, static=False):
        self.node = node; self.env = env; self.module = module; self.name = name; self.qual = qual
        self.cls = cls; self.defaults = defaults or {}; self.static = static
    def __repr__(self): return '<func %s>' % self.qual

class ClassV(object):
    def __init__(self, name, qual, module, node):
        self.name = name; self.qual = qual; self.module = module; self.node = node
        self.attrs = {}; self._bases = None
    def __repr__(self): return '<class %s>' % self.qual

class BoundV(object):
    def __init__(self, func, self_): self.func = func; self.self_ = self_

class Native(object):
    def __init__(self, name, fn): self.name = name; self.fn = fn
    def __repr__(self): return '<native %s>' % self.name

class ExtV(object):
    """attribute path into an external library"""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<ext %s>' % self.name

class ModV(object):
    def __init__(self, name, path, tree):
        self.name = name; self.path = path; self.tree = tree; self.globals = {}

class SuperV(object):
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj

class RangeV(object):
    def __init__(self, lo, hi, step=1): self.lo = lo; self.hi = hi; self.step = step

class IterV(object):
    """iterable of symbolic length n with getter"""
    def __init__(self, n, get): self.n = n; self.get = get

class SliceV(object):
    def __init__(self, lo, hi, step): self.lo = lo; self.hi = hi; self.step = step

class ExcV(object):
    def __init__(self, clsname, args=()): self.clsname = clsname; self.args = args

class Opaque(object):
    """value we never look into (strings built by formatting, files, ...)"""
    def __init__(self, what): self.what = what
    def __repr__(self): return '<opaque %s>' % self.what
