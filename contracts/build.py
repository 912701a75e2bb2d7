"""Contracts of the construction of a search space: Design_space.__init__ and the expansion of the declared variables
(GPyOpt/core/task/space.py, variables.py).  They establish what contracts/space.py says about a space: one one-dimensional variable
per declared coordinate in declaration order, model columns laid out one after another, and the totals."""
from .lib import *
from .space import SpaceM, SymEnum, KINDS, S
V = 'GPyOpt.core.task.variables.'

def log1(I, o, nm, v):
    o.fields[nm] = NP.concat(I, [o.fields[nm], mk(I, (1,), lambda i: v)], 0)
def empty(I): return mk(I, (0,), lambda i: z3.RealVal(0))

# --- _compute_variables_indices
def index_variable(I, sp, g, k):
    """the k-th one-dimensional variable; setting its positions is checked and recorded"""
    k = ZI(k); o = stub(I, 'Variable')
    o.fields.update(type=SymEnum(sp.kind(k), KINDS), dimensionality=1, dimensionality_in_model=sp.md(k), domain=TupV(sp.dn(k), lambda i: sp.dv(k, ZI(i))))
    o.substf = lambda I2, pairs: index_variable(I2, sp, g, NP.subst_term(k, pairs))
    def obj(I2, v):
        I2.prove(zand(zeq(seqlen(v), 1), zeq(item(I2, v, 0), k)), 'position of a variable in the objective space: its rank'); log1(I2, g, 'obj', z3.ToReal(k))
    def model(I2, v):
        I2.prove(simp(Z(zeq(seqlen(v), sp.md(k)))), 'one model column per numeric variable, one per category')
        with I2.gen(sp.md(k)) as j:
            with I2.hyp(True): I2.prove(zeq(item(I2, v, j), zadd(sp.off(k), j)), 'model columns follow those of the variables before')
        log1(I2, g, 'model', z3.ToReal(k))
    o.fields.update(set_index_in_objective=native('set_index_in_objective', obj), set_index_in_model=native('set_index_in_model', model))
    def setattrf(I2, nm, v):
        if nm == 'index_in_objective': obj(I2, v)
        elif nm == 'index_in_model': model(I2, v)
        else: raise Unsupported('field %s of an abstract variable' % nm)
    o.setattrf = setattrf
    return o
def s_idx(I):
    sp = SpaceM(I); g = I.bg = stub(I, 'ghost', obj=empty(I), model=empty(I)); I.bsp = sp
    l = ListV(I); l.segs = [('s', sp.D, lambda k: index_variable(I, sp, g, k))]
    return [newobj(I, S, space_expanded=l)]
def h_idx(I, view):
    sp = I.bsp; out = []
    for L in view.of_kind('int'):
        out.append(('%s counts the variables' % L.name, lambda st, k, L=L: zeq(st[L.key], k)))
        out.append(('%s is the next model column' % L.name, lambda st, k, L=L: zeq(st[L.key], sp.off(ZI(k)))))
    return out
def p_idx(I, em, a, r):
    g, sp = I.bg.fields, I.bsp
    for nm, what in (('obj', 'objective'), ('model', 'model')):
        A = g[nm]; em('every variable gets its %s position once' % what, zeq(A.shape[0], sp.D))
        em.forall([sp.D], lambda k: zeq(A.data(k), z3.ToReal(ZI(k))), '%s positions are those of the variables, in order' % what)
indices = Contract(S + '._compute_variables_indices', s_idx, p_idx, hooks={S + '._compute_variables_indices': h_idx})
ALL = [indices]

# --- expansion of a declared variable into one-dimensional ones
def same_domain(I, a, b):
    """a and b list the same numbers"""
    if a is b: return True
    n, m = seqlen(a), seqlen(b); t = zeq(n, m)
    if isinstance(a, tuple) and isinstance(b, tuple): return zand(t, *[zeq(x, y) for x, y in zip(a, b)])
    i = z3.Int('sd!%d' % uid()); return zand(t, z3.ForAll([i], Z(zimp(zand(0 <= i, zlt(i, m)), zeq(item(I, a, i), item(I, b, i))))))
def s_expand(cls, many):
    def f(I):
        n = integer(I, 'dim', 2) if many else 1
        if cls == 'Continuous': lo, hi = real(I, 'lo'), real(I, 'hi'); I.assume(lo <= hi); d = (lo, hi)
        elif cls == 'Discrete': d = tupv(I, integer(I, 'm', 1), 'dv')
        else: d = TupV(integer(I, 'm', 1), lambda i: i)
        v = newobj(I, V + cls + 'Variable', name=I.bname, type=cls.lower(), domain=d, dimensionality=n)
        I.bdom, I.bdim = d, n
        return [v]
    def g(I): I.bname = Opaque('str'); I.bname.strof = stub(I, 'its name'); return f(I)
    return g
def p_expand(cls):
    def f(I, em, a, r):
        d, n = I.bdom, I.bdim; v = a[0]
        em('one variable per declared coordinate', zeq(seqlen(r), n))
        em('the declared variable keeps its name', v.fields['name'] is I.bname)
        em('the declared variable keeps its dimensionality and domain', zand(zeq(v.fields['dimensionality'], n), v.fields['domain'] is d))
        with I.gen(n) as i:
            with I.hyp(True):
                x = item(I, r, i)
                if not isinstance(x, ObjV): em('a variable', False); return
                em('a variable of the same class', isinstance(x.cls, ClassV) and x.cls.qual == V + cls + 'Variable' and x.fields['type'] == cls.lower())
                ps = NP.strparts(x.fields['name']) if isinstance(x.fields['name'], (str, Opaque)) else []; flat = ''.join(q if isinstance(q, str) else '*' for q in ps); vs = [q[1] for q in ps if not isinstance(q, str)]
                em('named after it (and the rank of the coordinate)', x.fields['name'] is I.bname if is_conc(n) and n == 1 else zand(flat == '*_*', *[zeq(vs[1], zadd(i, 1)), vs[0] is I.bname.strof] if flat == '*_*' and is_num(vs[1]) else [False]))
                em('with the declared values', same_domain(I, x.fields['domain'], d))
                em('of one coordinate', zeq(x.fields['dimensionality'], 1))
                em('with one model column (one per category)', zeq(x.fields.get('dimensionality_in_model'), seqlen(d) if cls == 'Categorical' else 1))
    return f
EXPAND = [Contract(V + ('CategoricalVariable' if c == 'Categorical' else 'Variable') + '.expand', s_expand(c, m), p_expand(c), name=V + c + 'Variable.expand (%s)' % ('several coordinates' if m else 'one coordinate')) for c in ('Continuous', 'Discrete', 'Categorical') for m in (False, True)]
ALL = [indices] + EXPAND

# --- _expand_space: the expanded variables of the declared ones, one after another
def declared(I, k):
    """the k-th declared variable: dims(k) coordinates; expand() lists its one-dimensional variables (EXPAND above)"""
    k = ZI(k); dims = I.bdims; o = stub(I, 'Variable', dimensionality=dims(k), rank=k)
    o.fields.update(expand=native('expand', lambda I2: ListV.sym(I2, dims(k), lambda i: coordinate(I2, k, i))), is_bandit=native('is_bandit', lambda I2: False))
    o.substf = lambda I2, pairs: declared(I2, NP.subst_term(k, pairs)); return o
def coordinate(I, k, i):
    k, i = ZI(k), ZI(i); o = stub(I, 'Variable', of=k, coord=i)
    o.substf = lambda I2, pairs: coordinate(I2, NP.subst_term(k, pairs), NP.subst_term(i, pairs)); return o
def s_exps(I):
    n = I.bn = integer(I, 'nvars', 1); dims = I.bdims = I.fresh('dims', 'Int', ['Int']); I.assume_forall([n], lambda k: dims(k) >= 1); I.boff = NP.prefix(I, n, lambda k: dims(ZI(k)))[0]
    I.contracts[S + '._expand_config_space'] = lambda I2, b, fv: None
    l = ListV(I); l.segs = [('s', n, lambda k: declared(I, k))]; return [newobj(I, S, space=l)]
def p_exps(I, em, a, r):
    l = I.getattr(a[0], 'space_expanded'); off = I.boff
    em('as many as there are coordinates', zeq(seqlen(l), off(I.bn)))
    with I.gen(I.bn) as k:
        with I.gen(I.bdims(k)) as i:
            with I.hyp(True):
                x = item(I, l, simp(zadd(off(k), i))); ok = isinstance(x, ObjV) and 'of' in x.fields; em('variables', ok)
                if ok: em('each variable contributes its coordinates, after those of the variables before it', zand(zeq(x.fields['of'], k), zeq(x.fields['coord'], i)))
expand_space = Contract(S + '._expand_space', s_exps, p_exps)

# --- _expand_config_space: one descriptor per coordinate
class Desc(object):
    """n descriptors; which optional keys they have, and their values, are arbitrary"""
    def __init__(self, I, n):
        self.n = n; F = lambda nm, s: I.fresh(nm, s, ['Int']); self.has = {k: F('has_' + k, 'Bool') for k in ('name', 'type', 'domain', 'dimensionality')}; self.dims = F('dims', 'Int')
        self.type = F('type', 'Int'); self.val = {}
TYPES = ['continuous', 'discrete', 'bandit', 'categorical']
def dict_of(I, D, k):
    k = ZI(k); v = lambda nm: stub_of(I, nm, k)
    d = DictV(I, {'name': nameof(I, k), 'type': SymEnum(D.type(k), TYPES), 'domain': v('domain'), 'dimensionality': D.dims(k)}); return d
def nameof(I, k):
    o = Opaque('str'); o.parts = [('val', ZI(k))]; return o
def stub_of(I, nm, k):
    o = stub(I, nm, of=k); o.substf = lambda I2, pairs: stub_of(I2, nm, NP.subst_term(k, pairs)); return o
def s_cfg(given):
    def f(I):
        n = I.bn = integer(I, 'nvars', 1); D = I.bd = Desc(I, n); I.assume_forall([n], lambda k: D.dims(k) >= 1); I.boff = NP.prefix(I, n, lambda k: D.dims(ZI(k)))[0]
        def desc(k):
            d = dict_of(I, D, k)
            if not given: del d.d['dimensionality']
            return d
        l = ListV(I); l.segs = [('s', n, desc)]; return [newobj(I, S, config_space=l)]
    return f
def p_cfg(given):
    def f(I, em, a, r):
        l = I.getattr(a[0], 'config_space_expanded'); D = I.bd; dims = (lambda k: D.dims(ZI(k))) if given else (lambda k: z3.IntVal(1)); off = I.boff if given else lambda k: k
        em('one descriptor per coordinate', zeq(seqlen(l), off(I.bn)))
        with I.gen(I.bn) as k:
            with I.gen(dims(k)) as i:
                with I.hyp(True):
                    x = item(I, l, simp(zadd(off(k), i))); ok = isinstance(x, DictV); em('a descriptor', ok)
                    if not ok: return
                    em('of the same type and domain', zand(zeq(x.d['type'].term, D.type(k)), zeq(x.d['domain'].fields['of'], k)))
                    if given:
                        em('of one coordinate', zeq(x.d['dimensionality'], 1))
                        ps = NP.strparts(x.d['name']); vs = [q[1] for q in ps if not isinstance(q, str)]; em('named after the variable and the rank of the coordinate', zand(''.join(q if isinstance(q, str) else '*' for q in ps) == '*_*', *[zeq(p, q) for p, q in zip(vs, (k, zadd(i, 1)))]))
        c = I.getattr(a[0], 'config_space')
        with I.gen(I.bn) as k:
            with I.hyp(True): x = item(I, c, k); em('the given descriptors are not changed', zand(zeq(x.d['dimensionality'], D.dims(k)) if given else 'dimensionality' not in x.d, zeq(x.d['type'].term, D.type(k)), NP.same_text(x.d['name'], nameof(I, k))))
    return f
expand_config = [Contract(S + '._expand_config_space', s_cfg(g), p_cfg(g), name=S + '._expand_config_space (%s)' % ('dimensionality given' if g else 'no dimensionality')) for g in (True, False)]
ALL = [indices] + EXPAND + [expand_space] + expand_config

# --- _translate_space: one declared variable per descriptor
def made(I, k):
    """what create_variable makes of the k-th descriptor (contract in cfg.py)"""
    k = ZI(k); D = I.bd; ban = lambda: zeq(I.btype(k), 2)
    o = stub(I, 'Variable', of=k, dimensionality=D.dims(k), type=SymEnum(I.btype(k), TYPES), is_bandit=native('is_bandit', lambda I2: I.btype(k) == 2), is_continuous=native('is_continuous', lambda I2: I.btype(k) == 0))
    o.ident = k; o.substf = lambda I2, pairs: made(I2, NP.subst_term(k, pairs)); return o
def s_tr(have, mixed=None):
    def f(I):
        n = I.bn = integer(I, 'nvars', 1); D = I.bd = Desc(I, n); I.btype = (lambda k: D.type(ZI(k))) if 'type' in have else lambda k: z3.IntVal(0)
        I.assume_forall([n], lambda k: zand(D.dims(k) >= 1, 0 <= D.type(k), D.type(k) < 4)); I.boff = NP.prefix(I, n, lambda k: D.dims(ZI(k)))[0]
        def desc(k):
            d = dict_of(I, D, k)
            for q in ('name', 'type', 'domain'):
                if q not in have: del d.d[q]
            return d
        l = ListV(I); l.segs = [('s', n, desc)]
        def create(I2, b, fv):
            d = b['descriptor']; k = d.d['dimensionality'] if isinstance(d, DictV) else None
            if not isinstance(d, DictV): raise Unsupported('descriptor')
            q = d.d['domain'].fields['of']; nm = d.d['name']; t = d.d['type']
            I2.prove(zand(zeq(d.d['dimensionality'], D.dims(q)), zeq(t.term, I.btype(q)) if isinstance(t, SymEnum) else t == TYPES[0] and 'type' not in have), 'created with the declared type and dimensionality')
            ps = NP.strparts(nm); I2.prove(zand(len(ps) == 1, zeq(ps[0][1], q)) if 'name' in have else zand(len(ps) == 2, ps[0] == 'var_', zeq(ps[-1][1], q)), 'created with the declared name, or one from its rank')
            return made(I2, q)
        I.contracts[V + 'create_variable'] = create
        return [newobj(I, S), l]
    return f
def h_tr(I, view):
    out = []; n = view.n; js = z3.Int('j')
    for L in view.of_kind('bool'):
        for c in range(4):
            def pred(st, k, L=L, c=c):
                j = z3.Int('ht!%d' % uid()); return zeq(st[L.key], z3.Exists([j], z3.And(0 <= j, j < ZI(k), I.btype(j) == c)))
            out.append(('%s says whether type %d occurred' % (L.name, c), pred))
    return out
def p_tr(have):
    def f(I, em, a, r):
        s = a[0].fields; D, n = I.bd, I.bn; l = s['space']; ban = lambda k: I.btype(k) == 2
        em('one variable per descriptor', zeq(seqlen(l), n))
        with I.gen(n) as k:
            with I.hyp(True): x = item(I, l, k); em('in the declared order', zand('of' in x.fields, zeq(x.fields.get('of', -1), k)))
        em('the raw dimensionality is the number of coordinates', zeq(s['dimensionality'], I.boff(n)))
        for c, t in enumerate(TYPES):
            j = z3.Int('hp!%d' % uid()); em('has_types[%s]: whether there is such a variable' % t, zeq(s['has_types'].d[t], z3.Exists([j], z3.And(0 <= j, j < n, I.btype(j) == c))))
        em.forall([n, n], lambda i, k: zimp(ban(i), ban(k)), 'bandit variables are not mixed with others')
        with I.gen(n) as k:
            with I.hyp(True): x = item(I, a[1], k); em('the given descriptors are not changed', zand(set(x.d) == set(have) | {'dimensionality'}, zeq(x.d['dimensionality'], D.dims(k)), True if 'name' not in have else NP.same_text(x.d['name'], nameof(I, k))))
    return f
def x_tr(I, em, a, e):
    em('rejected only when bandit and other variables are mixed', zand(e.clsname == 'InvalidConfigError', exists(I, 'Int', lambda i: zand(0 <= i, i < I.bn, I.btype(i) == 2)), exists(I, 'Int', lambda i: zand(0 <= i, i < I.bn, znot(I.btype(i) == 2)))))
TRANSLATE = [Contract(S + '._translate_space', s_tr(h), p_tr(h), raises=x_tr, hooks={S + '._translate_space': h_tr}, name=S + '._translate_space (%s)' % w) for h, w in ((('name', 'type', 'domain'), 'names and types given'), (('type', 'domain'), 'no names'), (('name', 'domain'), 'no types'))]
TRANSLATE += [Contract(S + '._translate_space', s_tr(('name', 'type')), lambda I, em, a, r: em('rejected', False), raises=lambda I, em, a, e: em('rejected with InvalidConfigError', e.clsname == 'InvalidConfigError'), name=S + '._translate_space (no domain)')]
ALL = [indices] + EXPAND + [expand_space] + expand_config + TRANSLATE

# --- __init__: the parts in order, the totals, the constraints
def sized(I, sp, k):
    k = ZI(k); o = stub(I, 'Variable', dimensionality_in_model=sp.md(k)); o.substf = lambda I2, pairs: sized(I2, sp, NP.subst_term(k, pairs)); return o
def s_init(cons):
    def f(I):
        sp = I.bsp = SpaceM(I); g = I.bg = stub(I, 'ghost', log=[]); I.bcfg = stub(I, 'descriptors')
        def part(nm):
            def c(I2, b, fv):
                if nm == '_translate_space': I2.prove(b['space'] is I.bcfg, 'the descriptors given are translated')
                if nm == '_expand_space': b['self'].fields['space_expanded'] = ListV.sym(I2, sp.D, lambda k: sized(I2, sp, k))
                g.fields['log'] = g.fields['log'] + [nm]
            I.contracts[S + '.' + nm] = c
        for nm in PARTS: part(nm)
        n = I.bn = integer(I, 'ncons', 1)
        con = lambda key, k: DictV(I, {'name': 'c', key: stub_of(I, 'text', ZI(k))})
        c = None if cons is None else ListV.sym(I, n, lambda k: con(cons, k)) if cons != 'both' else ListV(I, [con('constraint', 0), con('constrain', 1)])
        I.bc = c; I.bst = stub(I, 'store'); return [I.bcfg, c, I.bst]
    return f
PARTS = ('_translate_space', '_expand_space', '_compute_variables_indices', '_create_variables_dic')
def p_init(cons):
    def f(I, em, a, r):
        F, sp = r.fields, I.bsp
        L = I.bg.fields['log']; em('variables are translated, expanded, placed and named, once each', sorted(L) == sorted(PARTS) and L.index('_translate_space') < L.index('_expand_space') < min(L.index('_compute_variables_indices'), L.index('_create_variables_dic')))
        em('the configuration is kept', F['config_space'] is I.bcfg and F['store_noncontinuous'] is I.bst)
        em('objective dimensionality: the number of one-dimensional variables', zeq(F['objective_dimensionality'], sp.D))
        l = F['model_input_dims']; em('one model width per variable', zeq(seqlen(l), sp.D)); em.forall([sp.D], lambda k: zeq(item(I, l, k), sp.md(k)), 'widths of the variables')
        em('model dimensionality: the sum of the widths', zeq(F['model_dimensionality'], sp.MD))
        c = F['constraints']
        if cons is None: em('no constraints', c is None); return
        m = 2 if cons == 'both' else I.bn; em('the constraints given', zand(isinstance(c, ListV), zeq(seqlen(c), m)))
        with I.gen(m) as k:
            with I.hyp(True):
                for q in range(m) if is_conc(m) else [k]:
                    x = item(I, c, q); t = x.d.get('constraint') if isinstance(x, DictV) else None; em('each with its text under "constraint"', isinstance(t, ObjV) and zeq(t.fields.get('of', -1), q))
    return f
INIT = [Contract(S, s_init(c), p_init(c), name=S + ' (%s)' % w) for c, w in ((None, 'no constraints'), ('constraint', 'constraints'), ('constrain', 'constraints, old spelling'), ('both', 'one constraint of each spelling'))]
ALL = [indices] + EXPAND + [expand_space] + expand_config + TRANSLATE + INIT

# --- bandits: one variable for all the coordinates of the arms
from . import variables as VV
def s_be(I):
    v, m, d, A = VV.bandit(I); I.bb = (m, d, A); v.fields['name'] = I.bname = Opaque('str'); return [v]
def same_arms(I, em, x, name):
    m, d, A = I.bb; D = x.fields['domain']; ok = isinstance(D, Arr) and D.ndim == 2; em('the arms of the variable are an array', ok)
    if not ok: return
    em('as many arms, of the same length', zand(zeq(D.shape[0], m), zeq(D.shape[1], d))); em.forall([m, d], lambda i, j: zeq(D.data(i, j), A.data(i, j)), 'the declared arms')
    em('a bandit of that name', isinstance(x.cls, ClassV) and x.cls.qual == V + 'BanditVariable' and x.fields['type'] == 'bandit' and x.fields['name'] is name); em('one coordinate per entry of an arm', zeq(x.fields['dimensionality'], d))
def p_be(I, em, a, r):
    em('one variable', zeq(seqlen(r), 1)); x = item(I, r, 0); same_arms(I, em, x, I.bname); em('one model column per coordinate', zeq(x.fields.get('dimensionality_in_model', -1), I.bb[1]))
def s_bi(even):
    def f(I):
        m, d = integer(I, 'arms', 1), integer(I, 'd', 1); I.bname = 'v'
        if even: A = mat(I, m, d, 'arm'); I.bb = (m, d, A); dom = ListV.sym(I, m, lambda i: TupV(d, lambda j: A.data(i, j)))
        else:
            ln, g = I.fresh('len', 'Int', ['Int']), I.fresh('arm', 'Real', ['Int', 'Int']); I.assume_forall([m], lambda k: ln(k) >= 1); w = integer(I, 'w', 0); I.assume(zand(w < m, znot(ln(w) == ln(0))))
            dom = ListV.sym(I, m, lambda i: TupV(ln(ZI(i)), lambda j: g(ZI(i), ZI(j))))
        return [I.bname, dom]
    return f
BANDIT = [Contract(V + 'BanditVariable.expand', s_be, p_be), Contract(V + 'BanditVariable', s_bi(True), lambda I, em, a, r: same_arms(I, em, r, I.bname)),
          Contract(V + 'BanditVariable', s_bi(False), lambda I, em, a, r: em('arms of different lengths are rejected', False), raises=lambda I, em, a, e: em('with InvalidConfigError', e.clsname == 'InvalidConfigError'), name=V + 'BanditVariable (arms of different lengths)')]
ALL = [indices] + EXPAND + [expand_space] + expand_config + TRANSLATE + INIT + BANDIT
