"""Contracts of the selection of components by name and of configuration merging (arguments_manager, select_*, create_variable, config_parser, driver, BayesianOptimization)."""
from .lib import *
AM = 'GPyOpt.util.arguments_manager.ArgumentsManager'
# --- arbitrary settings: a dictionary in which every key may or may not be present, with an arbitrary value
class Kw(object):
    """settings the user may or may not give; a value is a token that says which key it is and what stands in for it when it is absent"""
    def __init__(self, I, **typed):
        kw = self; self.obj = o = stub(I, 'settings'); self.present = {}
        def has(I2, key):
            if not isinstance(key, str): raise Unsupported('setting %r' % (key,))
            if key not in kw.present: kw.present[key] = z3.Bool('given_%s!%d' % (key, uid()))
            return kw.present[key]
        def tok(I2, key, default): t = stub(I2, 'setting %s' % key); t.setting = (key, default); t.isinstf = lambda I3, c: I3.fresh('isinst', 'Bool'); t.cmpf = lambda I3, op, a, b: I3.fresh('cmp', 'Bool'); return t
        def get(I2, key, default=None): has(I2, key); return tok(I2, key, default)
        def item_(I2, _, key):
            if not I2.branch(has(I2, key)): raise PyRaise('KeyError', (key,))
            return tok(I2, key, 'given')
        o.containsf = has; o.getitemf = item_; o.fields['get'] = native('get', get); o.isinstf = lambda I2, c: getattr(c, 'name', None) == 'dict'
    def want(self, I, em, v, key, default):
        """v is the value given under key, or the default when none is given"""
        s = getattr(v, 'setting', None)
        if s is not None: em('%s: the value given' % key, s[0] == key); em('%s: its default otherwise' % key, s[1] == 'given' or same(s[1], default))
        else: em('%s: the value given, its default otherwise' % key, zand(znot(self.present.get(key, z3.BoolVal(True))), same(v, default)))
def same(a, b):
    if a is b: return True
    if a is None or b is None or isinstance(a, (str, ObjV)) or isinstance(b, (str, ObjV)): return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, bool) or isinstance(b, bool): return isinstance(a, bool) and isinstance(b, bool) and a == b or (is_sym(a) or is_sym(b)) and Z(a) == Z(b)
    return zeq(a, b)
def unknown(I, names):
    """an arbitrary name that is not one of the documented ones"""
    u = stub(I, 'unknown name'); memo = {}
    def cmp(I2, op, a, b):
        o = b if a is u else a
        if op not in ('Eq', 'NotEq'): raise Unsupported('order of names')
        if o is u: r = True
        elif o is None or not isinstance(o, str) or o in names: r = False
        else: r = memo.setdefault(o, z3.Bool('name_is_%s!%d' % (o, uid())))
        return znot(r) if op == 'NotEq' else r
    u.cmpf = cmp; u.isinstf = lambda I2, c: getattr(c, 'name', None) in ('str', 'six.string_types', 'object'); return u
REJECT = lambda I, em, a, r: em('an unknown name is rejected', False)
def rejected(I, em, a, e): em('rejected with an error that says so (%s)' % e.clsname, e.clsname not in ('AttributeError', 'NameError', 'UnboundLocalError', 'TypeError'))
def never(I, em, a, e): em('no error (%s)' % e.clsname, False)
# --- surrogates
G = 'GPyOpt.models.gpmodel.'; GPA = dict(kernel=('kernel', None), noise_var=('noise_var', None), optimizer=('model_optimizer_type', 'lbfgs'), max_iters=('max_iters', 1000), optimize_restarts=('optimize_restarts', 5), num_inducing=('num_inducing', 10), verbose=('verbosity_model', False), ARD=('ARD', False))
MCA = dict(kernel=('kernel', None), noise_var=('noise_var', None), n_samples=('n_samples', 10), n_burnin=('n_burnin', 100), subsample_interval=('subsample_interval', 10), step_size=('step_size', Fraction(1, 10)), leapfrog_steps=('leapfrog_steps', 20), verbose=('verbosity_model', False))
IWA = dict(kernel=('kernel', None), noise_var=('noise_var', None), optimizer=('model_optimizer_type', 'lbfgs'), max_iters=('max_iters', 1000), optimize_restarts=('optimize_restarts', 5), verbose=('verbosity_model', False), ARD=('ARD', False))
MODELS = {'GP': (G + 'GPModel', GPA, False), 'sparseGP': (G + 'GPModel', GPA, True), 'GP_MCMC': (G + 'GPModel_MCMC', MCA, None), 'RF': ('GPyOpt.models.rfmodel.RFModel', dict(verbose=('verbosity_model', False)), None), 'warpedGP': ('GPyOpt.models.warpedgpmodel.WarpedGPModel', {}, None), 'input_warped_GP': ('GPyOpt.models.input_warped_gpmodel.InputWarpedGPModel', IWA, None)}
def s_model(nm):
    def f(I):
        I.kw = Kw(I); I.cexact = I.fresh('exact', 'Bool'); I.cspace = stub(I, 'space', space=ListV(I)); return [newobj(I, AM, kwargs=I.kw.obj), unknown(I, MODELS) if nm is None else nm, I.cexact, I.cspace]
    return f
def p_model(nm):
    q, A, sparse = MODELS[nm]
    def post(I, em, a, m):
        em('the surrogate of that name', isinstance(m, ObjV) and m.cls is I.lookup_qual(q)); F = m.fields
        for at, (key, d) in A.items(): I.kw.want(I, em, F.get(at), key, d)
        if nm not in ('RF', 'warpedGP'): em('exact evaluations as asked for', same(F['exact_feval'], I.cexact))
        if sparse is not None: em('sparse exactly when named so', same(F['sparse'], sparse))
        if nm == 'input_warped_GP': em('over the given space', F['space'] is I.cspace)
    return post
MODEL = [Contract(AM + '.model_creator', s_model(nm), p_model(nm), raises=never, name=AM + '.model_creator (%s)' % nm) for nm in MODELS] + [Contract(AM + '.model_creator', s_model(None), REJECT, raises=rejected, name=AM + '.model_creator (unknown name)')]
# --- acquisitions
A_ = 'GPyOpt.acquisitions.'; ACQS = {None: 'EI.AcquisitionEI', 'EI': 'EI.AcquisitionEI', 'EI_MCMC': 'EI_mcmc.AcquisitionEI_MCMC', 'MPI': 'MPI.AcquisitionMPI', 'MPI_MCMC': 'MPI_mcmc.AcquisitionMPI_MCMC', 'LCB': 'LCB.AcquisitionLCB', 'LCB_MCMC': 'LCB_mcmc.AcquisitionLCB_MCMC'}
def s_acq(nm):
    def f(I):
        I.kw = Kw(I); I.cparts = (stub(I, 'model', analytical_gradient_prediction=True, MCMC_sampler=True), stub(I, 'space'), stub(I, 'optimizer'), native('cost', lambda I2, x: None)); m, s, o, c = I.cparts
        return [newobj(I, AM, kwargs=I.kw.obj), unknown(I, ACQS) if nm == '?' else nm, m, s, o, c]
    return f
def p_acq(nm):
    def post(I, em, a, r):
        m, s, o, c = I.cparts; em('the acquisition of that name', isinstance(r, ObjV) and r.cls is I.lookup_qual(A_ + ACQS[nm])); F = r.fields
        em('its model, space and optimizer', F.get('model') is m and F.get('space') is s and F.get('optimizer') is o)
        if nm is not None and nm.startswith('LCB'): I.kw.want(I, em, F.get('exploration_weight'), 'acquisition_weight', 2); em('no cost', I.getattr(r, 'cost_withGradients') is not c)
        else: I.kw.want(I, em, F.get('jitter'), 'acquisition_jitter', Fraction(1, 100)); em('the cost given', I.getattr(r, 'cost_withGradients') is c)
    return post
ACQ = [Contract(AM + '.acquisition_creator', s_acq(nm), p_acq(nm), raises=never, name=AM + '.acquisition_creator (%s)' % nm) for nm in ACQS] + [Contract(AM + '.acquisition_creator', s_acq('?'), REJECT, raises=rejected, name=AM + '.acquisition_creator (unknown name)')]
# --- evaluators
EV = 'GPyOpt.core.evaluators.'; EVS = {'sequential': 'sequential.Sequential', 'random': 'batch_random.RandomBatch', None: 'batch_random.RandomBatch', 'thompson_sampling': 'batch_thompson.ThompsonBatch', 'local_penalization': 'batch_local_penalization.LocalPenalization'}
GPS = ('GP', 'sparseGP', 'GP_MCMC', 'warpedGP')
def s_ev(nm, one, mt, lp):
    def f(I):
        I.kw = Kw(I); I.cparts = (stub(I, 'model'), stub(I, 'space'), stub(I, 'optimizer')); m, s, o = I.cparts; I.cb = 1 if one else integer(I, 'batch', 2)
        acq = newobj(I, A_ + ('LP.AcquisitionLP' if lp else 'EI.AcquisitionEI'), optimizer=o, model=m, space=s); I.cacq = acq
        def mklp(I2, b, fv): b['self'].fields.update(given={k: v for k, v in b.items() if k != 'self'})
        I.contracts[A_ + 'LP.AcquisitionLP.__init__'] = mklp
        return [newobj(I, AM, kwargs=I.kw.obj), unknown(I, EVS) if nm == '?' else nm, acq, I.cb, mt if mt is not None else unknown(I, GPS), m, s, o]
    return f
def p_ev(nm, one, mt, lp):
    def post(I, em, a, e):
        want = 'sequential.Sequential' if one else EVS[nm]; em('the evaluator of that name', isinstance(e, ObjV) and e.cls is I.lookup_qual(EV + want)); F = e.fields
        em('of the requested size', zeq(I.getattr(e, 'batch_size'), 1 if want == 'sequential.Sequential' else I.cb))
        acq = F.get('acquisition')
        if want.endswith('LocalPenalization') and not lp:
            em('a penalised acquisition', isinstance(acq, ObjV) and acq.cls is I.lookup_qual(A_ + 'LP.AcquisitionLP') and 'given' in acq.fields); g = acq.fields['given']; m, s, o = I.cparts
            em('of the given acquisition, model, space and optimizer', g['acquisition'] is I.cacq and g['model'] is m and g['space'] is s and g['optimizer'] is o); I.kw.want(I, em, g['transform'], 'acquisition_transformation', 'none')
        else: em('of the given acquisition', acq is I.cacq)
    return post
def lab(nm, one, mt, lp): return AM + '.evaluator_creator (%s, %s, %s%s)' % ('unknown name' if nm == '?' else nm, 'one point' if one else 'batch', mt or 'not a Gaussian process', ', penalised' if lp else '')
EVAL = [Contract(AM + '.evaluator_creator', s_ev(nm, one, mt, lp), p_ev(nm, one, mt, lp), raises=never, name=lab(nm, one, mt, lp)) for nm in EVS for one in (True, False) for mt in (GPS if nm == 'local_penalization' and not one else ('GP',)) for lp in ((False, True) if nm == 'local_penalization' and not one and mt == 'GP' else (False,))]
EVAL += [Contract(AM + '.evaluator_creator', s_ev(*k), REJECT, raises=rejected, name=lab(*k)) for k in (('?', False, 'GP', False), ('local_penalization', False, None, False))]
# --- the selectors by class
SEL = {('GPyOpt.models.select_model', 'GP'): G + 'GPModel', ('GPyOpt.models.select_model', 'GP_MCMC'): G + 'GPModel_MCMC', ('GPyOpt.models.select_model', 'RF'): 'GPyOpt.models.rfmodel.RFModel', ('GPyOpt.models.select_model', 'warpGP'): 'GPyOpt.models.warpedgpmodel.WarpedGPModel'}
SEL.update({('GPyOpt.acquisitions.select_acquisition', k): A_ + v for k, v in dict({k: v for k, v in ACQS.items() if k}, LP='LP.AcquisitionLP', ES='ES.AcquisitionEntropySearch').items()})
SEL.update({('GPyOpt.core.evaluators.select_evaluator', k): EV + v for k, v in EVS.items() if k})
SELECT = [Contract(q, (lambda I, nm=nm: [nm]), (lambda I, em, a, r, c=c: em('the class of that name', isinstance(r, ClassV) and r is I.lookup_qual(c))), raises=never, name='%s (%s)' % (q, nm)) for (q, nm), c in SEL.items()]
SELECT += [Contract(q, (lambda I, q=q: [unknown(I, [n for (p, n) in SEL if p == q])]), REJECT, raises=rejected, name=q + ' (unknown name)') for q in sorted({q for q, _ in SEL})]
# --- variables
V = 'GPyOpt.core.task.variables.'; VARS = {'continuous': 'ContinuousVariable', 'discrete': 'DiscreteVariable', 'categorical': 'CategoricalVariable', 'bandit': 'BanditVariable'}
def s_var(t, dim):
    def f(I):
        log = I.cv = stub(I, 'ghost', made=None)
        for k, c in VARS.items():
            def made(I2, b, fv, k=k): log.fields['made'] = (k, {x: y for x, y in b.items() if x != 'self'})
            I.contracts[V + c + '.__init__'] = made
        I.cdom = stub(I, 'domain'); I.cname = 'x'; I.cdim = integer(I, 'dim', 1); d = {'name': 'x', 'type': t, 'domain': I.cdom}
        if t is None: d['type'] = unknown(I, VARS)
        if dim: d['dimensionality'] = I.cdim
        return [DictV(I, d)]
    return f
def p_var(t, dim):
    def post(I, em, a, r):
        em('a variable of that type', isinstance(r, ObjV) and r.cls is I.lookup_qual(V + VARS[t])); k, b = I.cv.fields['made']; em('made as one', k == t)
        em('with its name and domain', b['name'] == 'x' and b['domain'] is I.cdom)
        if dim: em('with its dimensionality', zeq(b['dimensionality'], I.cdim))
        elif t != 'bandit': em('one dimension unless told otherwise', zeq(b['dimensionality'], 1))
    return post
VAR = [Contract(V + 'create_variable', s_var(t, dim), p_var(t, dim), raises=never, name=V + 'create_variable (%s%s)' % (t, ', dimensionality' if dim else '')) for t in VARS for dim in (False, True)] + [Contract(V + 'create_variable', s_var(None, False), REJECT, raises=lambda I, em, a, e: em('rejected with an error', True), name=V + 'create_variable (unknown type)')]
# --- merging configurations: dictionaries over K keys whose values are arbitrary, some of them dictionaries again
CP = 'GPyOpt.interface.config_parser.'; I_ = z3.IntSort()
class Conf(object):
    def __init__(self, I):
        self.I = I; self.K = integer(I, 'K', 0); u = uid(); B = z3.BoolSort()
        self.HAS, self.VAL, self.ISD, self.MERGE = z3.Function('has!%d' % u, I_, I_, B), z3.Function('val!%d' % u, I_, I_, I_), z3.Function('isdict!%d' % u, I_, B), z3.Function('merged!%d' % u, I_, I_, I_)
    def value(self, code, where=None):
        """the value with this code: a dictionary exactly when isdict(code); where = (dictionary holding it, key)"""
        I = self.I; o = stub(I, 'value'); o.code = code; o.where = where; cf = self
        o.isinstf = lambda I2, c: self.ISD(ZI(code)) if getattr(c, 'name', None) in ('dict', 'collections.abc.Mapping') else I2.fresh('isinst', 'Bool'); o.substf = lambda I2, pairs: cf.value(NP.subst_term(ZI(code), pairs), where)
        return o
    def dict(self, code, frozen):
        """a dictionary with the content of code; keys are 0..K-1, their order arbitrary"""
        I, K = self.I, self.K; o = stub(I, 'dict'); o.code = code; cf = self; c = ZI(code)
        o.fields['has'] = mk(I, (K,), lambda k: self.HAS(c, ZI(k)), dtype='bool'); o.fields['val'] = mk(I, (K,), lambda k: self.VAL(c, ZI(k)), dtype='int')
        n = o.len = integer(I, 'len', 0); KEY, POS = z3.Function('key!%d' % uid(), I_, I_), z3.Function('pos!%d' % uid(), I_, I_); o.KEY, o.POS = KEY, POS; i, k = z3.Ints('i!cf k!cf')
        I.raw_fact([i], z3.Implies(z3.And(0 <= i, i < ZI(n)), z3.And(0 <= KEY(i), KEY(i) < ZI(K), self.HAS(c, KEY(i)), POS(KEY(i)) == i)), [KEY(i)])
        I.raw_fact([k], z3.Implies(z3.And(0 <= k, k < ZI(K), self.HAS(c, k)), z3.And(0 <= POS(k), POS(k) < ZI(n), KEY(POS(k)) == k)), [self.HAS(c, k)])
        def code_of(v):
            if getattr(v, 'code', None) is None: raise Unsupported('storing %r in a configuration' % (v,))
            return ZI(v.code)
        def has(I2, key): return o.fields['has'].data(key)
        def get(I2, key, default=None):
            if I2.branch(has(I2, key)): return cf.value(o.fields['val'].data(key), (o, key))
            return default
        def getitem(I2, _, key):
            if not I2.branch(has(I2, key)): raise PyRaise('KeyError', ())
            return cf.value(o.fields['val'].data(key), (o, key))
        def setitem(I2, _, key, v):
            if frozen: I2.prove(False, 'the configuration given is left alone')
            h, w, x, kk = o.fields['has'].data, o.fields['val'].data, code_of(v), ZI(key)
            o.fields['has'].set(lambda j: z3.Or(ZI(j) == kk, Z(h(j)))); o.fields['val'].set(lambda j: z3.If(ZI(j) == kk, x, ZI(w(j))))
        def update(I2, other):
            if frozen: I2.prove(False, 'the configuration given is left alone')
            h, w, h2, w2 = o.fields['has'].data, o.fields['val'].data, other.fields['has'].data, other.fields['val'].data
            o.fields['has'].set(lambda j: z3.Or(Z(h(j)), Z(h2(j)))); o.fields['val'].set(lambda j: z3.If(Z(h2(j)), ZI(w2(j)), ZI(w(j))))
        def setdefault(I2, key, default=None):
            if not I2.branch(has(I2, key)): setitem(I2, o, key, default)
            return cf.value(o.fields['val'].data(key), (o, key))
        o.fields['setdefault'] = native('setdefault', setdefault)
        unchanged = lambda I2: None if frozen else (_ for _ in ()).throw(Unsupported('iterating over a dictionary that changes'))
        def keys(I2): unchanged(I2); return IterV(n, lambda i: KEY(ZI(i)))
        def values(I2): unchanged(I2); return IterV(n, lambda i: cf.value(self.VAL(c, KEY(ZI(i))), (o, KEY(ZI(i)))))
        def items(I2): unchanged(I2); return IterV(n, lambda i: (KEY(ZI(i)), cf.value(self.VAL(c, KEY(ZI(i))), (o, KEY(ZI(i))))))
        o.containsf = has; o.getitemf = getitem; o.setitemf = setitem; o.isinstf = lambda I2, cc: getattr(cc, 'name', None) == 'dict'
        o.iterf = lambda I2, *a: (n, lambda i: KEY(ZI(i)))
        o.fields.update(get=native('get', get), keys=native('keys', keys), values=native('values', values), items=native('items', items), update=native('update', update)); return o
def s_upd(I):
    cf = I.conf = Conf(I); a, b = I.fresh('new', 'Int'), I.fresh('default', 'Int'); I.assume(z3.And(cf.ISD(a), cf.ISD(b))); n, d = cf.dict(a, True), cf.dict(b, False); I.cnd = (n, d, a, b)
    def rec(I2, bb, fv):
        x, y = bb['config_new'], bb['config_default']; I2.prove(z3.And(cf.ISD(ZI(x.code)), cf.ISD(ZI(y.code))), 'nested options are merged with nested defaults')
        m = cf.MERGE(ZI(x.code), ZI(y.code))
        if y.where is not None: p, key = y.where; w = p.fields['val'].data; kk = ZI(key); p.fields['val'].set(lambda j: z3.If(ZI(j) == kk, m, ZI(w(j))))
        return cf.value(m, y.where)
    I.contracts[CP + 'update_config'] = lambda I2, bb, fv: rec(I2, bb, fv) if not (bb['config_new'] is n and bb['config_default'] is d) else None
    return [n, d]
def target(cf, a, b, k):
    """presence and value of key k in the merge of the dictionaries a and b"""
    va, vb = cf.VAL(a, k), cf.VAL(b, k)
    return z3.Or(cf.HAS(a, k), cf.HAS(b, k)), z3.If(cf.HAS(a, k), z3.If(z3.And(cf.ISD(va), cf.HAS(b, k), cf.ISD(vb)), cf.MERGE(va, vb), va), vb)
def hook_upd(I, view):
    cf = I.conf; n, d, a, b = I.cnd; K = ZI(cf.K); out = []
    def inv(which):
        L = [l for l in view.arrs(1) if l.dtype == ('bool' if which == 'has' else 'int')]
        if len(L) != 1: return None
        l = L[0]
        def f(st, k):
            j = z3.Int('j!up'); h, v = target(cf, a, b, j); done = z3.And(cf.HAS(a, j), n.POS(j) < ZI(k)); cur = Z(st[l.key].data(j))
            if which == 'has': return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < K), cur == z3.Or(cf.HAS(b, j), done)))
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < K, z3.Or(cf.HAS(b, j), done)), cur == z3.If(done, v, cf.VAL(b, j))))
        return f
    for w in ('has', 'val'):
        f = inv(w)
        if f is not None: out.append(('keys seen so far are merged (%s)' % w, f))
    return out
def p_upd(I, em, args, r):
    cf = I.conf; n, d, a, b = I.cnd; em('the merged configuration is the one returned', r is d)
    with I.gen(cf.K) as k:
        with I.hyp(True):
            h, v = target(cf, a, b, ZI(k)); em('a key is there exactly when given or defaulted', Z(d.fields['has'].data(k)) == h); cur = ZI(d.fields['val'].data(k)); A, B = cf.HAS(a, ZI(k)), cf.HAS(b, ZI(k))
            em('everything not mentioned keeps its default', zimp(zand(B, znot(A)), cur == cf.VAL(b, ZI(k))))
            em('every value given wins, nested options being merged', zimp(A, cur == v))
UPDATE = [Contract(CP + 'update_config', s_upd, p_upd, raises=never, hooks={CP + 'update_config': hook_upd})]
# --- reading a configuration file
def content(v): return {k: content(x) for k, x in v.d.items()} if isinstance(v, DictV) else v.items() if isinstance(v, ListV) and v.concrete() else v
def alldicts(v):
    out = [v] if isinstance(v, (DictV, ListV)) else []
    for x in (v.d.values() if isinstance(v, DictV) else v.items() if isinstance(v, ListV) and v.concrete() else []): out += alldicts(x)
    return out
def defaults(I): return I.mod_attr(I.module('GPyOpt.interface.config_parser'), 'default_config')
def s_parse(ok):
    def f(I):
        g = I.cg = stub(I, 'ghost', opened=[], merged=[]); I.cnew = stub(I, 'the configuration read'); I.cout = stub(I, 'merged'); I.cdef = content(defaults(I)); I.cparts = set(map(id, alldicts(defaults(I))))
        def opener(I2, a, k):
            if ok == 'no file': raise PyRaise('FileNotFoundError', ())
            g.fields['opened'] = g.fields['opened'] + [a[0]]; return stub(I2, 'file', close=native('close', lambda I3: None), read=native('read', lambda I3: Opaque('str')))
        def load(I2, a, k):
            if ok == 'not json': raise PyRaise('ValueError', ())
            return I.cnew
        I.natives['open'] = opener; I.natives['json.load'] = load; I.natives['json.loads'] = load
        def upd(I2, b, fv): g.fields['merged'] = g.fields['merged'] + [(b['config_new'], b['config_default'])]; return I.cout
        I.contracts[CP + 'update_config'] = upd; return ['settings.json']
    return f
def p_parse(I, em, a, r):
    g = I.cg.fields; em('the named file is read', g['opened'] == ['settings.json']); em('merged once', len(g['merged']) == 1); n, d = g['merged'][0]
    em('what was read is merged', n is I.cnew); em('with the defaults', content(d) == I.cdef); em('and returned', r is I.cout)
    em('the defaults themselves are unchanged', content(defaults(I)) == I.cdef); em('and share nothing with what is returned', not (I.cparts & set(map(id, alldicts(d)))))
def r_parse(I, em, a, e): em('only an unreadable file is an error', I.cg.fields['merged'] == []); em('the defaults themselves are unchanged', content(defaults(I)) == I.cdef)
PARSE = [Contract(CP + 'parser', s_parse('ok'), p_parse, raises=never), Contract(CP + 'parser', s_parse('no file'), lambda I, em, a, r: em('an unreadable file is an error', False), raises=r_parse, name=CP + 'parser (no file)'), Contract(CP + 'parser', s_parse('not json'), lambda I, em, a, r: em('an unreadable file is an error', False), raises=r_parse, name=CP + 'parser (not a configuration)')]
# --- the driver
DR = 'GPyOpt.interface.driver.BODriver'
def s_drv(given):
    def f(I): I.cdef = content(defaults(I)); I.cparts = set(map(id, alldicts(defaults(I)))); I.ccfg = DictV(I, {'model': DictV(I, {})}) if given else None; I.cf = native('objective', lambda I2, x: None); I.coe = stub(I, 'output'); return [I.ccfg, I.cf, I.coe]
    return f
def p_drv(given):
    def post(I, em, a, o):
        F = o.fields; em('its objective', F['obj_func'] is I.cf)
        if given: em('the configuration given', F['config'] is I.ccfg)
        else: em('the defaults', content(F['config']) == I.cdef); em('which it does not share', not (I.cparts & set(map(id, alldicts(F['config'])))))
    return post
DRIVER = [Contract(DR, s_drv(g), p_drv(g), raises=never, name=DR + (' (configuration given)' if g else ' (defaults)')) for g in (True, False)]
def conf(I, **kw):
    """a configuration with the given sections (dictionaries of settings)"""
    return DictV(I, {k: DictV(I, {x: DictV(I, y) if isinstance(y, dict) else y for x, y in v.items()}) if isinstance(v, dict) else v for k, v in kw.items()})
def drv(I, meth, *more, **kw): I.ccfg = conf(I, **kw); I.cold = content(I.ccfg); I.cfun = native('objective', lambda I2, x: None); return [newobj(I, DR, config=I.ccfg, obj_func=I.cfun, outputEng=None)] + list(more)
def kept(I, em):
    def eq(x, y): return isinstance(x, dict) and isinstance(y, dict) and x.keys() == y.keys() and all(eq(x[k], y[k]) for k in x) or same(x, y) is True or (x is y)
    em('the configuration is left alone', eq(content(I.ccfg), I.cold))
def s_dspace(none):
    def f(I):
        log = I.cg = stub(I, 'ghost', made=None); I.csp, I.cres = stub(I, 'space section'), stub(I, 'the space'); I.ccon = ListV(I) if none else ListV.sym(I, integer(I, 'ncon', 1), lambda i: stub(I, 'constraint'))
        def made(I2, b, fv): log.fields['made'] = b; return I.cres
        I.contracts['GPyOpt.core.task.space.Design_space.fromConfig'] = made; return drv(I, '_get_space', space=I.csp, constraints=I.ccon)
    return f
def p_dspace(I, em, a, r): b = I.cg.fields['made']; em('the declared space and constraints', r is I.cres and b['space'] is I.csp and b['constraints'] is I.ccon)
DSPACE = [Contract(DR + '._get_space', s_dspace(n), p_dspace, raises=never, name=DR + '._get_space (%s)' % ('no constraints' if n else 'constraints')) for n in (True, False)]
DSPACE += [Contract(DR + '._get_space', lambda I: drv(I, '_get_space', constraints=ListV(I)), lambda I, em, a, r: em('a configuration without a space is refused', False), raises=lambda I, em, a, e: em('refused with an error', True), name=DR + '._get_space (no space declared)')]
# the declared space of a configuration: dimensionalities and domains are written as text
def s_fcfg(txt, none):
    def f(I):
        sp = 'GPyOpt.core.task.space.Design_space'; log = I.cg = stub(I, 'ghost', made=None); I.cres = stub(I, 'the space'); doms = I.cdoms = [stub(I, 'domain 0'), stub(I, 'domain 1')]
        def ev(I2, a, k):
            if list(a) not in (['(-1,1)'], ['(0,3)']): raise Unsupported('literal_eval of another text')
            return doms[0 if a[0] == '(-1,1)' else 1]
        I.natives['ast.literal_eval'] = ev
        def made(I2, a, fv):
            args, kw = list(a['args']), dict(a['kwargs']); d = dict(zip(('space', 'constraints', 'store_noncontinuous'), args)); d.update(kw)
            n, g = iterate(I2, d['space']); n = n if isinstance(n, int) else z3.simplify(n).as_long()
            cfgs = [dict(g(i).d) for i in range(n)]
            log.fields['made'] = (cfgs, d.get('constraints'), d.get('store_noncontinuous', False)); return I.cres
        I.contracts[sp] = made
        I.cnm = [I.fresh('name%d' % i, 'Int') for i in (0, 1)]
        cfg = ListV(I, [DictV(I, {'name': I.cnm[0], 'type': 'continuous', 'domain': '(-1,1)', 'dimensionality': '2' if txt else 2}), DictV(I, {'name': I.cnm[1], 'type': 'continuous', 'domain': '(0,3)', 'dimensionality': 1})])
        I.ccon = ListV(I) if none else ListV.sym(I, integer(I, 'ncon', 1), lambda i: stub(I, 'constraint'))
        return [cfg, I.ccon]
    return f
def p_fcfg(txt, none):
    def post(I, em, a, r):
        m = I.cg.fields['made']; em('a space is made', r is I.cres and m is not None); cf, con, st = m
        em('of every declared variable', len(cf) == 2)
        for i, c in enumerate(cf): em('variable %d has its name, type, domain and number of dimensions' % i, c['name'] is I.cnm[i] and c['type'] == 'continuous' and c['domain'] is I.cdoms[i] and type(c['dimensionality']) is int and c['dimensionality'] == (2, 1)[i] and set(c) == {'name', 'type', 'domain', 'dimensionality'})
        if none: em('no constraint is no constraint', con is None or con is I.ccon)
        else: em('with the constraints declared', con is I.ccon)
        em('values off the lattice are not remembered', st is False)
    return post
FCFG = [Contract('GPyOpt.core.task.space.Design_space.fromConfig', s_fcfg(t, n), p_fcfg(t, n), raises=never, name='GPyOpt.core.task.space.Design_space.fromConfig (%s, %s)' % ('numbers as text' if t else 'numbers', 'no constraints' if n else 'constraints')) for t in (True, False) for n in (True, False)]
def s_dmodel(I):
    log = I.cg = stub(I, 'ghost', made=None); I.cset = dict(num_inducing=integer(I, 'm', 1), max_iters=integer(I, 'it', 0), optimize_restarts=integer(I, 'rs', 1), exact_feval=I.fresh('exact', 'Bool'), noise_var=real(I, 'nv'), ARD=I.fresh('ard', 'Bool'), optimizer='bfgs')
    return drv(I, '_get_model', model=dict(I.cset, type='GP'))
def p_dmodel(I, em, a, m):
    em('the surrogate named', isinstance(m, ObjV) and m.cls is I.lookup_qual(G + 'GPModel'))
    for k, v in I.cset.items(): em('its %s' % k, same(m.fields[k], v))
    em('everything else at its default', m.fields['kernel'] is None and m.fields['sparse'] is False and m.fields['verbose'] is True and m.fields['mean_function'] is None); kept(I, em)
DMODEL = [Contract(DR + '._get_model', s_dmodel, p_dmodel, raises=never), Contract(DR + '._get_model', lambda I: drv(I, '_get_model', model=dict(type=unknown(I, [n for (p, n) in SEL if p.endswith('select_model')]))), REJECT, raises=rejected, name=DR + '._get_model (unknown name)')]
def s_dacq(nm):
    def f(I):
        I.cj = real(I, 'jitter'); I.cparts = (stub(I, 'model', analytical_gradient_prediction=True), stub(I, 'space')); log = I.cg = stub(I, 'ghost', made=None)
        def opt(I2, a, fv): o = stub(I2, 'optimizer'); log.fields['made'] = (a['args'], a['kwargs'], o); return o
        I.contracts['GPyOpt.optimization.acquisition_optimizer.AcquisitionOptimizer'] = opt
        return drv(I, '_get_acquisition', *I.cparts, acquisition=dict(type=unknown(I, [n for (p, n) in SEL if p.endswith('select_acquisition')]) if nm is None else nm, jitter=I.cj, optimizer={'name': 'DIRECT', 'type_anchor_points_logic': 'max_objective'}, evaluator={'type': 'sequential'}))
    return f
def p_dacq(nm):
    def post(I, em, a, r):
        m, s = I.cparts; em('the acquisition named', isinstance(r, ObjV) and r.cls is I.lookup_qual(SEL['GPyOpt.acquisitions.select_acquisition', nm])); F = r.fields; A, K, o = I.cg.fields['made']
        em('of this model and space, searched by its optimizer', F['model'] is m and F['space'] is s and F['optimizer'] is o); em('with the jitter configured', zeq(F['jitter'], I.cj))
        b = dict(zip(('space', 'optimizer'), A)); b.update(K); em('the optimizer named, over this space, with its options', b.get('space') is s and b.get('optimizer') == 'DIRECT' and b.get('type_anchor_points_logic') == 'max_objective' and len(b) == 3); kept(I, em)
    return post
DACQ = [Contract(DR + '._get_acquisition', s_dacq(nm), p_dacq(nm), raises=never, name=DR + '._get_acquisition (%s)' % nm) for nm in ('EI', 'MPI')] + [Contract(DR + '._get_acquisition', s_dacq(None), REJECT, raises=rejected, name=DR + '._get_acquisition (unknown name)')]
def s_dev(nm):
    def f(I): I.cacq, I.cb = stub(I, 'acquisition', space=stub(I, 'space'), model=stub(I, 'model'), optimizer=stub(I, 'optimizer'), acquisition_function=native('f', lambda I2, x: None), acquisition_function_withGradients=native('f', lambda I2, x: None)), integer(I, 'batch', 2); ev = dict(type=unknown(I, EVS) if nm is None else nm); ev.update({} if nm in (None, 'sequential') else {'batch_size': I.cb}); return drv(I, '_get_acq_evaluator', I.cacq, acquisition=dict(evaluator=ev))
    return f
def p_dev(nm):
    def post(I, em, a, r): em('the evaluator named', isinstance(r, ObjV) and r.cls is I.lookup_qual(EV + EVS[nm]) and r.fields['acquisition'] is I.cacq); em('of the configured size', zeq(I.getattr(r, 'batch_size'), 1 if nm == 'sequential' else I.cb)); kept(I, em)
    return post
DEV = [Contract(DR + '._get_acq_evaluator', s_dev(nm), p_dev(nm), raises=never, name=DR + '._get_acq_evaluator (%s)' % nm) for nm in EVS if nm] + [Contract(DR + '._get_acq_evaluator', s_dev(None), REJECT, raises=rejected, name=DR + '._get_acq_evaluator (unknown name)')]
def s_stop(hi, ht):
    def f(I): I.cmi = integer(I, 'maxit', 0) if hi else 'NA'; I.cmt = real(I, 'maxtime') if ht else 'NA'; return drv(I, '_check_stop', integer(I, 'iters', 0), real(I, 'elapsed'), I.fresh('converged', 'Int'), resources={'maximum-iterations': I.cmi, 'max-run-time': I.cmt})
    return f
def p_stop(hi, ht):
    def post(I, em, a, r):
        _, it, el, cv = a; want = zor(zeq(cv, 0), *([zle(I.cmi, it)] if hi else []), *([zle(zmul(60, I.cmt), el)] if ht else [])); em('stops exactly on convergence or a used budget (minutes)', Z(NP.truth(I, r)) == Z(want)); kept(I, em)
    return post
DSTOP = [Contract(DR + '._check_stop', s_stop(i, t), p_stop(i, t), raises=never, name=DR + '._check_stop (%s, %s)' % ('iterations limited' if i else 'any iterations', 'time limited' if t else 'any time')) for i in (True, False) for t in (True, False)]
def s_dobj(I):
    I.csp = stub(I, 'space'); I.ccores = integer(I, 'cores', 1); return drv(I, '_get_obj', I.csp, resources={'cores': I.ccores})
def p_dobj(I, em, a, r): em('the objective given, on the configured cores', isinstance(r, ObjV) and r.fields['func'] is I.cfun and r.fields['n_procs'] is I.ccores)
DOBJ = [Contract(DR + '._get_obj', s_dobj, p_dobj, raises=lambda I, em, a, e: em('the objective of a configuration is built [driver_unfold_args] (%s)' % e.clsname, False))]
def s_run(timed):
    def f(I):
        g = I.cg = stub(I, 'ghost', log=[]); add = lambda *x: g.fields.update(log=g.fields['log'] + [x]); P = I.cparts = {k: stub(I, k) for k in ('space', 'objective', 'model', 'acquisition', 'evaluator', 'design')}
        for m, k, args in (('_get_space', 'space', ()), ('_get_obj', 'objective', ('space',)), ('_get_model', 'model', ()), ('_get_acquisition', 'acquisition', ('model', 'space')), ('_get_acq_evaluator', 'evaluator', ('acquisition',))):
            def c(I2, b, fv, k=k, args=args): I2.prove(all(x is P[y] for x, y in zip([v for n, v in b.items() if n != 'self'], args)), 'the %s is built from the parts of this run' % k); add('part', k); return P[k]
            I.contracts[DR + '.' + m] = c
        def design(I2, b, fv): add('design', list(b.values())); return P['design']
        I.contracts['GPyOpt.experiment_design.initial_design'] = design; I.cini, I.citer, I.ctime, I.ceps = integer(I, 'neval', 1), integer(I, 'maxit', 0), real(I, 'maxtime') if timed else 'NA', real(I, 'tol')
        names = ('model', 'space', 'objective', 'acquisition', 'evaluator', 'X_init', 'Y_init', 'cost', 'normalize_Y', 'model_update_interval', 'de_duplication')
        def mod(I2, a, fv):
            b = dict(zip(names, a['args'])); b.update(a['kwargs']); o = I.cbo = stub(I2, 'optimizer'); add('made', b, o)
            def run(I3, *x, **k): b = dict(zip(('max_iter', 'max_time', 'eps'), x)); b.update(k); add('run', b)
            o.fields['run_optimization'] = native('run_optimization', run); return o
        I.contracts['GPyOpt.methods.modular_bayesian_optimization.ModularBayesianOptimization'] = mod
        return drv(I, 'run', initialization={'type': 'latin', 'num-eval': I.cini}, resources={'maximum-iterations': I.citer, 'max-run-time': I.ctime, 'tolerance': I.ceps, 'cores': 1})
    return f
def p_run(timed):
    def post(I, em, a, r):
        P, L = I.cparts, I.cg.fields['log']; one = lambda k: [x for x in L if x[0] == k]; d, m, rn = one('design'), one('made'), one('run')
        em('one design, of the configured kind and size, over the space', len(d) == 1 and d[0][1][0] == 'latin' and d[0][1][1] is P['space'] and d[0][1][2] is I.cini)
        em('one optimizer', len(m) == 1 and r is m[0][2]); b = m[0][1]
        em('of the configured parts', all(b.get(k) is P[k] for k in ('model', 'space', 'objective', 'acquisition', 'evaluator')) and b.get('X_init') is P['design'])
        em('one run', len(rn) == 1); q = rn[0][1]; em('within the configured iterations', zeq(q['max_iter'], I.citer)); em('and tolerance', zeq(q['eps'], I.ceps))
        t = q.get('max_time', INF); em('within the configured time, unlimited when none is', zeq(t, I.ctime) if timed else (isinstance(t, float) and t == float('inf')))
    return post
DRUN = [Contract(DR + '.run', s_run(t), p_run(t), raises=never, name=DR + '.run (%s)' % ('time limited' if t else 'any time')) for t in (True, False)]
DRV = DRIVER + DSPACE + FCFG + DMODEL + DACQ + DEV + DSTOP + DOBJ + DRUN
# --- the optimizer built from names and options
BOM = 'GPyOpt.methods.bayesian_optimization.BayesianOptimization'
def s_bo(own, f):
    def g(I):
        log = I.cg = stub(I, 'ghost', log=[]); add = lambda *x: log.fields.update(log=log.fields['log'] + [x]); P = I.cparts = {k: stub(I, k) for k in ('space', 'objective', 'cost', 'model', 'optimizer', 'acquisition', 'evaluator')}
        P['cost'].fields['cost_withGradients'] = I.ccost = stub(I, 'cost function'); isn = lambda k, q: setattr(P[k], 'isinstf', lambda I2, c: getattr(c, 'qual', None) == q); isn('cost', 'GPyOpt.core.task.cost.CostModel')
        def cls(q, key, names):
            def c(I2, a, fv): b = dict(zip(names, a['args'])); b.update(a['kwargs']); add(key, b); return P[key]
            I.contracts[q] = c
        cls('GPyOpt.core.task.space.Design_space', 'space', ('space', 'constraints', 'store_noncontinuous')); cls('GPyOpt.core.task.objective.SingleObjective', 'objective', ('func', 'num_cores', 'objective_name')); cls('GPyOpt.core.task.cost.CostModel', 'cost', ('cost_withGradients',)); cls('GPyOpt.optimization.acquisition_optimizer.AcquisitionOptimizer', 'optimizer', ('space', 'optimizer'))
        def am(I2, a, fv):
            add('settings', (list(a['args']) + list(a['kwargs'].values()))[0]); o = stub(I2, 'arguments manager')
            for nm, key, names in (('model_creator', 'model', ('model_type', 'exact_feval', 'space')), ('acquisition_creator', 'acquisition', ('acquisition_type', 'model', 'space', 'acquisition_optimizer', 'cost_withGradients')), ('evaluator_creator', 'evaluator', ('evaluator_type', 'acquisition', 'batch_size', 'model_type', 'model', 'space', 'acquisition_optimizer'))):
                def c(I3, *x, key=key, names=names, **k): b = dict(zip(names, x)); b.update(k); add(key, b); return P[key]
                o.fields[nm] = native(nm, c)
            return o
        I.contracts[AM] = am; I.csigned = native('signed', lambda I2, x: None)
        def sign(I2, b, fv): I2.prove(b['f'] is I.cfun and same(b['self'].fields['maximize'], I.opt['maximize']), 'the sign of the objective given, as asked for'); return I.csigned
        I.contracts[BOM + '._sign'] = sign
        def init(I2, b, fv):
            F = b['self'].fields; I2.prove(F['space'] is P['space'] and F['objective'] is (P['objective'] if f else None) and F['cost'] is P['cost'] and F['X'] is I.opt['X'] and F['Y'] is I.opt['Y'] and F['initial_design_type'] is I.opt['initial_design_type'] and F['initial_design_numdata'] is I.opt['initial_design_numdata'] and (F['f'] is I.csigned if f else F['f'] is None), 'the initial data are chosen from these parts and options'); F['X'], F['Y'] = I.cx; add('init')
        I.contracts[BOM + '._init_design_chooser'] = init; I.cx = (stub(I, 'X of the design'), stub(I, 'Y of the design'))
        I.contracts['GPyOpt.core.bo.BO.__init__'] = lambda I2, b, fv: add('bo', b)
        I.contracts['GPyOpt.core.bo.BO.run_optimization'] = lambda I2, b, fv: add('run', b)
        I.opt = dict(domain=stub(I, 'domain'), constraints=stub(I, 'constraints'), cost_withGradients=stub(I, 'cost given'), model_type='GP', X=stub(I, 'X'), Y=stub(I, 'Y'), initial_design_numdata=integer(I, 'n', 1), initial_design_type='sobol', acquisition_type='MPI', normalize_Y=I.fresh('norm', 'Bool'), exact_feval=I.fresh('exact', 'Bool'), acquisition_optimizer_type='CMA', model_update_interval=integer(I, 'interval', 1), evaluator_type='random', batch_size=integer(I, 'batch', 1), num_cores=integer(I, 'cores', 1), verbosity=False, verbosity_model=False, maximize=I.fresh('maximize', 'Bool'), de_duplication=I.fresh('dedup', 'Bool'))
        I.cfun = native('objective', lambda I2, x: None) if f else None; I.cextra = dict(acquisition_jitter=real(I, 'jitter'), objective_name='the name')
        if own:
            I.cm = stub(I, 'own model'); I.cm.isinstf = lambda I2, c: getattr(c, 'qual', None) == 'GPyOpt.models.base.BOModel'; I.ca = stub(I, 'own acquisition'); I.ca.isinstf = lambda I2, c: getattr(c, 'qual', None) == 'GPyOpt.acquisitions.base.AcquisitionBase'; I.cextra.update(model=I.cm, acquisition=I.ca)
        return ([I.cfun], dict(I.opt, **I.cextra))
    return g
def p_bo(own, f):
    def post(I, em, a, o):
        P, L, O = I.cparts, I.cg.fields['log'], I.opt; one = lambda k: [x[1] for x in L if x[0] == k]
        sp = one('space'); em('one space, of the domain and constraints given', len(sp) == 1 and sp[0].get('space') is O['domain'] and sp[0].get('constraints') is O['constraints'])
        ob = one('objective'); em('one objective exactly when a function is given', len(ob) == (1 if f else 0))
        if f: em('the objective is the signed function on the cores asked for, under its name', ob[0]['func'] is I.csigned and ob[0]['num_cores'] is O['num_cores'] and ob[0]['objective_name'] == 'the name')
        c = one('cost'); em('one cost model, of the cost given', len(c) == 1 and list(c[0].values())[0] is O['cost_withGradients']); em('initial data are chosen once', sum(x[0] == 'init' for x in L) == 1)
        m, q, e = one('model'), one('acquisition'), one('evaluator'); M, A = (I.cm, I.ca) if own else (P['model'], P['acquisition'])
        st = one('settings'); em('the settings given reach the creators', len(st) == 1 and isinstance(st[0], DictV) and all(st[0].d.get(k) is v or same(st[0].d.get(k), v) is True for k, v in I.cextra.items() if k != 'model') )
        if own: em('a surrogate and an acquisition of the user are used as they are', not m and not q)
        else:
            em('the surrogate named', len(m) == 1 and m[0]['model_type'] == O['model_type'] and same(m[0]['exact_feval'], O['exact_feval']) is not False and m[0]['space'] is P['space']); em('exact as asked for', same(m[0]['exact_feval'], O['exact_feval']))
            em('the acquisition named, of these parts', len(q) == 1 and q[0]['acquisition_type'] == O['acquisition_type'] and q[0]['model'] is M and q[0]['space'] is P['space'] and q[0]['acquisition_optimizer'] is P['optimizer'] and q[0]['cost_withGradients'] is I.ccost)
        op = one('optimizer'); em('one search, with the optimizer named, over the space', len(op) == 1 and op[0]['space'] is P['space'] and op[0]['optimizer'] == O['acquisition_optimizer_type']); em('which knows the surrogate and the settings', op[0].get('model') is M and op[0].get('acquisition_jitter') is I.cextra['acquisition_jitter'])
        em('the evaluator named, of these parts', len(e) == 1 and e[0]['evaluator_type'] == O['evaluator_type'] and e[0]['acquisition'] is A and e[0]['batch_size'] is O['batch_size'] and e[0]['model'] is M and e[0]['space'] is P['space'] and e[0]['acquisition_optimizer'] is P['optimizer'])
        if not own: em('for this surrogate', e[0]['model_type'] == O['model_type'])
        b = one('bo'); em('one loop, of these parts and data', len(b) == 1 and b[0]['model'] is M and b[0]['space'] is P['space'] and b[0]['objective'] is (P['objective'] if f else None) and b[0]['acquisition'] is A and b[0]['evaluator'] is P['evaluator'] and b[0]['X_init'] is I.cx[0] and b[0]['Y_init'] is I.cx[1] and b[0]['cost'] is P['cost'])
        for k in ('normalize_Y', 'model_update_interval', 'de_duplication'): em('with the %s asked for' % k, same(b[0][k], O[k]))
    return post
BOCTOR = [Contract(BOM, s_bo(own, f), p_bo(own, f), raises=never, name=BOM + ' (%s, %s)' % ('own surrogate and acquisition' if own else 'by name', 'objective' if f else 'no objective')) for own in (False, True) for f in (True, False)]
# --- the loop object
def s_loop(cm):
    def g(I):
        I.opt = {k: stub(I, k) for k in ('model', 'space', 'objective', 'acquisition', 'evaluator', 'X_init', 'Y_init')}; I.opt.update(normalize_Y=I.fresh('norm', 'Bool'), model_update_interval=integer(I, 'interval', 1), de_duplication=I.fresh('dedup', 'Bool')); I.cmade = stub(I, 'cost model')
        I.ccost = stub(I, 'cost'); I.ccost.isinstf = lambda I2, c: cm
        if not cm:
            def made(I2, a, fv): I2.prove((list(a['args']) + list(a['kwargs'].values()))[0] is I.ccost, 'a cost model of the cost given'); return I.cmade
            I.contracts['GPyOpt.core.task.cost.CostModel'] = made
        return ([], dict(I.opt, cost=I.ccost))
    return g
def p_loop(cm):
    def post(I, em, a, o):
        F = o.fields
        for k in ('model', 'space', 'objective', 'acquisition', 'evaluator'): em('its %s' % k, F[k] is I.opt[k])
        em('its data', F['X'] is I.opt['X_init'] and F['Y'] is I.opt['Y_init']); em('its cost model', F['cost'] is (I.ccost if cm else I.cmade))
        for k in ('normalize_Y', 'model_update_interval', 'de_duplication'): em('its %s' % k, same(F[k], I.opt[k]))
        em('no context and no acquisition yet', F['context'] is None and zeq(F['num_acquisitions'], 0)); em('statistics are normalised', F['normalization_type'] == 'stats')
    return post
LOOP = [Contract(q, s_loop(cm), p_loop(cm), raises=never, name=q + (' (cost model)' if cm else ' (cost function)')) for q in ('GPyOpt.core.bo.BO', 'GPyOpt.methods.modular_bayesian_optimization.ModularBayesianOptimization') for cm in (True, False)]
CONTRACTS = MODEL + ACQ + EVAL + SELECT + VAR + UPDATE + PARSE + DRV + BOCTOR + LOOP
