"""Contracts of the batch evaluators (GPyOpt/core/evaluators/*.py)."""
from .lib import *
from .bo import zeq_row, snapshot_arr
from pyvc.contract import Prover
from pyvc.values import PyRaise
E = 'GPyOpt.core.evaluators.'
GET = 'GPyOpt.optimization.anchor_points_generator.AnchorPointsGenerator.get'
APPLY = 'GPyOpt.optimization.optimizer.apply_optimizer'

class EW(object):
    """an evaluator over an arbitrary space; the acquisition search, the candidate generator and the local refinement through their contracts"""
    def __init__(self, I, cls, dedup, b=None):
        self.I = I; D, MD = self.D, self.MD = integer(I, 'D', 1), integer(I, 'MD', 1)
        self.b = integer(I, 'batch_size', 1) if b is None else b
        self.DEC = z3.Function('DEC!%d' % uid(), Row, Row); self.ANCH = z3.Function('isanchor!%d' % uid(), Row, z3.BoolSort()); self.REF = z3.Function('refine!%d' % uid(), Row, Row)
        self.BAN = z3.Function('banned!%d' % uid(), Row, z3.BoolSort())
        self.ROUND = z3.Function('rounded!%d' % uid(), Row, Row)
        g = self.g = ObjV(I, 'ghost', {'opt': [], 'anch': [], 'ban': [], 'gen': []}, tag='stub')
        def dec(I2, Q):
            Q = NP.atleast_2d(I2, NP.as_arr(I2, Q)); r = NP.rowfn(I2, Q); return mk(I2, (Q.shape[0], D), lambda i, j: el(self.DEC(r(ZI(i))), ZI(j)), row=lambda i: self.DEC(r(ZI(i))))
        def rnd(I2, Q):
            """contract of round_optimum (C02): a legal point stays as it is; the points refined by apply_optimizer are legal (C01, C21)"""
            A = NP.as_arr(I2, Q); A2 = NP.atleast_2d(I2, A); r = NP.rowfn(I2, A2)
            I2.prove(zeq(A2.shape[0], 1), 'one point is rounded at a time')
            return mk(I2, (1, MD), lambda i, j: el(self.ROUND(r(0)), ZI(j)), row=lambda i: self.ROUND(r(0)))
        self.space = stub(I, 'Space', zip_inputs=native('zip_inputs', dec), round_optimum=native('round_optimum', rnd), get_bounds=native('get_bounds', lambda I2: stub(I2, 'bounds')))
        x0 = z3.Const('xopt!%d' % uid(), Row); self.x0 = x0
        def opt(I2, duplicate_manager=None):
            """Acquisition.optimize (contracts in search.py): the optimum found among the refined candidates, not excluded, or the explicit error"""
            g.fields['opt'] = g.fields['opt'] + [(duplicate_manager, self.ctxnow())]
            self.explored(I2, duplicate_manager)
            if duplicate_manager is not None: I2.assume(znot(self.BAN(self.DEC(x0))))
            return (mk(I2, (1, MD), lambda i, j: el(x0, ZI(j)), row=lambda i: x0), mk(I2, (1, 1), lambda i, j: z3.Real('fopt')))
        self.cm = stub(I, 'ContextManager', noncontext_bounds=stub(I, 'bounds'))
        self.opt = stub(I, 'AcquisitionOptimizer', context_manager=self.cm)
        self.model = stub(I, 'Model')
        fn = lambda nm: native(nm, lambda I2, x: stub(I2, nm))
        self.acq = stub(I, 'Acquisition', optimize=native('optimize', opt), space=self.space, optimizer=self.opt, model=self.model, acquisition_function=fn('f'), acquisition_function_withGradients=fn('fdf'))
        self.cls = cls; self.dedup = dedup
        def c_get(I2, a, fv):
            gen = a['self']; num = a['num_anchor']; dm = a['duplicate_manager']
            avail = I2.fresh('avail', 'Int'); I2.assume(avail >= 1)
            ns = gen.fields.get('num_samples'); I2.assume(zle(avail, ns))
            if dm is None: I2.assume(zle(self.b, avail))       # precondition: at least as many candidates as the batch size
            self.explored(I2, dm)
            k = zite(zle(num, avail), num, avail); A = mat(I2, k, MD, 'anchor'); r = NP.rowfn(I2, A)
            I2.assume_forall([k], lambda i: zand(self.ANCH(r(ZI(i))), True if dm is None else znot(self.BAN(self.DEC(r(ZI(i)))))))
            g.fields['anch'] = g.fields['anch'] + [(num, dm, a['context_manager'], a['unique'], k, snapshot_arr(I2, A))]
            g.fields['gen'] = g.fields['gen'] + [gen]
            return A
        I.contracts[GET] = c_get
        def c_apply(I2, a, fv):
            """apply_optimizer (contracts in search.py): a legal, not excluded refinement of the given point; refuses an excluded starting point"""
            x = NP.atleast_2d(I2, NP.as_arr(I2, a['x0'])); r = NP.rowfn(I2, x)(0); dm = a['duplicate_manager']
            I2.prove(zeq(x.shape[0], 1), 'one point is refined at a time')
            if dm is not None:
                I2.prove(znot(self.BAN(self.DEC(r))), 'a refinement starts at a point that is not excluded'); I2.assume(znot(self.BAN(self.DEC(self.REF(r)))))
            I2.assume(self.ROUND(self.REF(r)) == self.REF(r))
            I2.prove(isinstance(a['space'], ObjV) and a['space'] is self.space, 'refined in the space of the acquisition')
            I2.prove(a['context_manager'] is self.cm, 'refined with the context of this request')
            return (mk(I2, (1, MD), lambda i, j: el(self.REF(r), ZI(j)), row=lambda i: self.REF(r)), mk(I2, (1, 1), lambda i, j: z3.Real('fref')))
        I.contracts[APPLY] = c_apply
        # an evaluator used before: whatever it stored is arbitrary
        self.dm = None
        if dedup:
            s = SetV(I, lambda r: self.BAN(r), 'row'); s.elen = D
            def dupz(I2, z): return self.BAN(NP.rowfn(I2, NP.atleast_2d(I2, NP.as_arr(I2, z)))(0))
            def dupu(I2, u): return self.BAN(self.DEC(NP.rowfn(I2, NP.atleast_2d(I2, NP.as_arr(I2, u)))(0)))
            self.dm = stub(I, 'DuplicateManager', unique_points=s, space=self.space, is_zipped_x_duplicate=native('is_zipped_x_duplicate', dupz), is_unzipped_x_duplicate=native('is_unzipped_x_duplicate', dupu))
    def ctxnow(self): return self.opt.fields['context_manager']
    def explored(self, I, dm):
        if dm is not None and I.branch(I.fresh('explored', 'Bool')): raise PyRaise('FullyExploredOptimizationDomainError', ('explored',))

class Batch(object):
    """construct the evaluator, ask for a batch twice"""
    timeout = None
    def __init__(self, cls, dedup, kind): self.cls = cls; self.dedup = dedup; self.kind = kind; self.label = E + cls + '.compute_batch (%s)' % ('de-duplication' if dedup else 'no de-duplication')
    def run(self, I):
        I.cur = self.label; em = Prover(I); c = I.lookup_qual(E + self.cls)
        if not isinstance(c, ClassV): raise Unsupported('class %s not found' % self.cls)
        w = EW(I, self.cls, self.dedup)
        def body():
            ev = I.call(c, [w.acq, w.b], {}) if self.kind != 'sequential' else I.call(c, [w.acq], {})
            for k in list(ev.fields):
                if k not in ('acquisition', 'batch_size', 'space', 'num_anchor', 'model', 'optimizer_name', 'f', 'f_df'): ev.fields[k] = stub(I, 'left by an earlier request')
            ev.fields.setdefault('context_manager', stub(I, 'ContextManager of an earlier request')) if self.kind == 'thompson' else None
            r = I.call(I.getattr(ev, 'compute_batch'), [], {'duplicate_manager': w.dm, 'context_manager': w.cm})
            return r
        if not I.vacuity('precondition is satisfiable'): return
        outs = I.explore(body); live = False
        for u in outs:
            I.load(u.snap); cx = Ctx('path'); cx.pc = list(u.pc); cx.facts = list(u.facts); I.stack.append(cx)
            try:
                if u.kind == 'raise': em('raises only the fully-explored error (%s)' % u.value.clsname, u.value.clsname == 'FullyExploredOptimizationDomainError' and self.dedup); continue
                live = True
                self.post(I, em, w, u.value)
            finally: I.stack.pop()
        if not live: em('some path returns a batch', False)
    def post(self, I, em, w, r):
        g = w.g.fields; b = w.b if self.kind != 'sequential' else 1
        R = as_arr(I, r); em('a matrix of model points', zand(R.ndim == 2, zeq(R.shape[-1], w.MD)))
        if R.ndim != 2: return
        m = R.shape[0]; rr = NP.rowfn(I, R)
        for dm, cm in g['opt']: em('the search excludes what this request excludes', dm is w.dm)
        for num, dm, cm, un, k, A in g['anch']:
            em('candidates exclude what this request excludes', dm is w.dm)
            em('candidates respect the context of this request', cm is w.cm)
        if self.kind != 'thompson':
            em('one search', len(g['opt']) == 1)
            em('the first point is the acquisition optimum', rr(0) == w.x0)
        if not self.dedup or self.kind == 'sequential': em('exactly the requested number of points', zeq(m, b))
        else: em('at least one point, at most the requested number', zand(zle(1, m), zle(m, b)))
        lo = 0 if self.kind == 'thompson' else 1
        if self.kind in ('random', 'thompson'):
            if self.kind == 'random': ok = lambda x: w.ANCH(x)
            else: ok = lambda x: zor(w.ANCH(x), exists(I, 'Row', lambda a: zand(w.ANCH(a), x == w.REF(a))))
            with I.gen(m) as i:
                with I.hyp(zle(lo, i)):
                    em('the other points are sampled candidates%s' % (' or their refinements' if self.kind == 'thompson' else ''), ok(rr(i)))
        if self.dedup:
            with I.gen(m) as i:
                with I.hyp(True): em('no point is excluded', znot(w.BAN(w.DEC(rr(i)))))
            if self.kind in ('random', 'thompson'):
                with I.gen(m) as i:
                    with I.gen(m) as j:
                        with I.hyp(zlt(i, j)): em('no point is repeated', znot(w.DEC(rr(i)) == w.DEC(rr(j))))
BATCH = [Batch('sequential.Sequential', d, 'sequential') for d in (False, True)] + [Batch('batch_random.RandomBatch', d, 'random') for d in (False, True)] + [Batch('batch_thompson.ThompsonBatch', d, 'thompson') for d in (False, True)]
CONTRACTS = BATCH

# --- local penalization
LPE = E + 'batch_local_penalization.'
class Penal(object):
    """LocalPenalization.compute_batch on an acquisition in an arbitrary state; the batch size is arbitrary"""
    timeout = None
    def __init__(self, dedup, part): self.dedup = dedup; self.part = part; self.label = LPE + 'LocalPenalization.compute_batch: %s (%s)' % (part, 'de-duplication' if dedup else 'no de-duplication')
    def run(self, I):
        I.cur = self.label; em = Prover(I); c = I.lookup_qual(LPE + 'LocalPenalization'); al = I.lookup_qual('GPyOpt.acquisitions.LP.AcquisitionLP')
        if not isinstance(c, ClassV) or not isinstance(al, ClassV): raise Unsupported('class not found')
        MD = integer(I, 'MD', 1); b = integer(I, 'batch_size', 1); no = z3.Const('norow', Row); n = integer(I, 'n', 1)
        Y = column(I, n, 'Y'); gp = stub(I, 'GP regression', Y=Y, X=mat(I, n, MD, 'X')); model = stub(I, 'Model', model=gp)
        empty = mk(I, (0, MD), lambda i, j: 0, row=lambda i: no)
        g = ObjV(I, 'ghost', {'chosen': empty, 'pen': True, 'n': 0, 'LM': False}, tag='stub')
        L = real(I, 'L'); dm = stub(I, 'DuplicateManager') if self.dedup else None
        # the state of the acquisition: which points it penalises
        st = ObjV(I, 'penalised', {'X': mat(I, integer(I, 'stale', 1), MD, 'stale')}, tag='stub')
        bounds = stub(I, 'bounds'); space = stub(I, 'Space', get_bounds=native('get_bounds', lambda I2: bounds))
        def upd(I2, X, L_, Min):
            if X is None: st.fields['X'] = None; return
            X = NP.atleast_2d(I2, NP.as_arr(I2, X))
            I2.prove(zeq(NP.scalar_of(L_), L), 'the estimated constant of this surrogate is used')
            m = NP.scalar_of(Min)
            with I2.gen(n) as i:
                with I2.hyp(True): I2.prove(zle(m, Y.data(i, 0)), 'the scale is the best observed output')
            I2.prove(exists(I2, 'Int', lambda i: zand(0 <= i, i < n, zeq(m, Y.data(i, 0)))), 'the scale is an observed output')
            st.fields['X'] = snapshot_arr(I2, X)
        def opt(I2, duplicate_manager=None):
            ch = g.fields['chosen']; X = st.fields['X']; m = ch.shape[0]
            I2.prove(duplicate_manager is dm, 'the search excludes what this request excludes')
            if X is None: I2.prove(zeq(m, 0), 'later points are chosen with a penalty')
            else:
                I2.prove(zlt(0, m), 'the first point is chosen without penalty')
                I2.prove(zeq(X.shape[0], m), 'one penalty for each point chosen so far')
                with I2.gen(m) as i:
                    with I2.hyp(True): I2.prove(zeq_row(I2, X, i, ch, i), 'the penalised points are the chosen ones, in order')
            x = I2.fresh('xopt', 'Row'); P = mk(I2, (1, MD), lambda i, j: el(x, ZI(j)), row=lambda i: x)
            g.fields['chosen'] = NP.concat(I2, [ch, P], 0)
            return (P, mk(I2, (1, 1), lambda i, j: z3.Real('fopt')))
        acq = ObjV(I, al, dict(update_batches=native('update_batches', upd), optimize=native('optimize', opt), model=model, space=space, optimizer=stub(I, 'AcquisitionOptimizer')))
        def c_L(I2, a, fv):
            I2.prove(a['model'] is gp, 'the constant is estimated from this surrogate'); I2.prove(a['bounds'] is bounds, 'the constant is estimated over the search domain'); return L
        I.contracts[LPE + 'estimate_L'] = c_L
        def hook(I2, view):
            out = []; ch = [l for l in view.arrs(2) if l.name == 'chosen']
            for l in view.arrs(2):
                out.append(('rows of %s' % l.name, lambda s, k, l=l: zeq(s[l.key].shape[0], zadd(k, l.init.shape[0]))))
            return out
        for q in ('compute_batch',): I.loop_hooks[LPE + 'LocalPenalization.' + q] = hook
        def body():
            ev = I.call(c, [acq, b], {})
            return I.call(I.getattr(ev, 'compute_batch'), [], {'duplicate_manager': dm, 'context_manager': stub(I, 'ContextManager')})
        if not I.vacuity('precondition is satisfiable'): return
        outs = I.explore(body)
        if not outs: em('some path', False)
        for u in outs:
            I.load(u.snap); cx = Ctx('path'); cx.pc = list(u.pc); cx.facts = list(u.facts); I.stack.append(cx)
            try:
                if u.kind == 'raise': em('does not raise (%s)' % u.value.clsname, False); continue
                R = as_arr(I, u.value); ch = g.fields['chosen']
                em('exactly the requested number of points', zand(R.ndim == 2, zeq(R.shape[0], b), zeq(ch.shape[0], b)))
                em('no penalty remains', st.fields['X'] is None)
                with I.gen(b) as i:
                    with I.hyp(True): em('the batch is the chosen points, in order', zeq_row(I, R, i, ch, i))
            finally: I.stack.pop()
LPB = [Penal(d, 'batch') for d in (False, True)]
CONTRACTS = BATCH + LPB
