"""Symbolic interpreter and obligation generator for the Python subset used by GPyOpt."""
import ast, os, re, time, sys, contextlib
import z3
from fractions import Fraction
from .values import *
from . import solve

REPO = os.environ.get('VERIF_REPO', '/repo')

class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass

class Fact(object):
    __slots__ = ('vars', 'hyps', 'body', '_z', 'defn', 'pats')
    def __init__(self, vars, hyps, body, defn=False, pats=None):
        self.vars = vars; self.hyps = hyps; self.body = body; self._z = None; self.defn = defn; self.pats = pats
    def z3(self):
        if self._z is None:
            h = zand(*self.hyps)
            b = Z(zimp(h, self.body))
            if not self.vars: self._z = b
            else:
                pats = self.pats or solve.patterns(self.vars, self.body, self.hyps)
                try: self._z = z3.ForAll(self.vars, b, patterns=pats) if pats else z3.ForAll(self.vars, b)
                except z3.Z3Exception: self._z = z3.ForAll(self.vars, b)
        return self._z

class Ctx(object):
    """kind 'path': decisions; kind 'gen': generic index"""
    def __init__(self, kind, idx=(), guard=True, prefix=()):
        self.kind = kind; self.idx = list(idx); self.guard = guard
        self.facts = []; self.pc = []; self.prefix = list(prefix); self.pos = 0
        self.alts = []; self.explorable = False

class Outcome(object):
    def __init__(self, kind, value, pc, facts, snap):
        self.kind = kind; self.value = value; self.pc = pc; self.facts = facts; self.snap = snap

class Obligation(object):
    def __init__(self, func, name, status, backend, t, detail=''):
        self.func = func; self.name = name; self.status = status; self.backend = backend; self.t = t; self.detail = detail

class Program(object):
    """parsed source of /repo/GPyOpt"""
    def __init__(self, repo=REPO):
        self.repo = repo; self.mods = {}
        root = os.path.join(repo, 'GPyOpt')
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('testing', '__pycache__'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'): rel = rel[:-9]
                    try:
                        with open(p) as fh: tree = ast.parse(fh.read())
                    except SyntaxError as e:
                        tree = None
                    self.mods[rel] = (p, tree)

class Interp(object):
    MAXPATHS = 3000
    def __init__(self, prog, timeout=8000):
        self.prog = prog
        self.modules = {}
        self.heap = []
        self.elems = ElemCache(self)
        self.filters = {}            # enumerations of filtered ranges
        self.stack = [Ctx('path')]
        self.obls = []
        self.cur = '?'
        self.contracts = {}          # qualname -> Native-like fn(I, bound_args, fv) used at call sites
        self.loop_hooks = {}         # qualname -> hook
        self.natives = {}            # dotted external name -> fn
        self.recs = []               # recursive definitions made by loops
        self.timeout = timeout
        self.fn_stack = []
        self.cnt = 0
        self.called = set()          # repo functions executed (inlined) or used by contract
        self.assumed_ext = set()     # external functions used through an assumed contract
        self.soft_fail = None
        self.deadline = None
        self.root_facts_mark = 0
        from . import npmodel
        npmodel.install(self)

    # ------------------------------------------------------------ heap / snapshots
    def register(self, m): self.heap.append(m)
    def snapshot(self): return [(m, m.save()) for m in self.heap]

    # ------------------------------------------------------------ contexts
    @property
    def ctx(self): return self.stack[-1]
    def idx_stack(self):
        r = []
        for c in self.stack: r += c.idx
        return r
    def fresh(self, name, sort='Real', extra=()):
        """fresh symbol, a function of the enclosing generic indices (and of extra argument sorts -> returns callable)"""
        self.cnt += 1
        s = {'Real': z3.RealSort(), 'Int': z3.IntSort(), 'Bool': z3.BoolSort(), 'Row': Row}.get(sort, sort)
        idx = self.idx_stack()
        ex = [{'Real': z3.RealSort(), 'Int': z3.IntSort(), 'Bool': z3.BoolSort(), 'Row': Row}.get(e, e) for e in extra]
        nm = '%s!%d' % (name, self.cnt)
        dom = [i.sort() for i in idx] + ex
        if not dom: return z3.Const(nm, s)
        f = z3.Function(nm, *(dom + [s]))
        if not ex: return f(*idx)
        def app(*a):
            a = [ZR(x) if so == z3.RealSort() else (ZI(x) if so == z3.IntSort() else x) for x, so in zip(a, ex)]
            return f(*(idx + a))
        app.decl = f
        return app
    defmode = False
    silent = 0
    def assume(self, f):
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        self.ctx.facts.append(Fact([], [], f, self.defmode))
    def raw_fact(self, vars, body, pats):
        self.ctx.facts.append(Fact(list(vars), [], body, self.defmode, pats))
    def definitional(self, thunk):
        """facts that define fresh symbols (or are theorems): they hold whatever the path condition"""
        old = self.defmode; self.defmode = True
        try: thunk()
        finally: self.defmode = old
    def lift(self, f, vars=(), hyps=()):
        """the fact seen from outside a level with the given generic indices / hypotheses"""
        return Fact(list(vars) + f.vars, (list(hyps) if not f.defn else []) + f.hyps, f.body, f.defn, (None if vars else f.pats))
    def side(self, thunk): thunk()
    def load(self, snap):
        for m, s in snap: m.restore(s)
        self.heap[:] = [m for m, _ in snap]
    def load_keep(self, snap):
        for m, s in snap: m.restore(s)
    def refuted(self, timeout=1500):
        """are the present assumptions contradictory?"""
        s = z3.Solver(); s.set('timeout', timeout); s.set('smt.mbqi', False)
        for a in self.assumptions(): s.add(a)
        return s.check() == z3.unsat
    def check_ext(self, goal):
        if isinstance(goal, bool): return goal
        return self.check(goal, 3000)
    def assume_forall(self, ns, fn):
        """for all indices below ns (list of bounds): fn(*idx)"""
        if not isinstance(ns, (list, tuple)): ns = [ns]
        cs = [asint_const(n) for n in ns]
        if len(ns) == 1 and cs[0] is not None and cs[0] <= 8:
            for i in range(cs[0]): self.assume(fn(i))
            return
        with contextlib.ExitStack() as st:
            ks = [st.enter_context(self.gen(n)) for n in ns]
            self.assume(fn(*ks))
    @contextlib.contextmanager
    def gen(self, n, name='k', guard=None):
        self.cnt += 1
        k = z3.Int('%s!%d' % (name, self.cnt))
        g = zand(0 <= k, k < ZI(n)) if guard is None else guard(k)
        c = Ctx('gen', [k], g)
        self.stack.append(c)
        try:
            yield k
        finally:
            self.stack.pop()
        for f in c.facts:
            self.ctx.facts.append(Fact([k] + f.vars, [g] + f.hyps, f.body, f.defn))
    @contextlib.contextmanager
    def gen_sort(self, sort, name='r'):
        """generic element of an uninterpreted sort (no guard)"""
        self.cnt += 1
        k = z3.Const('%s!%d' % (name, self.cnt), Row if sort == 'Row' else z3.RealSort() if sort == 'Real' else sort)
        c = Ctx('gen', [k], True)
        self.stack.append(c)
        try: yield k
        finally: self.stack.pop()
        for f in c.facts: self.ctx.facts.append(Fact([k] + f.vars, f.hyps, f.body, f.defn))
    @contextlib.contextmanager
    def hyp(self, h):
        """facts and proofs under hypothesis h"""
        c = Ctx('path'); c.pc.append(h)
        if h is True: c.pc = []
        self.stack.append(c)
        try: yield
        finally: self.stack.pop()
        for f in c.facts: self.ctx.facts.append(Fact(f.vars, (list(c.pc) if not f.defn else []) + f.hyps, f.body, f.defn, f.pats))
    def assumptions(self):
        out = []
        for c in self.stack:
            if c.guard is not True: out.append(Z(c.guard))
            for f in c.facts: out.append(f.z3())
            for p in c.pc: out.append(Z(p))
        return out
    def qf_assumptions(self):
        out = []
        for c in self.stack:
            if c.guard is not True: out.append(Z(c.guard))
            for f in c.facts:
                if not f.vars: out.append(f.z3())
            for p in c.pc: out.append(Z(p))
        return out

    # ------------------------------------------------------------ decisions
    def feasible(self, cond):
        s = z3.Solver(); s.set('timeout', 300); s.set('smt.mbqi', False)
        for a in self.qf_assumptions(): s.add(a)
        s.add(Z(cond))
        return s.check() != z3.unsat
    def branch(self, cond):
        cond = simp(cond) if is_sym(cond) else cond
        if isinstance(cond, bool): return cond
        if not is_sym(cond): raise Unsupported('branch on %r' % (cond,))
        c = self.ctx
        if not c.explorable:
            raise Unsupported('undetermined branch outside a path context: %s' % cond)
        if c.pos < len(c.prefix):
            d = c.prefix[c.pos]; c.pos += 1
        else:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget for symbolic execution exceeded')
            t = self.feasible(cond); f = self.feasible(z3.Not(cond))
            if not t and not f: raise Infeasible()
            if t and f:
                c.alts.append(c.prefix[:c.pos] + [False]); d = True
                c.prefix.append(True); c.pos += 1
            else:
                d = t; c.prefix.append(d); c.pos += 1
        c.pc.append(cond if d else z3.Not(cond))
        return d
    def choose_cases(self, conds):
        """fork over exhaustive conditions; returns the index taken"""
        for i, c in enumerate(conds[:-1]):
            if self.branch(c): return i
        self.ctx.pc.append(Z(conds[-1])) if conds[-1] is not True else None
        return len(conds) - 1
    def replaying(self):
        return any(c.kind == 'path' and c.pos < len(c.prefix) for c in self.stack)

    def explore(self, thunk):
        """run thunk along every path from the present state; returns outcomes (state is restored)"""
        pre = self.snapshot(); nprefix = len(self.prefixes); nmem = len(self.memsets)
        work = [[]]; outs = []
        replay_outer = self.replaying()
        while work:
            prefix = work.pop()
            if len(outs) > self.MAXPATHS: raise Unsupported('too many paths')
            self.load(pre); del self.prefixes[nprefix:]; del self.memsets[nmem:]
            c = Ctx('path', prefix=prefix)
            c.replay_outer = replay_outer; c.explorable = True
            self.stack.append(c)
            depth = len(self.stack); fdepth = len(self.fn_stack)
            try:
                try:
                    v = thunk(); o = Outcome('normal', v, None, None, None)
                except ReturnEx as e: o = Outcome('return', e.v, None, None, None)
                except BreakEx: o = Outcome('break', None, None, None, None)
                except ContinueEx: o = Outcome('normal', None, None, None, None)
                except PyRaise as e: o = Outcome('raise', e, None, None, None)
                except Infeasible: o = None
                if o is not None:
                    o.pc = list(c.pc); o.facts = list(c.facts); o.snap = self.snapshot()
                    outs.append(o)
                work += c.alts
            finally:
                del self.stack[depth - 1:]; del self.fn_stack[fdepth:]
        self.load(pre); del self.prefixes[nprefix:]; del self.memsets[nmem:]
        return outs

    # ------------------------------------------------------------ obligations
    def prove(self, goal, name, assume_after=True):
        if goal is True or (is_sym(goal) and z3.is_true(goal)):
            if not self.replaying() and not self.silent: self.obls.append(Obligation(self.cur, name, 'ok', 'trivial', 0.0))
            return True
        if self.replaying() or self.silent:
            if assume_after: self.assume(goal)
            return True
        ass = self.assumptions()
        t0 = time.time()
        st, be, detail = solve.check(ass, Z(goal), self.timeout)
        self.obls.append(Obligation(self.cur, name, st, be, time.time() - t0, detail))
        if assume_after: self.assume(goal)
        return st == 'ok'
    def check(self, goal, timeout=2000):
        """unrecorded entailment test"""
        goal = simp(goal) if is_sym(goal) else goal
        if isinstance(goal, bool): return goal
        st, _, _ = solve.check(self.assumptions(), Z(goal), timeout, quick=True)
        return st == 'ok'
    def prove_forall(self, ns, fn, name):
        if not isinstance(ns, (list, tuple)): ns = [ns]
        with contextlib.ExitStack() as st:
            ks = [st.enter_context(self.gen(n)) for n in ns]
            with self.hyp(True):
                self.prove(fn(*ks), name)
    def vacuity(self, name):
        """the assumptions must not be contradictory (reachability)"""
        if self.replaying(): return
        s = z3.Solver(); s.set('timeout', 1500); s.set('smt.mbqi', False)
        for a in self.assumptions(): s.add(a)
        if s.check() == z3.unsat:
            self.obls.append(Obligation(self.cur, name, 'vacuous', 'z3', 0.0))
            return False
        return True

    # ------------------------------------------------------------ program access
    def module(self, name):
        if name in self.modules: return self.modules[name]
        if name not in self.prog.mods: return None
        path, tree = self.prog.mods[name]
        if tree is None: raise Unsupported('module %s does not parse' % name)
        m = ModV(name, path, tree); self.modules[name] = m
        self.load_body(m, tree.body)
        return m
    def load_body(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.globals[st.name] = ('func', st)
            elif isinstance(st, ast.ClassDef):
                m.globals[st.name] = ('class', st)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for nm, ref in self.import_refs(m, st): m.globals[nm] = ref
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): m.globals[t.id] = ('expr', st.value)
            elif isinstance(st, ast.Try): self.load_body(m, st.body)
            elif isinstance(st, ast.If): self.load_body(m, st.body)
    def is_pkg(self, name):
        return any(x.startswith(name + '.') for x in self.prog.mods) and self.prog.mods[name][0].endswith('__init__.py')
    def import_refs(self, m, st):
        out = []
        if isinstance(st, ast.Import):
            for a in st.names:
                nm = a.asname or a.name.split('.')[0]
                full = a.name if a.asname else a.name.split('.')[0]
                out.append((nm, ('mod', full) if full in self.prog.mods else ('ext', full)))
        else:
            if st.level:
                base = m.name.split('.')
                if not self.prog.mods[m.name][0].endswith('__init__.py'): base = base[:-1]
                base = base[:len(base) - (st.level - 1)]
                full = '.'.join(base + ([st.module] if st.module else []))
            else: full = st.module
            for a in st.names:
                nm = a.asname or a.name
                if a.name == '*': continue
                if full in self.prog.mods:
                    if full + '.' + a.name in self.prog.mods: out.append((nm, ('mod', full + '.' + a.name)))
                    else: out.append((nm, ('from', full, a.name)))
                else: out.append((nm, ('ext', full + '.' + a.name)))
        return out
    def resolve_ref(self, m, nm, ref):
        if not isinstance(ref, tuple): return ref
        k = ref[0]
        if k == 'func': v = self.make_func(ref[1], None, m, m.name + '.' + nm)
        elif k == 'class': v = self.make_class(ref[1], m)
        elif k == 'mod': v = self.module(ref[1])
        elif k == 'ext': v = ExtV(ref[1])
        elif k == 'from':
            mm = self.module(ref[1]); v = self.mod_attr(mm, ref[2])
        elif k == 'expr':
            env = Env(self, None, m)
            v = self.eval(ref[1], env)
            if isinstance(v, Mut): return v      # fresh mutable per use would be wrong, but constants only
        else: raise Unsupported('ref %s' % k)
        m.globals[nm] = v
        return v
    def mod_attr(self, m, nm):
        if nm in m.globals: return self.resolve_ref(m, nm, m.globals[nm])
        sub = m.name + '.' + nm
        if sub in self.prog.mods: return self.module(sub)
        raise Unsupported('module %s has no attribute %s' % (m.name, nm))
    def lookup_qual(self, qual):
        """qualified name -> (FuncV, ClassV or None); None when absent"""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.prog.mods:
                m = self.module(mn); rest = parts[i:]
                if not rest: return m
                if rest[0] not in m.globals: return None
                v = self.mod_attr(m, rest[0])
                for r in rest[1:]:
                    if isinstance(v, ClassV):
                        v = self.class_attr(v, r)
                        if v is None: return None
                    else: return None
                return v
        return None
    def make_func(self, node, env, module, qual, cls=None):
        defaults = {}
        a = node.args
        denv = env or Env(self, None, module)
        pos = a.posonlyargs + a.args
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults): defaults[arg.arg] = self.eval(d, denv)
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: defaults[arg.arg] = self.eval(d, denv)
        static = False; prop = False
        for d in getattr(node, 'decorator_list', []):
            s = ast.unparse(d)
            if s == 'staticmethod': static = True
            elif s.endswith('abstractmethod'): pass
            elif s == 'property': prop = True
            else: raise Unsupported('decorator ' + s)
        f = FuncV(node, env, module, getattr(node, 'name', '<lambda>'), qual, cls, defaults, static)
        f.prop = prop
        return f
    def make_class(self, node, module):
        c = ClassV(node.name, module.name + '.' + node.name, module, node)
        for st in node.body:
            if isinstance(st, ast.FunctionDef): c.attrs[st.name] = ('func', st)
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name): c.attrs[st.targets[0].id] = ('expr', st.value)
        module.globals[node.name] = c
        return c
    def bases(self, c):
        if c._bases is None:
            c._bases = []
            for b in c.node.bases:
                if isinstance(b, ast.Call) and ast.unparse(b.func).endswith('with_metaclass'): continue
                s = ast.unparse(b)
                if s in ('object',): continue
                if s in ('Exception', 'ValueError', 'RuntimeError', 'KeyError'):
                    c._bases.append(s); continue
                c._bases.append(self.eval(b, Env(self, None, c.module)))
        return c._bases
    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            if isinstance(b, ClassV):
                for x in self.mro(b):
                    if x not in out: out.append(x)
        return out
    def class_attr(self, c, nm, after=None):
        ms = self.mro(c)
        if after is not None: ms = ms[ms.index(after) + 1:]
        for k in ms:
            if nm in k.attrs:
                r = k.attrs[nm]
                if isinstance(r, tuple) and r and r[0] == 'func':
                    r = self.make_func(r[1], None, k.module, k.qual + '.' + nm, k); k.attrs[nm] = r
                elif isinstance(r, tuple) and r and r[0] == 'expr':
                    r = self.eval(r[1], Env(self, None, k.module))
                    if not isinstance(r, Mut): k.attrs[nm] = r
                return r
        return None
    def is_exc_class(self, c):
        if isinstance(c, str): return True
        return any(isinstance(b, str) or (isinstance(b, ClassV) and self.is_exc_class(b)) for b in self.bases(c))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Native): return f.fn(self, args, kwargs)
        if isinstance(f, BoundV): return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, FuncV): return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV): return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtV): return self.call_ext(f.name, args, kwargs)
        if isinstance(f, Opaque): return Opaque('call')
        if callable(f): return f(self, args, kwargs)
        if isinstance(f, ObjV):
            c = self.getattr(f, '__call__', None)
            if c is not None: return self.call(c, args, kwargs)
        raise Unsupported('call of %r' % (f,))
    def call_ext(self, name, args, kwargs):
        h = self.natives.get(name)
        if h is None and name.startswith('numpy.ndarray.') and args and isinstance(args[0], Arr):
            from .npmodel import arr_attr
            return self.call(arr_attr(self, args[0], name.rsplit('.', 1)[1])[0], args[1:], kwargs)
        if h is None: raise Unsupported('external function %s has no contract' % name)
        self.assumed_ext.add(name)
        return h(self, args, kwargs)
    def bind(self, f, args, kwargs):
        a = f.node.args; env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args); kwargs = dict(kwargs)
        for nm in names:
            if args: env[nm] = args.pop(0)
            elif nm in kwargs: env[nm] = kwargs.pop(nm)
            elif nm in f.defaults: env[nm] = f.defaults[nm]
            else: raise PyRaise('TypeError', ('missing argument ' + nm,))
        if args:
            if a.vararg: env[a.vararg.arg] = tuple(args)
            else: raise PyRaise('TypeError', ('too many arguments',))
        elif a.vararg: env[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs: env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.defaults: env[x.arg] = f.defaults[x.arg]
            else: raise PyRaise('TypeError', ('missing argument ' + x.arg,))
        if a.kwarg: env[a.kwarg.arg] = DictV(self, kwargs)
        elif kwargs: raise PyRaise('TypeError', ('unexpected argument ' + list(kwargs)[0],))
        return env
    def call_func(self, f, args, kwargs):
        self.called.add(f.qual)
        con = self.contracts.get(f.qual)
        if con is not None and (not self.fn_stack or self.verifying != f.qual or len(self.fn_stack) > 0):
            return con(self, self.bind(f, args, kwargs), f)
        return self.inline(f, args, kwargs)
    def inline(self, f, args, kwargs):
        if len(self.fn_stack) > 60: raise Unsupported('recursion too deep')
        env = Env(self, f.env, f.module, f)
        env.vars.update(self.bind(f, args, kwargs))
        self.fn_stack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda): return self.eval(f.node.body, env)
            self.scan_globals(f)
            try: self.block(f.node.body, env)
            except ReturnEx as e: return e.v
            return None
        finally:
            if self.fn_stack: self.fn_stack.pop()
    def scan_globals(self, f):
        if getattr(f, '_gen', None) is None:
            f._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        if f._gen: raise Unsupported('generator function')
    verifying = None
    def instantiate(self, c, args, kwargs):
        if self.is_exc_class(c):
            return ObjV(self, c, {'args': tuple(args)})
        o = ObjV(self, c)
        con = self.contracts.get(c.qual)
        if con is not None: return con(self, {'args': args, 'kwargs': kwargs}, c)
        init = self.class_attr(c, '__init__')
        if init is not None: self.call(init, [o] + list(args), kwargs)
        elif args or kwargs: raise PyRaise('TypeError', ('no constructor arguments',))
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, nm, default=UNDEF):
        if isinstance(o, ObjV):
            if nm in o.fields:
                v = o.fields[nm]
                return v
            if nm == '__class__': return o.cls
            if isinstance(o.cls, ClassV):
                v = self.class_attr(o.cls, nm)
                if isinstance(v, FuncV):
                    if getattr(v, 'prop', False): return self.call(v, [o])
                    return v if v.static else BoundV(v, o)
                if v is not None or nm in [a for k in self.mro(o.cls) for a in k.attrs]: return v
            if 'lazy' in o.__dict__ and o.lazy is not None:
                v = o.lazy(self, nm)
                if v is not UNDEF: o.fields[nm] = v; return v
            if default is not UNDEF: return default
            if o.tag == 'stub': raise Unsupported('stub %s has no attribute %s' % (o.cls, nm))
            raise PyRaise('AttributeError', (nm,))
        if isinstance(o, ModV): return self.mod_attr(o, nm)
        if isinstance(o, ExtV):
            full = o.name + '.' + nm
            if full in CONSTS: return CONSTS[full](self)
            return ExtV(full)
        if isinstance(o, ClassV):
            if nm == '__name__': return o.name
            v = self.class_attr(o, nm)
            if v is None and default is not UNDEF: return default
            if v is None: raise PyRaise('AttributeError', (nm,))
            return v
        if isinstance(o, SuperV):
            v = self.class_attr(o.obj.cls, nm, after=o.cls)
            if v is None:
                if nm == '__init__': return Native('object.__init__', lambda I, a, k: None)
                raise PyRaise('AttributeError', (nm,))
            return BoundV(v, o.obj) if isinstance(v, FuncV) and not v.static else v
        if isinstance(o, Opaque):
            if getattr(o, 'parts', None) is not None and nm in ('strip', 'lstrip', 'rstrip'): return Native(nm, lambda I, a, k: o)
            return Opaque(o.what + '.' + nm)
        from . import npmodel
        v = npmodel.method(self, o, nm)
        if v is not None: return v[0]
        if default is not UNDEF: return default
        if isinstance(o, FuncV) and nm == '__name__': return o.name
        if o is None: raise PyRaise('AttributeError', (nm,))
        raise Unsupported('attribute %s of %r' % (nm, o))
    def setattr(self, o, nm, v):
        if isinstance(o, ObjV):
            f = getattr(o, 'setattrf', None)
            if f is not None: f(self, nm, v)
            elif getattr(o, 'derived', False): raise Unsupported('field of an element reached through a copy')
            else: o.fields[nm] = v
            return
        if isinstance(o, Opaque): return
        from . import npmodel
        if isinstance(o, Arr) and nm == 'shape': raise Unsupported('assignment to shape')
        if isinstance(o, ModV): o.globals[nm] = v; return
        raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ names
    def lookup(self, nm, env):
        e = env
        while e is not None:
            if nm in e.vars:
                v = e.vars[nm]
                if v is UNDEF: raise PyRaise('UnboundLocalError', (nm,))
                return v
            if e.parent is None: break
            e = e.parent
        m = env.module
        f = env.func
        if m is not None and nm in m.globals: return self.resolve_ref(m, nm, m.globals[nm])
        from . import npmodel
        b = npmodel.builtin(self, nm)
        if b is not None: return b[0]
        if nm in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[nm]
        if self.is_local(nm, env): raise PyRaise('UnboundLocalError', (nm,))
        import builtins
        if hasattr(builtins, nm): raise Unsupported('builtin ' + nm)
        raise PyRaise('NameError', (nm,))
    def is_local(self, nm, env):
        if env.func is None or isinstance(env.func.node, ast.Lambda): return False
        return any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store) for n in ast.walk(env.func.node))

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body: self.stmt(st, env)
    def stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise Unsupported('statement ' + type(st).__name__)
        m(st, env)
    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return
        self.eval(st.value, env)
    def s_Pass(self, st, env): pass
    def s_Global(self, st, env):
        raise Unsupported('global statement')
    def s_Return(self, st, env): raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)
    def s_Break(self, st, env): raise BreakEx()
    def s_Continue(self, st, env): raise ContinueEx()
    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets: self.assign(t, v, env)
    def s_AnnAssign(self, st, env):
        if st.value is not None: self.assign(st.target, self.eval(st.value, env), env)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env.vars[t.id] = v
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vs):
                if isinstance(x, ast.Starred): x = x.value
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            from . import npmodel
            o = self.eval(t.value, env); i = self.index(t.slice, env)
            npmodel.setitem(self, o, i, v)
        else: raise Unsupported('assignment target')
    def unpack(self, v, n, elts=None):
        if elts and any(isinstance(e, ast.Starred) for e in elts): raise Unsupported('starred assignment')
        if isinstance(v, tuple): xs = list(v)
        elif isinstance(v, ListV) and v.concrete(): xs = v.items()
        else:
            from . import npmodel
            n2, get = npmodel.iterate(self, v)
            if asint_const(n2) is None: raise Unsupported('unpacking a sequence of symbolic length')
            xs = [get(i) for i in range(asint_const(n2))]
        if len(xs) != n: raise PyRaise('ValueError', ('unpack',))
        return xs
    def s_AugAssign(self, st, env):
        from . import npmodel
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = npmodel.inplace(self, type(st.op).__name__, old, self.eval(st.value, env))
            env.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env); old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, npmodel.inplace(self, type(st.op).__name__, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env); i = self.index(t.slice, env)
            old = npmodel.getitem(self, o, i)
            if isinstance(old, ListV): raise Unsupported('augmented assignment to list element')
            npmodel.setitem(self, o, i, npmodel.binop(self, type(st.op).__name__, old, self.eval(st.value, env)))
        else: raise Unsupported('augmented target')
    def truth(self, v):
        from . import npmodel
        return npmodel.truth(self, v)
    def s_If(self, st, env):
        if self.branch(self.truth(self.eval(st.test, env))): self.block(st.body, env)
        else: self.block(st.orelse, env)
    def s_Assert(self, st, env):
        if not self.branch(self.truth(self.eval(st.test, env))): raise PyRaise('AssertionError', ())
    def s_Raise(self, st, env):
        if st.exc is None:
            if getattr(self, 'cur_exc', None) is not None: raise self.cur_exc
            raise Unsupported('bare raise')
        v = self.eval(st.exc, env)
        if isinstance(v, ClassV): v = self.instantiate(v, [], {})
        if isinstance(v, ObjV): raise PyRaise(v.cls.name, (), v)
        if isinstance(v, ExcV): raise PyRaise(v.clsname, v.args)
        if isinstance(v, Native): raise PyRaise(v.name, ())
        raise Unsupported('raise of %r' % (v,))
    def exc_matches(self, e, names):
        chain = [e.clsname]
        if e.obj is not None and isinstance(e.obj.cls, ClassV):
            for k in self.mro(e.obj.cls): chain.append(k.name)
        import builtins
        b = [getattr(builtins, c, None) for c in chain]; b = [c for c in b if isinstance(c, type) and issubclass(c, BaseException)]
        for c in b: chain += [k.__name__ for k in c.__mro__ if k is not object]
        if 'LinAlgError' in chain: chain.append('ValueError')
        if not b: chain += ['Exception', 'BaseException']
        return any(n in chain for n in names)
    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None: names = ['BaseException']
                    else:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        names = [ast.unparse(t).split('.')[-1] for t in ts]
                    if self.exc_matches(e, names):
                        if h.name: env.vars[h.name] = Opaque('exception')
                        old = getattr(self, 'cur_exc', None); self.cur_exc = e
                        try: self.block(h.body, env)
                        finally: self.cur_exc = old
                        break
                else: raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                if sys.exc_info()[0] in (None, PyRaise, ReturnEx, BreakEx, ContinueEx): self.block(st.finalbody, env)
    def s_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if not isinstance(v, (Opaque, ObjV)): raise Unsupported('with on %r' % (v,))
            if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
        self.block(st.body, env)
    def s_FunctionDef(self, st, env):
        q = (env.func.qual if env.func else env.module.name) + '.' + st.name
        env.vars[st.name] = self.make_func(st, env, env.module, q, env.func.cls if env.func else None)
    def s_Import(self, st, env):
        for nm, ref in self.import_refs(env.module, st): env.vars[nm] = self.resolve_import(ref)
    s_ImportFrom = s_Import
    def resolve_import(self, ref):
        if ref[0] == 'mod': return self.module(ref[1])
        if ref[0] == 'ext': return ExtV(ref[1])
        return self.mod_attr(self.module(ref[1]), ref[2])
    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env); i = self.index(t.slice, env)
                if isinstance(o, DictV) and isinstance(i, str):
                    if i not in o.d: raise PyRaise('KeyError', (i,))
                    del o.d[i]; continue
            if isinstance(t, ast.Name) and t.id in env.vars:
                del env.vars[t.id]; continue
            raise Unsupported('del')
    def s_For(self, st, env):
        from . import loops
        loops.exec_for(self, st, env)
    def s_While(self, st, env):
        from . import loops
        loops.exec_while(self, st, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression ' + type(e).__name__)
        return m(e, env)
    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float): return Fraction(repr(v))
        if v is Ellipsis: return Opaque('...')
        return v
    def e_Name(self, e, env): return self.lookup(e.id, env)
    def e_Attribute(self, e, env): return self.getattr(self.eval(e.value, env), e.attr)
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return ListV(self, self.elts(e.elts, env))
    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                from . import npmodel
                v = self.eval(x.value, env)
                n, get = npmodel.iterate(self, v)
                c = asint_const(n)
                if c is None: raise Unsupported('star of symbolic length')
                out += [get(i) for i in range(c)]
            else: out.append(self.eval(x, env))
        return out
    def e_Dict(self, e, env):
        d = DictV(self)
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsupported('dict unpacking')
            d.d[self.hashkey(self.eval(k, env))] = self.eval(v, env)
        return d
    def hashkey(self, k):
        if isinstance(k, (str, int, Fraction, tuple)) or k is None: return k
        raise Unsupported('dictionary key %r' % (k,))
    def e_Set(self, e, env):
        from . import npmodel
        return npmodel.make_set(self, ListV(self, self.elts(e.elts, env)))
    def e_BinOp(self, e, env):
        from . import npmodel
        return npmodel.binop(self, type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))
    def e_UnaryOp(self, e, env):
        from . import npmodel
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not): return znot(self.truth(v))
        return npmodel.unop(self, type(e.op).__name__, v)
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t != isand: return v
                continue
            if self.branch(t) != isand: return v if not is_boolv(v) else (not isand)
        return v
    def e_Compare(self, e, env):
        from . import npmodel
        l = self.eval(e.left, env); res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(c, env)
            v = npmodel.compare(self, type(op).__name__, l, r)
            if len(e.ops) == 1: return v
            t = self.truth(v)
            res = zand(res, t)
            if res is False: return False
            l = r
        return res
    def e_IfExp(self, e, env):
        return self.eval(e.body, env) if self.branch(self.truth(self.eval(e.test, env))) else self.eval(e.orelse, env)
    def e_Lambda(self, e, env):
        q = (env.func.qual if env.func else (env.module.name if env.module else '?')) + '.<lambda>'
        return self.make_func(e, env, env.module, q, env.func.cls if env.func else None)
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'globals', 'exec'):
            from . import npmodel
            if e.func.id == 'super':
                ee = env
                while ee is not None and (ee.func is None or ee.func.cls is None): ee = ee.parent
                if e.args: c = self.eval(e.args[0], env); o = self.eval(e.args[1], env)
                else:
                    c = ee.func.cls; o = ee.vars[ee.func.node.args.args[0].arg]
                return SuperV(c, o)
            if e.func.id == 'globals': return ('globals', env.module)
            if e.func.id == 'exec': return npmodel.do_exec(self, [self.eval(a, env) for a in e.args], env)
            raise Unsupported(e.func.id)
        f = self.eval(e.func, env)
        args = self.elts(e.args, env); kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, DictV): raise Unsupported('** of non-dict')
                for kk, vv in v.d.items(): kwargs[kk] = vv
            else: kwargs[k.arg] = v
        return self.call(f, args, kwargs, e)
    def index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env)
            return SliceV(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple): return tuple(self.index(x, env) for x in s.elts)
        return self.eval(s, env)
    def e_Subscript(self, e, env):
        from . import npmodel
        return npmodel.getitem(self, self.eval(e.value, env), self.index(e.slice, env))
    def e_Slice(self, e, env): return self.index(e, env)
    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None: parts.append(('val', None)); continue
                if isinstance(x, (str, int)): parts.append(str(x))
                elif isinstance(x, Opaque): from . import npmodel; parts += npmodel.strparts(x)
                else: parts.append(('val', x))
        if all(isinstance(p, str) for p in parts): return ''.join(parts)
        from . import npmodel
        return npmodel.opstr(parts)
    def e_ListComp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env)
    def e_GeneratorExp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env)
    def e_SetComp(self, e, env):
        from . import loops, npmodel
        return npmodel.make_set(self, loops.comprehension(self, e, env))
    def e_DictComp(self, e, env):
        from . import loops
        return loops.dictcomp(self, e, env)
    def e_Starred(self, e, env): raise Unsupported('star')
    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env); self.assign(e.target, v, env); return v

PI = z3.Real('pi')
def pi_(I):
    I.definitional(lambda: I.assume(z3.And(PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416'))))
    return PI
CONSTS = {
    'numpy.inf': lambda I: INF, 'numpy.pi': pi_, 'math.pi': pi_,
    'numpy.newaxis': lambda I: None, 'numpy.float64': lambda I: ExtV('numpy.float64_'),
}
