"""Contracts: verification of a function body against its contract, and use of the contract at call sites."""
import time, z3
from .values import *
from .engine import Interp, Program, Ctx, Obligation, ReturnEx

class Prover(object):
    proving = True
    def __init__(self, I): self.I = I
    def __call__(self, name, f):
        if f is None: return
        self.I.prove(simp(f) if is_sym(f) else f, name)
    def forall(self, ns, fn, name): self.I.prove_forall(ns, fn, name)

class Assumer(object):
    proving = False
    def __init__(self, I): self.I = I
    def __call__(self, name, f):
        if f is None: return
        self.I.assume(f)
    def forall(self, ns, fn, name): self.I.assume_forall(ns, fn)

class Contract(object):
    """qual: function under contract.  setup(I) -> argument list (assumes the precondition; the state it builds is arbitrary
    within it).  post(I, em, args, result) states the postcondition.  raises(I, em, args, exc) states when the function may raise
    (default: never)."""
    qual = None
    def __init__(self, qual=None, setup=None, post=None, raises=None, name=None, hooks=None, timeout=None, old=None):
        self.qual = qual or self.qual
        if setup: self.setup = setup
        if post: self.post = post
        if raises: self.raises = raises
        if old: self.old = old
        self.hooks = hooks or {}
        self.label = name or self.qual
        self.timeout = timeout
    def old(self, I, args): return None
    def raises(self, I, em, args, exc):
        em('does not raise (%s)' % exc.clsname, False)

def verify(I, con, call=None):
    """explore the real body of the function and prove the postcondition on every path; returns list of obligations"""
    fv = I.lookup_qual(con.qual)
    n0 = len(I.obls)
    I.cur = con.label
    if fv is None or not hasattr(fv, 'node'): raise Unsupported('function %s not found' % con.qual)
    stack0 = I.stack; heap0 = I.snapshot(); hooks0 = dict(I.loop_hooks); np0 = len(I.prefixes); nm0 = len(I.memsets); t0 = I.timeout
    I.stack = [Ctx('path')]
    I.verifying = con.qual
    if con.timeout: I.timeout = con.timeout
    try:
        args = con.setup(I)
        I.loop_hooks.update(con.hooks)
        if not I.vacuity('precondition is satisfiable'): return I.obls[n0:]
        kw = {}
        if isinstance(args, tuple): args, kw = args
        I.stack_args = args
        oldv = con.old(I, args)
        if isinstance(fv, ClassV): run = lambda: I.call(fv, args, kw)
        else: run = lambda: I.inline(fv, args, kw)
        if call is not None: run = lambda: call(I, fv, args, kw)
        outs = I.explore(run)
        live = 0
        for o in outs:
            I.load(o.snap)
            c = Ctx('path'); c.pc = list(o.pc); c.facts = list(o.facts)
            I.stack.append(c)
            try:
                I.obl_path = o
                if o.kind == 'raise':
                    con.raises(I, Prover(I), args, o.value) if oldv is None else con.raises(I, Prover(I), args, o.value)
                else:
                    live += 1
                    # one path that is not contradictory is enough for the guard below
                    if oldv is None: con.post(I, Prover(I), args, o.value)
                    else: con.post(I, Prover(I), args, o.value, oldv)
            finally: I.stack.pop()
        # reachability guard: at least one path's assumptions must be satisfiable as far as the solver can tell
        ok = False
        for o in outs:
            I.load(o.snap)
            c = Ctx('path'); c.pc = list(o.pc); c.facts = list(o.facts)
            I.stack.append(c)
            try:
                if not I.refuted(1500): ok = True; break
            finally: I.stack.pop()
        if not ok: I.obls.append(Obligation(con.label, 'some path is reachable', 'vacuous', 'z3', 0.0))
        if len(I.obls) == n0: I.obls.append(Obligation(con.label, 'at least one obligation', 'vacuous', 'none', 0.0))
        return I.obls[n0:]
    finally:
        I.stack = stack0; I.load(heap0); I.loop_hooks = hooks0; del I.prefixes[np0:]; del I.memsets[nm0:]; I.verifying = None; I.timeout = t0

def new_interp(timeout=8000):
    return Interp(Program(), timeout)
