"""Loops and comprehensions: closed forms of carried state, sidecar invariants, early exits."""
import ast, z3
from .values import *
from .npmodel import (iterate, truth, merge, subst, template, same, mentions, copy_arr, rowfn, prefix, ssum, free_consts,
                      sym_vstack, concat, list_get, subst_term, atleast_2d, mk)
from . import engine as E

class Peel(Exception): pass
class LoopDone(Exception): pass

def exec_for(I, st, env):
    it = I.eval(st.iter, env)
    n, get = iterate(I, it)
    c = asint_const(n)
    if c is not None and c <= 64:
        for i in range(c):
            I.assign(st.target, get(i), env)
            try: I.block(st.body, env)
            except E.ContinueEx: continue
            except E.BreakEx: break
        else: I.block(st.orelse, env)
        return
    def body(i):
        I.assign(st.target, get(i), env)
        I.block(st.body, env)
    if isinstance(it, ListV) and it.segs[0][0] == 'e' and mixed(I, it):
        # the leading elements are of another kind than the rest: explicitly
        segs = list(it.segs); m = next(q for q, s in enumerate(segs) if s[0] != 'e')
        for q in range(m):
            try: body(q)
            except E.ContinueEx: continue
            except E.BreakEx: return
        rest = ListV(I); rest.segs = segs[m:]; n, get = iterate(I, rest)
    r = sym_loop(I, n, body, None, (env.func.qual if env.func else '?'), get)
    if r != 'break': I.block(st.orelse, env)

def shallow_kind(I, v):
    if isinstance(v, str): return 'str'
    if is_num(v): return 'num'
    if isinstance(v, (ListV, tuple)):
        n, g = iterate(I, v); return ('seq', shallow_kind(I, g(0)) if not (is_conc(n) and n == 0) else None)
    return None
def mixed(I, it):
    m = next((q for q, s in enumerate(it.segs) if s[0] != 'e'), None)
    if m is None: return False
    try: return shallow_kind(I, it.segs[0][1]) != shallow_kind(I, it.segs[m][2](I.fresh('i', 'Int')))
    except (Unsupported, E.PyRaise): return False

def exec_while(I, st, env):
    for _ in range(65):
        outs = I.explore(lambda: I.truth(I.eval(st.test, env)))
        vals = [o for o in outs]
        if len(vals) == 1 and vals[0].kind == 'normal' and isinstance(simp(vals[0].value) if is_sym(vals[0].value) else vals[0].value, bool):
            v = I.truth(I.eval(st.test, env))
            v = simp(v) if is_sym(v) else v
            if not v: I.block(st.orelse, env); return
            # a condition that is concretely true: unroll if the state stays concrete, else go symbolic
            if getattr(st, '_nounroll', False): break
            if not state_concrete(I, st, env): break
            if isinstance(st.test, ast.Constant) and branches_in(I, st, env): break
            try: I.block(st.body, env)
            except E.ContinueEx: continue
            except E.BreakEx: return
        else: break
    test = lambda: I.truth(I.eval(st.test, env))
    r = sym_loop(I, None, lambda i: I.block(st.body, env), test, (env.func.qual if env.func else '?'), None)
    if r != 'break': I.block(st.orelse, env)

def branches_in(I, st, env):
    """whether an iteration of a `while True` takes symbolic decisions (then it is not unrolled); tried on a copy of the state"""
    found = []
    def once():
        c = I.ctx
        try: I.block(st.body, env)
        finally:
            if c.alts: found.append(1); c.alts[:] = []
    sil, I.silent = I.silent, I.silent + 1
    try: I.explore(once)
    finally: I.silent = sil
    return bool(found)

def state_concrete(I, st, env):
    names = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}
    for nm in names:
        v = env.vars.get(nm, 0)
        if is_sym(v) or isinstance(v, (Arr, ObjV)): return False
    return True

# ------------------------------------------------------------------ locations
def diff_states(pre, snap):
    """locations of pre-existing heap objects whose state differs"""
    out = []
    d = {id(m): s for m, s in snap}
    for m, s in pre:
        t = d.get(id(m))
        if t is None: continue
        if isinstance(m, (Env, ObjV, DictV)):
            for kx in set(s) | set(t):
                a, b = s.get(kx, UNDEF), t.get(kx, UNDEF)
                if a is b: continue
                if is_num(a) and is_num(b) and type(a) == type(b) and same(a, b): continue
                if isinstance(a, str) and isinstance(b, str) and a == b: continue
                if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(x is y for x, y in zip(a, b)): continue
                if a is UNDEF and isinstance(m, ObjV) and getattr(m, 'lazy', None) is not None: continue
                if isinstance(m, ObjV) and isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func and a.self_ is b.self_: continue
                out.append((m, kx))
        elif isinstance(m, ListV):
            if len(s) != len(t) or any(x is not y for x, y in zip(s, t)): out.append((m, None))
        elif isinstance(m, Arr):
            if s[1] is not t[1] and m.base is None: out.append((m, None))
        elif isinstance(m, SetV):
            if s[0] is not t[0]: out.append((m, None))
    return out

def loc_get(l):
    m, kx = l
    if isinstance(m, Env): return m.vars.get(kx, UNDEF)
    if isinstance(m, ObjV): return m.fields.get(kx, UNDEF)
    if isinstance(m, DictV): return m.d.get(kx, UNDEF)
    return m

def loc_set(I, l, v):
    m, kx = l
    if isinstance(m, Env):
        if v is UNDEF: m.vars.pop(kx, None)
        else: m.vars[kx] = v
    elif isinstance(m, ObjV):
        if v is UNDEF: m.fields.pop(kx, None)
        else: m.fields[kx] = v
    elif isinstance(m, DictV):
        if v is UNDEF: m.d.pop(kx, None)
        else: m.d[kx] = v
    elif isinstance(m, ListV): m.segs = list(v.segs)
    elif isinstance(m, Arr):
        m.shape = v.shape; m._data = v._data; m.row = v.row; m.vec = v.vec; m.parts = v.parts; m.masksel = None; m.dtype = v.dtype
        if hasattr(v, 'via'): m.via = v.via
        for w in m.views: w.clear()
    elif isinstance(m, SetV): m.mem = v.mem; m.kind = v.kind; m.elen = getattr(v, 'elen', getattr(m, 'elen', None))

def freeze(I, v):
    if isinstance(v, Arr):
        r = mk(I, v.shape, v.data, row=v.row, vec=v.vec, dtype=v.dtype); r.parts = v.parts; r.origin = v
        if v.row is None and v.ndim == 2 and getattr(v, 'via', None): r.via = v.via
        return r
    if isinstance(v, ListV): r = ListV(I); r.segs = list(v.segs); r.origin = v; return r
    if isinstance(v, SetV): r = SetV(I, v.mem, v.kind); r.elen = getattr(v, 'elen', None); return r
    return v

def kind_of(v):
    if v is UNDEF: return 'undef'
    if isinstance(v, Arr): return ('arr', v.ndim)
    if isinstance(v, ListV): return 'list'
    if isinstance(v, SetV): return 'set'
    if isinstance(v, float): return 'inf'
    if is_num(v):
        x = v
        if is_boolv(x): return 'bool'
        if isinstance(x, int) or (is_sym(x) and x.sort() == z3.IntSort()): return 'int'
        return 'real'
    if is_sym(v): return ('sort', v.sort())
    if isinstance(v, TupV): return 'tupv'
    if isinstance(v, tuple): return ('tuple', len(v))
    return ('other', type(v).__name__)

class Loc(object):
    def __init__(self, l, init): self.l = l; self.init = init; self.kind = None; self.opaque = None; self.shape_open = set(); self.closed = None; self.temp = False

def make_opaque(I, L, v, post=None):
    """opaque value of the location at iteration k (fresh symbols depend on the enclosing generic index k)"""
    kd = L.kind
    if kd == 'int': return I.fresh('v', 'Int')
    if kd == 'real': return I.fresh('v', 'Real')
    if kd == 'bool': return I.fresh('v', 'Bool')
    if isinstance(kd, tuple) and kd[0] == 'sort': return I.fresh('v', kd[1])
    if kd == 'list':
        ln = I.fresh('len', 'Int')
        n0 = L.init.length()
        I.assume(zle(n0, ln)); I.assume(zle(0, ln))
        proto = L.proto if getattr(L, 'proto', None) else None
        i0 = L.init
        init = ListV(I); init.segs = list(L.init.segs)
        def get(i):
            if L.getk is not None: return L.getk(i)
            raise Unsupported('element of a list under construction')
        seg = ('s', ln, get)
        r = ListV(I); r.segs = [seg]; L.marker = seg; L.lensym = ln
        return r
    if isinstance(kd, tuple) and kd[0] == 'arr':
        a = L.init
        nd = kd[1]
        shape = []
        for q in range(nd):
            if q in L.shape_open:
                s = I.fresh('dim', 'Int'); I.assume(s >= 0); shape.append(s)
            else: shape.append(a.shape[q])
        if nd == 2 and L.dtype == 'real':
            Rw = I.fresh('rw', 'Row', ['Int'])
            r = mk(I, shape, lambda i, j: el(Rw(i), Z(j)), row=lambda i: Rw(i), dtype='real')
        elif nd == 0:
            x = I.fresh('d', {'int': 'Int', 'bool': 'Bool'}.get(L.dtype, 'Real')); r = mk(I, (), lambda: x, dtype=L.dtype)
        else:
            D = I.fresh('d', {'int': 'Int', 'bool': 'Bool'}.get(L.dtype, 'Real'), ['Int'] * nd)
            r = mk(I, shape, lambda *ix: D(*ix), dtype=L.dtype)
        return r
    if kd == 'set':
        so = Row if L.init.kind in ('row', None) and L.setsort == 'row' else L.setsort
        M = I.fresh('setv', 'Bool', ['Row' if L.setsort == 'row' else L.setsort])
        r = SetV(I, lambda x: M(x), 'row' if L.setsort == 'row' else 'num'); r.elen = getattr(L.init, 'elen', None)
        L.setfn = M
        return r
    if kd == ('other', 'Opaque'): return v
    if isinstance(kd, tuple) and kd[0] == 'tuple':
        return tuple(I.fresh('v', {'int': 'Int', 'bool': 'Bool'}.get(kind_of(x), 'Real')) for x in v)
    raise Unsupported('loop-carried value of kind %r' % (kd,))

def join_kind(a, b):
    if a == b: return a
    if {a, b} == {'int', 'real'}: return 'real'
    if {a, b} <= {'int', 'bool'}: return 'int'
    return None

# ------------------------------------------------------------------ the symbolic loop
def sym_loop(I, n, body, test, qual, get):
    """n: number of elements (for) or None (while); body(i) executes one iteration; returns 'break' when left by break"""
    peels = 0; base = 0
    if n is not None: I.assume(zle(0, n)) if is_sym(n) else None
    while True:
        try:
            return sym_loop1(I, n if n is None or base == 0 else simp(zsub(n, base)), (lambda i, base=base: body(simp(zadd(i, base)))) if base else body, test, qual,
                             get if base == 0 or get is None else (lambda i, base=base: get(simp(zadd(i, base)))))
        except Peel:
            peels += 1
            if peels > 2: raise Unsupported('loop-carried value changes its type')
            # execute one iteration explicitly
            if test is not None:
                if not I.branch(test()): return 'done'
            else:
                if not I.branch(zlt(base, n)): return 'done'
            try: body(base)
            except E.ContinueEx: pass
            except E.BreakEx: return 'break'
            base += 1

def sym_loop1(I, n, body, test, qual, get):
    locs = []          # Loc objects
    hook = I.loop_hooks.get(qual)
    dropped = set()
    early = test is not None
    pre0 = I.snapshot()
    nprefix = len(I.prefixes); nmem = len(I.memsets)
    final = False; prev = {}; nrec = len(I.recs); sil0 = I.silent; mark = None
    for attempt in range(15):
        I.load(pre0)
        outer = I.ctx
        if not final:
            del I.prefixes[nprefix:]; del I.memsets[nmem:]
            N = n if not early else I.fresh('N', 'Int')
            mark = len(I.ctx.facts)
            if early:
                I.assume(N >= 0)
                if n is not None: I.assume(zle(N, n))
            I.cnt += 1
            k = z3.Int('k!%d' % I.cnt); BORN[k.decl().name()] = uid()
        I.silent = sil0 if final else sil0 + 1
        g = Ctx_gen(k, zand(0 <= k, k < ZI(N)))
        I.stack.append(g)
        depth = len(I.stack)
        def undo():
            del I.stack[depth - 1:]
            if mark is not None: del outer.facts[mark:]
        try:
            for L in locs:
                L.getk = None; L.closed = None
                if L.temp: loc_set(I, L.l, UNDEF); L.opaque = UNDEF; continue
                L.opaque = make_opaque(I, L, L.init)
                loc_set(I, L.l, L.opaque)
                if isinstance(L.opaque, Arr):
                    L.optarget = L.l[0] if isinstance(L.l[0], Arr) else L.opaque
                if final and prev.get(L.key) is not None: assume_closed(I, L, prev[L.key](k))
            view = View(I, locs, k, N, n, get)
            cands = []
            if hook is not None:
                for nm, pred in hook(I, view) or []:
                    if nm in dropped: continue
                    cands.append((nm, pred))
            def sv(vals): return vals
            now = {L.key: (L.opaque) for L in locs if not L.temp}
            for nm, pred in cands:
                f = pred(now, k)
                if f is not None: I.assume(f)
            def run():
                if test is not None:
                    if not I.branch(test()): raise LoopDone()
                body(k)
            pre = I.snapshot()
            outs = explore_done(I, run)
            # spurious exits
            keep = []
            for o in outs:
                if o.kind in ('raise',) or (o.kind != 'normal'):
                    if impossible(I, o): continue
                keep.append(o)
            outs = keep
            normal = [o for o in outs if o.kind == 'normal']
            abnormal = [o for o in outs if o.kind not in ('normal', 'done')]
            retry = False
            if abnormal and not early: early = True; retry = True
            # temps read before being written
            for o in outs:
                if o.kind == 'raise' and o.value.clsname in ('UnboundLocalError', 'NameError') and any(L.temp for L in locs):
                    raise Peel()
            # new locations
            known = {(id(L.l[0]), L.l[1]): L for L in locs}
            for o in normal:
                for l in diff_states(pre, o.snap):
                    if (id(l[0]), l[1]) in known: continue
                    I.load(pre0); init = freeze(I, loc_get(l))
                    L = Loc(l, init); L.key = len(locs); locs.append(L); known[(id(l[0]), l[1])] = L
                    L.name = l[1] if l[1] is not None else None
                    retry = True
                    L.kind = kind_of(init)
                    L.dtype = init.dtype if isinstance(init, Arr) else None
                    if isinstance(init, SetV): L.setsort = 'row' if init.kind in ('row', None) else z3.RealSort()
                    if init is UNDEF or (isinstance(init, (ObjV, DictV)) and isinstance(l[0], E.Env)): L.temp = True       # (a name bound to another object in every iteration: nothing is carried)
                    L.fresh = True
            # kinds and shapes of the post values
            posts = {}; spoiled = {}; touched = {}; I.load(pre); ch0 = I.elems.changed(I)
            for o in normal:
                I.load(o.snap)
                posts[id(o)] = {L.key: freeze(I, loc_get(L.l)) for L in locs}
                for kx, (f, a, was) in I.elems.changed(I).items():
                    if kx not in ch0: spoiled[id(f)] = f; touched.setdefault(id(f), {}).setdefault(kx[1], {})[id(o)] = (freeze_fields(I, a), a, was)
            I.load(pre0 if retry else pre)
            for L in locs:
                if L.temp: continue
                if L.kind == 'list' and not getattr(L, 'fresh', False) and L.l[1] is not None and normal and isinstance(L.l[0], E.Env):
                    ps = [posts[id(o)][L.key] for o in normal]
                    if all(isinstance(v, ListV) and not (v.segs and v.segs[0] is L.marker) for v in ps):
                        # a name bound to another list in every iteration: nothing is carried
                        L.temp = True; retry = True; continue
                for o in normal:
                    v = posts[id(o)][L.key]
                    kv = kind_of(v)
                    if kv != L.kind:
                        j = join_kind(L.kind, kv)
                        if j is None:
                            raise Peel()
                        L.kind = j; retry = True
                    if isinstance(v, Arr):
                        cmpv = L.opaque if not getattr(L, 'fresh', False) else L.init
                        for q in range(v.ndim):
                            if q not in L.shape_open and not same(v.shape[q], cmpv.shape[q]) and not I_check_post(I, o, zeq(v.shape[q], cmpv.shape[q])):
                                L.shape_open.add(q); retry = True
                        if v.dtype != L.dtype:
                            L.dtype = 'real' if {v.dtype, L.dtype} <= {'int', 'real', 'bool'} else v.dtype; retry = True
                L.fresh = False
            if retry:
                if final: raise Unsupported('loop state did not stabilise (second pass)')
                undo(); continue
            if not normal:
                # no iteration completes: N == 0
                undo(); I.load(pre0); I.silent = sil0
                return finish_none(I, n, body, test, outs)
            # ---- merge
            conds = [zand(*o.pc) for o in normal]
            for o in outs:
                pass
            if len(outs) > len(normal) or True:
                I.assume(zor(*conds))
            for o, c in zip(normal, conds):
                for f in o.facts:
                    if f.defn: I.ctx.facts.append(f)
                    else:
                        nf = E.Fact(f.vars, list(o.pc) + f.hyps, f.body); nf.pats = f.pats; nf.defn = False
                        I.ctx.facts.append(nf)
            post = {}
            for L in locs:
                vals = [posts[id(o)][L.key] for o in normal]
                if L.temp:
                    try: post[L.key] = merge_all(I, conds, vals) if all(v is not UNDEF for v in vals) else UNDEF
                    except Unsupported: post[L.key] = UNDEF
                    continue
                if L.kind == 'list': post[L.key] = vals; continue
                if L.kind == 'set': post[L.key] = vals; continue
                if L.kind == 'real': vals = [ZR(v) if not isinstance(v, float) else v for v in vals]
                if L.kind == 'int': vals = [num(v) for v in vals]
                if isinstance(L.kind, tuple) and L.kind[0] == 'arr' and all(v.parts for v in vals):
                    post[L.key] = vals[0] if len(vals) == 1 else vals
                    if len(vals) > 1:
                        try: post[L.key] = ('multi', merge_all(I, conds, vals), vals)
                        except Unsupported: post[L.key] = ('multi', None, vals)
                    continue
                post[L.key] = merge_all(I, conds, vals)
            updates = {} if early else elem_updates(I, touched, spoiled, normal, conds, k, N)
            # ---- invariants (Houdini)
            if cands:
                pv = {}
                for L in locs:
                    if L.temp: continue
                    p = post[L.key]
                    if isinstance(p, tuple) and p and p[0] == 'multi': p = p[1]
                    if isinstance(p, list): p = None if L.kind != 'set' else merge_sets(I, conds, p)
                    pv[L.key] = p
                bad = []
                for nm, pred in cands:
                    f1 = pred(pv, k + 1)
                    if f1 is not None and not I.check(f1, 6000): bad.append(nm); continue
                if not bad:
                    # base case, outside the generic level
                    saved = I.stack[depth - 1:]; del I.stack[depth - 1:]
                    iv = {L.key: L.init for L in locs if not L.temp}
                    for nm, pred in cands:
                        f0 = pred(iv, 0)
                        if f0 is not None and not I.check(f0, 6000): bad.append(nm)
                    I.stack.extend(saved)
                if bad and not final:
                    dropped.update(bad); undo(); continue
                if bad: raise Unsupported('loop invariant %s not re-established' % bad)
                for nm, pred in cands:
                    if not I.replaying() and not I.silent: I.obls.append(E.Obligation(I.cur, 'loop-invariant %s' % nm, 'ok', 'z3', 0.0))
            # ---- closed forms
            for L in locs:
                if not L.temp: solve_loc(I, L, post[L.key], normal, conds, k, N, locs)
            temps = {L.key: post[L.key] for L in locs if L.temp}
            if not final:
                # second pass: the body again, now knowing the closed forms of the carried state (and recording obligations)
                final = True
                prev = {L.key: L.closed[1] for L in locs if not L.temp and L.closed is not None}
                del I.stack[depth - 1:]; del I.recs[nrec:]
                continue
            break
        except BaseException:
            I.silent = sil0
            if len(I.stack) >= depth and I.stack[depth - 1] is g: undo()
            I.load(pre0)
            raise
    else:
        raise Unsupported('loop state did not stabilise')
    I.silent = sil0
    # ---- leave the generic level
    del I.stack[depth - 1:]
    for f in g.facts:
        nf = E.Fact([k] + f.vars, [g.guard] + f.hyps, f.body); nf.pats = f.pats and None; nf.defn = f.defn
        I.ctx.facts.append(nf)
    I.load_keep(pre0); I.elems.spoiled.update(spoiled)
    for f, g in updates.values():
        for m in list(I.heap):
            if isinstance(m, ListV) and any(s[0] == 's' and s[2] is f for s in m.segs):
                m.segs = [('s', s[1], g) if s[0] == 's' and s[2] is f and same(s[1], N) else s for s in m.segs]
    # facts about the opaque values, for 0 <= k <= N
    for L in locs:
        if L.temp or L.closed is None or not L.closed[0]: continue
        with I.gen(simp(zadd(N, 1))) as q: L.closed[0](q)
    if cands:
        with I.gen(simp(zadd(N, 1))) as q:
            st = {L.key: subst(I, L.opaque, [(k, q)]) for L in locs if not L.temp}
            for nm, pred in cands:
                f = pred(st, q)
                if f is not None: I.assume(f)
    # state after the loop
    for L in locs:
        if L.temp:
            p = temps[L.key]
            if p is UNDEF: loc_set(I, L.l, UNDEF)
            else:
                if I.check(zlt(0, N)): loc_set(I, L.l, subst(I, p, [(k, simp(zsub(N, 1)))]))
                elif L.init is not UNDEF and I.check(zeq(N, 0)): pass
                else: loc_set(I, L.l, UNDEF)
            continue
        v = L.closed[1](N) if L.closed is not None and L.closed[1] is not None else subst(I, L.opaque, [(k, Z(N))])
        loc_set(I, L.l, v)
    if cands:
        # the invariants at the end, stated of the final values themselves
        st = {L.key: freeze(I, loc_get(L.l)) for L in locs if not L.temp}
        for nm, pred in cands:
            f = pred(st, N)
            if f is not None: I.assume(f)
    if not early: return 'done'
    # ---- how the loop ends
    if test is None:
        if I.branch(zeq(N, n)): return 'done'
        I.assume(zlt(N, n))
    else:
        if not I.branch(test()): return 'done'
    try: body(N)
    except E.BreakEx: return 'break'
    except E.ContinueEx: pass
    raise Infeasible()

def finish_none(I, n, body, test, outs):
    """no iteration completes normally"""
    if test is not None:
        if not I.branch(test()): return 'done'
    else:
        if I.branch(zeq(n, 0)): return 'done'
    try: body(0)
    except E.BreakEx: return 'break'
    except E.ContinueEx: pass
    raise Infeasible()

def freeze_fields(I, a):
    return {kx: freeze(I, v) for kx, v in E.fields_of(a).items()} if isinstance(a, (ObjV, DictV)) else None

def elem_updates(I, touched, spoiled, normal, conds, k, N):
    """sequences of objects each of which is changed by the iteration with its own index (and only by that): getter -> (getter, getter of the changed objects)"""
    out = {}
    for fid, byk in touched.items():
        f = spoiled[fid]
        if set(byk) != {E.ElemCache.key(k)}: continue
        per = byk[E.ElemCache.key(k)]; some = next(iter(per.values()))
        if not all(isinstance(a, (ObjV, DictV)) and not (set(vars(a)) - PLAIN) for _, a, _ in per.values()): continue
        names = set().union(*[set(fl) for fl, _, _ in per.values()])
        if any(set(fl) != names for fl, _, _ in per.values()): continue
        if len(per) != len(normal) and set(some[2]) != names: continue
        o = ObjV(I, some[1].cls, {}, some[1].tag) if isinstance(some[1], ObjV) else DictV(I)
        try:
            for nm in names: E.fields_of(o)[nm] = merge_all(I, conds, [per[id(q)][0][nm] if id(q) in per else some[2][nm] for q in normal])
        except Unsupported: continue
        out[fid] = (f, template(I, o, k))
    return out

class View(object):
    """what invariant hooks see: carried locations by key"""
    def __init__(self, I, locs, k, N, n, get): self.I = I; self.locs = locs; self.k = k; self.N = N; self.n = n; self.get = get
    def of_kind(self, kd): return [L for L in self.locs if not L.temp and L.kind == kd]
    def arrs(self, nd): return [L for L in self.locs if not L.temp and L.kind == ('arr', nd)]

def Ctx_gen(k, guard): return E.Ctx('gen', [k], guard)

def explore_done(I, run):
    def thunk():
        try: run()
        except LoopDone: return 'LOOPDONE'
    outs = I.explore(thunk)
    for o in outs:
        if o.kind == 'normal' and o.value == 'LOOPDONE': o.kind = 'done'
    return outs

def impossible(I, o):
    c = E.Ctx('path'); c.pc = list(o.pc); c.facts = list(o.facts)
    I.stack.append(c)
    try: return I.check(z3.BoolVal(False), 1500) if False else I.refuted(2500)
    finally: I.stack.pop()

def I_check_post(I, o, cond):
    if isinstance(cond, bool): return cond
    c = E.Ctx('path'); c.pc = list(o.pc); c.facts = list(o.facts)
    I.stack.append(c)
    try: return I.check(cond, 800)
    finally: I.stack.pop()

def merge_all(I, conds, vals):
    v = vals[-1]
    for c, x in list(zip(conds, vals))[-2::-1]: v = merge(I, c, x, v)
    return v

def merge_sets(I, conds, vals):
    ms = [v.mem for v in vals]
    def mem(r):
        x = ms[-1](r)
        for c, m in list(zip(conds, ms))[-2::-1]: x = zite(c, Z(m(r)), Z(x))
        return x
    return SetV(I, mem, vals[0].kind)

def ids_of(L):
    """function symbols of the opaque value"""
    return L

def sym_decl(t): return t.decl()

def solve_loc(I, L, post, normal, conds, k, N, locs):
    """closed form of a carried location: L.closed = (facts at q or None, final value at N or None)"""
    opq = L.opaque
    if L.kind in ('int', 'real', 'bool') or (isinstance(L.kind, tuple) and L.kind[0] == 'sort'):
        p = Z(post); v = opq; init = Z(L.init) if not isinstance(L.init, float) else None
        if init is None: raise Unsupported('loop-carried infinity')
        if p.sort() != v.sort(): p = ZR(p) if v.sort() == z3.RealSort() else p
        if init.sort() != v.sort(): init = ZR(init) if v.sort() == z3.RealSort() else ZI(L.init)
        if p.eq(v):
            L.closed = (lambda q: I.assume(subst_term(v, [(k, q)]) == init), lambda q: simp(init)); return
        vd = v.decl()
        if not mentions_decl(p, vd):
            def cf(q): return z3.If(Z(q) <= 0, init, subst_term(p, [(k, Z(q) - 1)])) if not (is_conc(q)) else (init if q == 0 else subst_term(p, [(k, z3.IntVal(q - 1))]))
            L.closed = (lambda q: I.assume(subst_term(v, [(k, q)]) == cf(q)), lambda q: simp(cf(q))); return
        if z3.is_arith(v):
            c = z3.simplify(p - v, som=True)
            if not mentions_decl(c, vd):
                if not mentions(c, k):
                    cc = simp(c)
                    def cf(q): return zadd(init, zmul(cc, q))
                    L.closed = (lambda q: I.assume(zeq(subst_term(v, [(k, q)]), cf(q))), lambda q: simp(cf(q))); return
                if v.sort() == z3.IntSort() and I.check(c >= 0):
                    P, own = outer_prefix(I, k, N, lambda q: subst_term(c, [(k, Z(q))]))
                    L.closed = (lambda q: I.assume(subst_term(v, [(k, q)]) == ZI(zadd(init, P(Z(q))))), lambda q: simp(zadd(init, P(Z(q))))); return
                if v.sort() == z3.RealSort():
                    def cf(q): return zadd(init, ssum(I, q, lambda j: subst_term(c, [(k, Z(j))])))
                    L.closed = (lambda q: I.assume(zeq(subst_term(v, [(k, q)]), cf(q))), lambda q: simp(cf(q)) if is_sym(cf(q)) else cf(q)); return
        I.recs.append((v, k, N, init, p))
        L.closed = (lambda q: [I.assume(z3.Implies(Z(q) == 0, subst_term(v, [(k, q)]) == init))], None)
        return
    if L.kind == 'list':
        cnts = []; gets = []
        for v in post:
            segs = list(v.segs)
            if not segs or segs[0] is not L.marker: raise Unsupported('list rebuilt in a loop (%s)' % (L.name,))
            rest = segs[1:]
            c = 0
            for s in rest: c = zadd(c, 1 if s[0] == 'e' else s[1])
            l = ListV(I); l.segs = rest
            cnts.append(simp(c)); gets.append(l)
        init = ListV(I); init.segs = list(L.init.segs); n0 = init.length()
        v = L.lensym
        if all(is_conc(c) and c == 0 for c in cnts):
            L.closed = (lambda q: I.assume(zeq(subst_term(v, [(k, q)]), n0)), lambda q: init); return
        if all(is_conc(c) and c == 1 for c in cnts):
            e = merge_all(I, conds, [list_get(I, l, 0) for l in gets])
            e = freeze_deep(I, e)
            et = template(I, e, k)
            def fin(q):
                r = ListV(I); cq = asint_const(q)
                r.segs = list(init.segs) + ([('s', q, et)] if cq is None else [('e', et(z3.IntVal(i))) for i in range(cq)])
                return r
            L.closed = (lambda q: I.assume(zeq(subst_term(v, [(k, q)]), zadd(n0, q))), fin); L.et = et; return
        c = merge_all(I, conds, cnts)
        if not is_sym(c) or not mentions(c, k):
            # constant number m of elements per iteration
            pass
        def cf(q): return subst_term(Z(c), [(k, Z(q))])
        P, own = outer_prefix(I, k, N, cf)
        live = [(cd, l) for cd, l, cn in zip(conds, gets, cnts) if not (is_conc(cn) and cn == 0)]
        if all(l.concrete() and len(l.segs) == 1 for _, l in live):
            e = merge_all(I, [cd for cd, _ in live], [l.segs[0][1] for _, l in live])
            e = freeze_deep(I, e)
            et = template(I, e, k)
            getter = lambda i: et(own(Z(i)))
            getter.flat = (N, cf, lambda w, off: et(Z(w)))
        else:
            ls = [(cd, freeze(I, l)) for cd, l in live]
            def getter(i):
                w = own(Z(i)); off = simp(zsub(i, P(w)))
                out = None
                for cd, l in reversed(ls):
                    lw = subst(I, l, [(k, w)])
                    x = lw.segs[0][2](off) if len(lw.segs) == 1 and lw.segs[0][0] == 's' else list_get(I, lw, off) if not (lw.concrete() and len(lw.segs) == 1) else lw.segs[0][1]
                    out = x if out is None else merge(I, subst_term(Z(cd), [(k, w)]), x, out)
                return out
            if len(ls) == 1:
                def inner(w, off):
                    lw = subst(I, ls[0][1], [(k, w)])
                    return lw.segs[0][2](off) if len(lw.segs) == 1 and lw.segs[0][0] == 's' else list_get(I, lw, off)
                getter.flat = (N, cf, inner)
        def fin(q):
            r = ListV(I); r.segs = list(init.segs) + [('s', P(Z(q)), getter)]; return r
        L.closed = (lambda q: I.assume(zeq(subst_term(v, [(k, q)]), zadd(n0, P(Z(q))))), fin); L.P = P; L.own = own; L.cond = c
        return
    if L.kind == 'set':
        M = L.setfn; rs = z3.Const('sx!%d' % uid(), Row if L.setsort == 'row' else L.setsort)
        init = L.init.mem
        adds = []
        for v in post:
            t = Z(v.mem(rs)); m = Z(M(rs))
            xs = []
            st = [t]; ok = True; seenm = False
            while st:
                x = st.pop()
                if z3.is_or(x): st.extend(x.children())
                elif x.eq(m): seenm = True
                elif z3.is_eq(x) and (x.children()[0].eq(rs) or x.children()[1].eq(rs)):
                    a, b = x.children(); xs.append(b if a.eq(rs) else a)
                else: ok = False
            if not ok or not seenm or any(mentions(x, rs) for x in xs): adds = None; break
            adds.append(xs)
        if adds is None:
            L.closed = (None, None)
            I.recs.append(('set', L, k, N)); return
        # flattened: element x of iteration j added under condition
        items = []
        for cd, xs in zip(conds, adds):
            for x in xs: items.append((cd, x))
        W = [I.fresh_at_root(I, 'w') for _ in items] if False else None
        wit = I.fresh('awit', 'Int', [rs.sort()])        # depends on k through the generic index
        def facts(q):
            Mq = lambda r: subst_term(Z(M(r)), [(k, q)])
            wq = lambda r: subst_term(wit(r), [(k, q)])
            r = z3.Const('sy!%d' % uid(), rs.sort())
            I.raw_fact([r], Z(zimp(Mq(r), zor(init(r), zand(0 <= wq(r), wq(r) < Z(q), zor(*[zand(subst_term(Z(cd), [(k, wq(r))]), subst_term(x, [(k, wq(r))]) == r) for cd, x in items]))))), [Mq(r)])
            r2 = z3.Const('sy!%d' % uid(), rs.sort())
            ir = init(r2)
            if ir is not False:
                ps = [Mq(r2)]
                if is_sym(ir) and z3.is_app(ir) and ir.decl().kind() == z3.Z3_OP_UNINTERPRETED: ps.append(ir)
                I.raw_fact([r2], Z(zimp(ir, Mq(r2))), ps)
            with I.gen(q) as j:
                for cd, x in items:
                    I.assume(zimp(subst_term(Z(cd), [(k, j)]), Mq(subst_term(x, [(k, j)]))))
        L.closed = (facts, None)
        return
    if isinstance(L.kind, tuple) and L.kind[0] == 'arr':
        nd = L.kind[1]
        multi = None
        if isinstance(post, tuple) and post and post[0] == 'multi': multi = post[2]; post = post[1]
        vals = multi or ([post] if post is not None else [])
        if nd >= 1 and vals and all(v.parts and is_origin(v.parts[0], L) for v in vals):
            return solve_append(I, L, vals, conds, k, N)
        if post is None: raise Unsupported('array rebuilt in a loop')
        return solve_arr(I, L, post, k, N, nd)
    L.closed = (None, None)

def outer_prefix(I, k, N, c):
    """prefix sums over the iterations, defined outside the generic iteration k"""
    for q, x in enumerate(I.stack):
        if x.kind == 'gen' and any(i.eq(k) for i in x.idx): break
    else: return prefix(I, N, c)
    saved = I.stack[q:]; del I.stack[q:]
    try: return prefix(I, N, c)
    finally: I.stack.extend(saved)

def assume_closed(I, L, v):
    """the carried value at iteration k is the closed form found in the first pass (induction over the iterations)"""
    o = L.opaque
    if is_num(o) and is_num(v):
        if isinstance(v, float): return
        I.assume(zeq(o, v)); return
    if isinstance(o, ListV) and isinstance(v, ListV):
        I.assume(zeq(o.length(), v.length())); return
    if isinstance(o, Arr) and isinstance(v, Arr) and o.ndim == v.ndim:
        for a, b in zip(o.shape, v.shape):
            if is_sym(a) and not same(a, b): I.assume(zeq(a, b))
        if o.ndim == 0: I.assume(zeq(o.data(), v.data())); return
        if o.ndim == 2 and o.row is not None and v.row is not None:
            i = z3.Int('ac!%d' % uid())
            with I.gen(o.shape[0]) as i: I.assume(o.row(i) == v.row(i))
            return
        if o.ndim == 1:
            with I.gen(o.shape[0]) as i: I.assume(zeq(o.data(i), v.data(i)))
        elif o.ndim == 2:
            with I.gen(o.shape[0]) as i:
                with I.gen(o.shape[1]) as j: I.assume(zeq(o.data(i, j), v.data(i, j)))

def is_origin(p, L):
    return p is L.opaque or p is L.l[0] or p is getattr(L, 'optarget', None)

def freeze_deep(I, e):
    if isinstance(e, (Arr, ListV)): return freeze(I, e)
    if isinstance(e, AltV): return AltV(e.c, freeze_deep(I, e.a), freeze_deep(I, e.b))
    if isinstance(e, tuple): return tuple(freeze_deep(I, x) for x in e)
    return e

def mentions_decl(t, d):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(d): return True
            st.extend(x.children())
    return False

def solve_append(I, L, vals, conds, k, N):
    """array extended by rows in every iteration"""
    news = []
    for v in vals:
        ps = v.parts[1:]
        if not ps: a = None
        else: a = ps[0] if len(ps) == 1 else concat(I, [freeze(I, p) for p in ps], 0)
        news.append(freeze(I, a) if a is not None else None)
    if any(a is None for a in news): raise Unsupported('conditional row append')
    new = news[0] if len(news) == 1 else merge_all(I, conds, news)
    init = freeze(I, L.init)
    nd = init.ndim
    h = new.shape[0]
    if nd == 2:
        try: rfn = rowfn(I, new)
        except Unsupported: rfn = None
    else: rfn = None
    nt = template(I, new, k)
    dsym = L.opaque.shape[0]
    n0 = init.shape[0]
    if is_conc(h) and h == 1:
        P = lambda q: q; own = lambda i: i; offs = lambda i: 0
    elif is_sym(h) and not mentions(h, k):
        P, own = outer_prefix(I, k, N, lambda q: h); offs = lambda i: simp(zsub(i, P(own(Z(i)))))
    else:
        P, own = outer_prefix(I, k, N, lambda q: subst_term(Z(h), [(k, Z(q))])); offs = lambda i: simp(zsub(i, P(own(Z(i)))))
    d0 = init.data
    r0 = (rowfn(I, init) if nd == 2 and (asint_const(n0) != 0) else None)
    newrow = (lambda i: nt(own(Z(i)) if is_sym(own(Z(i))) else own(i))) 
    def elem(i, *r):
        # row i of the appended part
        return nt(Z(own(i))).data(offs(i), *r)
    def rowat(i):
        return subst_row(I, rfn, k, Z(own(i)), offs(i))
    opq = L.opaque
    def facts(q):
        I.assume(zeq(subst_term(dsym, [(k, q)]), zadd(n0, P(Z(q)))))
        oq = subst(I, opq, [(k, q)])
        if nd == 2 and rfn is not None and opq.row is not None:
            if r0 is not None: 
                with I.gen(n0) as i: I.assume(oq.row(i) == r0(i))
            with I.gen(P(Z(q))) as i: I.assume(oq.row(simp(zadd(n0, i))) == rowat(i))
            i = z3.Int('ra!%d' % uid())
            if not (is_conc(n0) and n0 == 0):
                I.raw_fact([i], Z(zimp(zand(zle(n0, i), zlt(i, zadd(n0, P(Z(q))))), oq.row(i) == rowat(i - ZI(n0)))), [oq.row(i)])
        else:
            if nd == 1:
                i = z3.Int('ra!%d' % uid())
                I.raw_fact([i], Z(zimp(zand(zle(0, i), zlt(i, n0)), zeq(oq.data(i), d0(i)))), [oq.data(i)])
                I.raw_fact([i], Z(zimp(zand(zle(n0, i), zlt(i, zadd(n0, P(Z(q))))), zeq(oq.data(i), elem(i - ZI(n0))))), [oq.data(i)])
            elif nd == 2:
                i = z3.Int('ra!%d' % uid()); j = z3.Int('rb!%d' % uid())
                I.raw_fact([i, j], Z(zimp(zand(zle(0, i), zlt(i, n0)), zeq(oq.data(i, j), d0(i, j)))), [oq.data(i, j)])
                I.raw_fact([i, j], Z(zimp(zand(zle(n0, i), zlt(i, zadd(n0, P(Z(q))))), zeq(oq.data(i, j), elem(i - ZI(n0), j)))), [oq.data(i, j)])
    def fin(q):
        tot = simp(zadd(n0, P(Z(q))))
        def data(i, *r):
            if is_conc(n0) and n0 == 0: return elem(i, *r)
            return zite(zlt(i, n0), d0(i, *r), elem(simp(zsub(i, n0)), *r))
        row = None
        if nd == 2 and rfn is not None:
            if is_conc(n0) and n0 == 0: row = lambda i: rowat(i)
            elif r0 is not None: row = lambda i: zite(zlt(i, n0), r0(i), rowat(simp(zsub(i, n0))))
        return mk(I, (tot,) + tuple(opq.shape[1:]), data, row=row, dtype=opq.dtype)
    L.closed = (facts, fin)

def subst_row(I, rfn, k, w, off):
    _i = z3.Int('ro!%d' % uid())
    t = rfn(off) if not is_sym(off) else None
    if t is not None: return subst_term(t, [(k, w)])
    t = rfn(_i)
    return z3.substitute(z3.substitute(t, (k, Z(w))), (_i, Z(off)))

def solve_arr(I, L, post, k, N, nd):
    opq = L.opaque
    ix = [z3.Int('ix!%d' % uid()) for _ in range(nd)]
    D = opq.data(*ix); T = post.data(*ix)
    D, T = Z(D), Z(T)
    if D.sort() != T.sort(): T = ZR(T); D = ZR(D)
    dd = D.decl() if not (z3.is_app(D) and D.decl().eq(el)) else D.children()[0].decl()
    init = freeze(I, L.init); d0 = init.data
    oshape = opq.shape
    sz = lambda q: None
    def shape_facts(q):
        for a, b in zip(opq.shape, post.shape):
            if is_sym(a) and mentions(a, k): pass
    def Dq(q, jx): return subst_term(Z(subst_ix(D, ix, jx)), [(k, Z(q))])
    def fin_from(cf):
        def fin(q):
            sh = [subst_term(s, [(k, Z(q))]) if is_sym(s) else s for s in opq.shape]
            return mk(I, sh, lambda *jx: cf(q, jx), dtype=opq.dtype)
        return fin
    def facts_from(cf):
        def facts(q):
            jx = [z3.Int('jx!%d' % uid()) for _ in range(nd)]
            b = zeq(Dq(q, jx), cf(q, jx))
            if nd: I.raw_fact(jx, Z(b), [Dq(q, jx)])
            else: I.assume(b)
        return facts
    if T.eq(D):
        L.closed = (facts_from(lambda q, jx: d0(*jx)), fin_from(lambda q, jx: d0(*jx))); return
    if not mentions_decl(T, dd):
        # overwritten completely
        def cf(q, jx):
            t = subst_ix(T, ix, jx)
            if is_conc(q): return d0(*jx) if q == 0 else subst_term(t, [(k, z3.IntVal(q - 1))])
            return zite(zle(q, 0), d0(*jx), subst_term(t, [(k, Z(q) - 1)]))
        L.closed = (facts_from(cf), fin_from(cf)); return
    # accumulation
    if z3.is_arith(T):
        c = z3.simplify(T - D, som=True)
        if not mentions_decl(c, dd) and (split_scatter(T, D, dd) is None or not has_ite_on(c, ix, k)):
            def cf(q, jx): return zadd(d0(*jx), ssum(I, q, lambda j: subst_term(subst_ix(c, ix, jx), [(k, Z(j))])))
            L.closed = (facts_from(cf), fin_from(cf)); return
    # scatter: T = ite(cond(k, ix), val(k, ix), D)
    sp = split_scatter(T, D, dd)
    if sp is not None:
        cond, val = sp
        k2 = z3.Int('k2!%d' % uid())
        disj = I.check_ext(zimp(zand(zle(0, k2), zlt(k2, N), cond, z3.substitute(cond, (k, k2))), k == k2))
        if disj:
            inr = zand(*[zand(zle(0, i), zlt(i, s)) for i, s in zip(ix, opq.shape)])
            saved = I.stack.pop()
            try: w = I.fresh('own', 'Int', ['Int'] * nd)
            finally: I.stack.append(saved)
            def at(j, jx): return subst_term(subst_ix(cond, ix, jx), [(k, j)]), subst_term(subst_ix(val, ix, jx), [(k, j)])
            def cf(q, jx):
                o = w(*jx); c, v = at(o, jx)
                return zite(zand(zle(0, o), zlt(o, q), c), v, d0(*jx))
            def ownfacts(q):
                pass
            def once():
                jx = [z3.Int('jx!%d' % uid()) for _ in range(nd)]
                with I.gen(N) as j:
                    c, _ = at(j, jx)
                    ps = None
                    I.raw_fact(jx, Z(zimp(c, w(*jx) == j)), None)
                # explicit position for a single index equation  ix[p] == g(k)
            L.ownonce = once
            eqp = simple_eq(cond, ix, k)
            if eqp is not None:
                # cond is ix[p] == k (+ nothing else): the owner is ix[p] itself
                p = eqp
                def cf(q, jx):
                    o = ZI(jx[p]); _, v = at(o, jx)
                    if is_conc(jx[p]) and is_conc(q): return v if 0 <= jx[p] < q else d0(*jx)
                    return zite(zand(zle(0, jx[p]), zlt(jx[p], q)), v, d0(*jx))
                L.closed = (facts_from(cf), fin_from(cf)); return
            done = []
            def facts(q):
                facts_from(cf)(q)
            def fin(q):
                once()
                return fin_from(cf)(q)
            L.closed = (facts, fin); return
    I.recs.append(('arr', L, k, N, D, T, ix))
    def facts0(q):
        jx = [z3.Int('jx!%d' % uid()) for _ in range(nd)]
        b = zimp(zeq(q, 0), zeq(Dq(q, jx), d0(*jx)))
        if nd: I.raw_fact(jx, Z(b), [Dq(q, jx)])
        else: I.assume(b)
    L.closed = (facts0, None)

def subst_ix(t, ix, jx):
    return z3.substitute(t, *[(a, ZI(b)) for a, b in zip(ix, jx)]) if ix else t

def simple_eq(cond, ix, k):
    if z3.is_eq(cond):
        a, b = cond.children()
        for p, i in enumerate(ix):
            if (a.eq(i) and b.eq(k)) or (b.eq(i) and a.eq(k)): return p
    return None

def has_ite_on(c, ix, k):
    st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and any(mentions(x.children()[0], i) for i in ix): return True
            st.extend(x.children())
    return False

def split_scatter(T, D, dd):
    """T as (cond, val) with T = ite(cond, val, D) and val, cond free of D"""
    if T.eq(D): return z3.BoolVal(False), None
    if z3.is_app(T) and T.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = T.children()
        if mentions_decl(c, dd): return None
        if b.eq(D) and not mentions_decl(a, dd): return c, a
        if a.eq(D) and not mentions_decl(b, dd): return z3.Not(c), b
        sa = split_scatter(a, D, dd) if mentions_decl(a, dd) else (z3.BoolVal(True), a)
        sb = split_scatter(b, D, dd) if mentions_decl(b, dd) else (z3.BoolVal(True), b)
        if sa is None or sb is None: return None
        va = sa[1] if sa[1] is not None else None; vb = sb[1] if sb[1] is not None else None
        if va is None and vb is None: return None
        cond = z3.simplify(z3.If(c, sa[0], sb[0]))
        val = vb if va is None else va if vb is None else z3.If(c, va, vb)
        return cond, val
    return None

# ------------------------------------------------------------------ comprehensions
def comprehension(I, e, env):
    out = ListV(I)
    cenv = E.Env(I, env, env.module, env.func)
    def level(g):
        if g == len(e.generators):
            out.segs = list(out.segs) + [('e', I.eval(e.elt, cenv))]; return
        G = e.generators[g]
        n, get = iterate(I, I.eval(G.iter, cenv if g else env))
        def body(i):
            I.assign(G.target, get(i), cenv)
            for c in G.ifs:
                if not I.branch(I.truth(I.eval(c, cenv))): return
            level(g + 1)
        c = asint_const(n)
        if c is not None and c <= 64:
            for i in range(c): body(i)
        else: sym_loop(I, n, body, None, (env.func.qual if env.func else '?') + '.<comp>', get)
    level(0)
    return out

def dictcomp(I, e, env):
    d = DictV(I); cenv = E.Env(I, env, env.module, env.func)
    G = e.generators[0]
    if len(e.generators) != 1: raise Unsupported('dict comprehension')
    n, get = iterate(I, I.eval(G.iter, env))
    c = asint_const(n)
    if c is None: raise Unsupported('dict comprehension over a symbolic sequence')
    for i in range(c):
        I.assign(G.target, get(i), cenv)
        if all(I.branch(I.truth(I.eval(x, cenv))) for x in G.ifs):
            d.d[I.hashkey(I.eval(e.key, cenv))] = I.eval(e.value, cenv)
    return d

def map_list(I, n, get, f):
    """[f(x) for x in ...]"""
    out = ListV(I)
    def body(i): v = f(get(i)); out.segs = list(out.segs) + [('e', v)]
    c = asint_const(n)
    if c is not None and c <= 64:
        for i in range(c): body(i)
    else: sym_loop(I, n, body, None, '<map>', get)
    return out
