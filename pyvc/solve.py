"""Discharging obligations: z3 with E-matching, then z3 with model-based instantiation, then cvc5."""
import z3, subprocess, tempfile, os, shutil, time

CVC5 = shutil.which('cvc5')
stats = {'queries': 0, 'time': 0.0}

def subterms(t, seen=None):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x): continue
        st.extend(x.children())

def has_any(t, ids, cache):
    i = t.get_id()
    if i in cache: return cache[i]
    r = i in ids or any(has_any(c, ids, cache) for c in t.children())
    cache[i] = r
    return r

def patterns(vars, body, hyps):
    ids = {v.get_id(): n for n, v in enumerate(vars)}
    cache = {}
    cands = []
    terms = []
    srcs = [body] if not isinstance(body, bool) else []
    for src in srcs + [h for h in hyps if not isinstance(h, bool)]:
        for t in subterms(src):
            if z3.is_quantifier(t): continue
            if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and has_any(t, ids, cache):
                simple = True; cover = set()
                stack = list(t.children())
                while stack:
                    c = stack.pop()
                    if c.get_id() in ids: cover.add(ids[c.get_id()]); continue
                    if not has_any(c, ids, cache):
                        if c.num_args() and any(z3.is_quantifier(q) or z3.is_bool(q) or (z3.is_app(q) and q.decl().kind() == z3.Z3_OP_ITE) for q in subterms(c)): simple = False; break
                        continue
                    if c.decl().kind() == z3.Z3_OP_UNINTERPRETED: stack.extend(c.children())
                    else: simple = False; break
                if simple and cover: terms.append((t, cover))
    uniq = {}
    for t, c in terms: uniq[t.get_id()] = (t, c)
    terms = list(uniq.values())
    full = [t for t, c in terms if len(c) == len(vars)]
    if full:
        # drop patterns that contain another full pattern
        res = []
        for t in full:
            if not any(o is not t and any(s.get_id() == o.get_id() for s in subterms(t)) for o in full): res.append(t)
        return res[:6]
    need = set(range(len(vars))); mp = []
    for t, c in sorted(terms, key=lambda x: -len(x[1])):
        if c & need: mp.append(t); need -= c
        if not need: return [z3.MultiPattern(*mp)]
    return []

def check(assumptions, goal, timeout, quick=False):
    stats['queries'] += 1
    t0 = time.time()
    try:
        s = z3.Solver(); s.set('timeout', int(timeout)); s.set('smt.mbqi', False); s.set('smt.random_seed', 1)
        for a in assumptions: s.add(a)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return 'ok', 'z3', ''
        if quick: return 'fail', 'z3', str(r)
        if r == z3.unknown:
            s3 = z3.Solver(); s3.set('timeout', int(max(2000, timeout // 2))); s3.set('smt.mbqi', False); s3.set('smt.arith.nl', False)
            for a in assumptions: s3.add(a)
            s3.add(z3.Not(goal))
            if s3.check() == z3.unsat: return 'ok', 'z3', ''
        d1 = str(r) + ' ' + (s.reason_unknown() if r == z3.unknown else '')
        if r == z3.sat: return 'refuted', 'z3', 'sat: ' + str(s.model())[:1500]
        if timeout >= 4000 or 'timeout' not in d1:
            s2 = z3.SolverFor('AUFNIRA') if False else z3.Solver()
            s2.set('timeout', int(max(2000, timeout // 2)))
            for a in assumptions: s2.add(a)
            s2.add(z3.Not(goal))
            r2 = s2.check()
            if r2 == z3.unsat: return 'ok', 'z3-mbqi', ''
            if r2 == z3.sat: return 'refuted', 'z3', 'sat: ' + str(s2.model())[:1500]
        if CVC5:
            r3 = cvc5_check(s, max(2000, timeout // 2))
            if r3 == 'unsat': return 'ok', 'cvc5', ''
        return 'unknown', 'z3', d1
    finally:
        stats['time'] += time.time() - t0

def cvc5_check(s, ms):
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f: f.write('(set-logic ALL)\n' + s.to_smt2())
        out = subprocess.run([CVC5, '--tlimit=%d' % ms, p], capture_output=True, text=True, timeout=ms / 1000 + 5).stdout
        return out.strip().split('\n')[0] if out.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
