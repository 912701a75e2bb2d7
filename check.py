#!/usr/bin/env python3-vt
"""check.py <property> quick|thorough : decide one property of /repo's current working tree.

1. contracts: every function the property is anchored in is executed symbolically from its current source and its contract's
   obligations are discharged (z3, cvc5, sympy, Lean where stated);
2. the real code is run on concrete inputs (counterexample search / bounded stand-in for what is out of the verifier's reach)."""
import sys, os, json, time, subprocess, multiprocessing as mp, signal, traceback, hashlib, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

def work(prop, i, tier, conn, scale=1):
    """verify one contract in a separate process"""
    from contracts import registry
    from pyvc import contract as C, solve
    con = registry.contracts(prop)[i]
    out = {'label': getattr(con, 'label', '?'), 'obls': [], 'error': None, 'called': [], 'ext': [], 'time': 0.0}
    t0 = time.time()
    if scale > 1 and getattr(con, 'timeout', None): con.timeout = con.timeout * scale
    I = C.new_interp((getattr(con, 'timeout', None) or (6000 if tier == 'quick' else 20000) * scale))
    try:
        if hasattr(con, 'run'): con.run(I)
        else: C.verify(I, con)
    except C.Unsupported as e: out['error'] = 'out of reach: %s' % e
    except RecursionError: out['error'] = 'out of reach: recursion'
    except Exception as e:
        out['error'] = 'out of reach: %s: %s' % (type(e).__name__, str(e)[:300]); out['trace'] = traceback.format_exc()[-1500:]
    out['obls'] = [(o.func, o.name, o.status, o.backend, round(o.t, 3), (o.detail or '')[:1200]) for o in I.obls]
    out['called'] = sorted(I.called); out['ext'] = sorted(I.assumed_ext); out['time'] = time.time() - t0
    out['solver_time'] = solve.stats['time']; out['queries'] = solve.stats['queries']
    conn.send(out); conn.close()

def run_contracts(prop, tier, limit, only=None, scale=1, workers=7):
    from contracts import registry
    cons = registry.contracts(prop)
    ctx = mp.get_context('fork'); res = [None] * len(cons); todo = list(range(len(cons))) if only is None else list(only); live = {}
    per = limit
    while todo or live:
        while todo and len(live) < workers:
            i = todo.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(prop, i, tier, b, scale)); p.start(); b.close(); live[i] = (p, a, time.time())
        for i in list(live):
            p, a, t0 = live[i]
            done = False
            if a.poll(0.02):
                try: res[i] = a.recv(); done = True
                except EOFError: done = True
            elif not p.is_alive(): done = True
            elif time.time() - t0 > per: p.kill(); done = True; res[i] = {'label': cons[i].label, 'obls': [], 'error': 'out of reach: time limit of %d s' % per, 'called': [], 'ext': [], 'time': per}
            if done:
                if res[i] is None: res[i] = {'label': cons[i].label, 'obls': [], 'error': 'out of reach: the worker died', 'called': [], 'ext': [], 'time': 0}
                p.join(1); p.kill() if p.is_alive() else None; del live[i]
    return res

def start_harness(prop, tier, seconds, start=0):
    out = os.path.join(HERE, 'evidence', '.harness-%s-%d.json' % (prop, os.getpid()))
    env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='agg', VERIF_REPO=REPO)
    p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'harness', 'run.py'), prop, tier, str(seconds), out, str(start)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    return p, out, seconds
def end_harness(h):
    p, out, seconds = h
    try: _, err = p.communicate(timeout=seconds + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); _, err = p.communicate(); err = b'harness timeout' + (err or b'')
    r = {'cases': 0, 'failures': [], 'known': [], 'samples': [], 'error': (err or b'').decode(errors='replace')[-2000:]}
    if os.path.exists(out):
        with open(out) as f: r = json.load(f)
        os.unlink(out)
    return r

def known(prop):
    d = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            if l.startswith('finding: ') and 'property=%s ' % prop in l:
                key = l.split('key=')[1].split()[0]; d[key] = l.split('key=' + key)[1].strip()
    return d

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    from contracts import registry
    h = start_harness(prop, tier, registry.seconds(prop, tier))
    res = run_contracts(prop, tier, 150 if tier == 'quick' else 500)
    # an obligation no solver decided in its time is tried again, alone and with three times the time, before it counts as failed
    again = [i for i, r in enumerate(res) if any(o[2] == 'unknown' and registry.finding_of(prop, r['label'], o[1]) is None for o in r['obls'])]
    if again and time.time() - t0 < 400:
        for i, r in zip(again, [x for j, x in enumerate(run_contracts(prop, tier, 200 if tier == 'quick' else 600, again, 3, 3)) if j in again]):
            if not r['error']: res[i] = r
    hr = end_harness(h)
    kf = known(prop)
    obls = [o for r in res for o in r['obls']]
    bad = [(r['label'],) + tuple(o) for r in res for o in r['obls'] if o[2] != 'ok']
    # obligations that restate a recorded finding
    knownhit = {}
    rest = []
    for b in bad:
        k = registry.finding_of(prop, b[0], b[2])
        if k in kf: knownhit[k] = b
        else: rest.append(b)
    bad = rest
    oor = [(r['label'], r['error']) for r in res if r['error']]
    if (bad or oor) and not hr['failures']:
        hx = end_harness(start_harness(prop, tier, 60 if tier == 'quick' else 200, hr.get('next', 100000)))
        hr['cases'] = hr.get('cases', 0) + hx.get('cases', 0); hr['failures'] = hx['failures']; hr['known'] += hx['known']
        hr['error'] = hr.get('error') or hx.get('error')
    for k in hr['known']: knownhit.setdefault(k, None)
    ev = os.path.join(HERE, 'evidence')
    violations = []
    if hr['failures']:
        f = hr['failures'][0]
        path = os.path.join(ev, 'replay-%s.json' % prop)
        json.dump({'property': prop, 'case': f['case'], 'message': f['message'], 'how': '%s -B harness/run.py --replay %s' % (PY, path),
                   'failed_obligations': [list(b) for b in bad][:20], 'other_failures': hr['failures'][1:6]}, open(path, 'w'), indent=1, default=str)
        violations.append('VIOLATION property=%s replay=%s' % (prop, path)); print('failing input: ' + f['message'][:600])
    elif bad:
        path = os.path.join(ev, 'replay-%s.json' % prop)
        json.dump({'property': prop, 'failed_obligations': [dict(contract=b[0], function=b[1], obligation=b[2], status=b[3], backend=b[4], seconds=b[5], verifier_output=b[6]) for b in bad],
                   'note': 'no failing input found by the concrete search'}, open(path, 'w'), indent=1)
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    harness_broken = not hr['failures'] and hr.get('cases', 0) == 0
    if harness_broken:
        path = os.path.join(ev, 'replay-%s.json' % prop)
        json.dump({'property': prop, 'error': hr.get('error')}, open(path, 'w'))
        if not violations: violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); print('the concrete driver could not run: ' + str(hr.get('error'))[-500:])
    nd = sum(1 for o in obls if o[2] == 'ok'); n = len(obls)
    if n == 0 and registry.contracts(prop) and not oor and not violations:
        path = os.path.join(ev, 'replay-%s.json' % prop); json.dump({'property': prop, 'error': 'no obligations'}, open(path, 'w'))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    back = {}
    for o in obls:
        if o[2] == 'ok': back[o[3]] = back.get(o[3], 0) + 1
    wall = time.time() - t0
    cov = {
        'obligations': n, 'discharged': nd, 'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
        'trusted_base': registry.trusted(prop) + ['external functions used through assumed contracts: ' + ', '.join(sorted({e for r in res for e in r['ext']}))],
        'functions_under_contract': sorted({r['label'] for r in res}),
        'functions_executed_symbolically': sorted({c for r in res for c in r['called']}),
        'obligations_by_backend': back, 'solver_seconds': round(sum(r.get('solver_time', 0) for r in res), 2), 'solver_queries': sum(r.get('queries', 0) for r in res),
        'undischarged': [{'contract': b[0], 'obligation': b[2], 'status': b[3]} for b in bad],
        'out_of_reach_on_this_tree': [{'contract': a, 'reason': b} for a, b in oor],
        'known_findings': sorted(knownhit),
        'evaluations': hr.get('cases', 0), 'distinct_nontrivial': hr.get('distinct', hr.get('cases', 0)), 'rule': hr.get('rule', ''), 'samples': hr.get('samples', [])[:5],
        'bounded_stand_in': registry.bounded(prop), 'exhaustive': False,
    }
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': registry.level(prop), 'coverage': cov, 'assumptions': registry.assumptions(prop),
               'wall_s': round(wall, 2), 'violations': len(violations)}, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    for k in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf.get(k, k)))
    for b in bad[:5]: print('failed obligation: %s / %s (%s)' % (b[0], b[2], b[3]))
    for v in violations: print(v)
    print('%s %s: %d/%d obligations discharged, %d concrete cases, %d out of reach, %.1f s' % (prop, tier, nd, n, hr.get('cases', 0), len(oor), wall))
    for a, b in oor: print('  out of reach on this tree: %s (%s)' % (a, b[:200]))
    sys.exit(1 if violations else 0)

if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException as e:
        traceback.print_exc()
        p = os.path.join(HERE, 'evidence', 'replay-%s.json' % sys.argv[1])
        json.dump({'property': sys.argv[1], 'error': traceback.format_exc()}, open(p, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (sys.argv[1], p)); sys.exit(1)
