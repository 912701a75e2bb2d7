"""Concrete driver: runs the real code of /repo on generated inputs, property by property.
   run.py <property> <tier> <seconds> <out.json> [first case]      run.py --replay <replay.json>"""
import sys, os, json, time, hashlib, importlib, io, contextlib, traceback, warnings, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE); sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
import numpy as np, random
import logging; logging.disable(logging.CRITICAL)

class Fail(Exception): pass
class CaseTimeout(Exception): pass

def rng_for(prop, seed, i):
    return np.random.RandomState(int(hashlib.sha256(('%s/%s/%s' % (prop, seed, i)).encode()).hexdigest()[:8], 16))

def one(mod, prop, seed, i):
    """returns (description, key or None, message or None)"""
    rng = rng_for(prop, seed, i)
    np.random.seed(rng.randint(2**31 - 1)); random.seed(int(rng.randint(2**31 - 1)))
    desc = {}
    def onalarm(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(60)
    old = os.getcwd()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mod.case(rng, i, desc)
        return desc, None, None
    except Exception as e:
        signal.alarm(0)
        from util import Violation, Skip
        if isinstance(e, Skip): return desc, None, None
        key = getattr(e, 'key', None)
        tb = traceback.format_exc()
        msg = str(e) if isinstance(e, Violation) else '%s: %s\n%s' % (type(e).__name__, e, tb[-1500:])
        return desc, key, '[%s] %s' % (desc.get('what', '?'), msg)
    finally:
        signal.alarm(0); os.chdir(old)

def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2])); prop = r['property']; c = r.get('case')
        if c is None: print('no concrete input in this replay file'); sys.exit(1)
        mod = importlib.import_module('h' + prop[1:])
        d, key, msg = one(mod, prop, c['seed'], c['index'])
        print(json.dumps(d, default=str)); print(msg or 'holds'); sys.exit(1 if msg else 0)
    prop, tier, seconds, out = sys.argv[1:5]; start = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    seed = int(os.environ.get('VERIF_SEED', '1')); seconds = float(seconds)
    res = {'cases': 0, 'failures': [], 'known': [], 'samples': [], 'error': None, 'distinct': 0}
    try:
        known = {}
        for l in open(os.path.join(HERE, '..', 'known_findings.txt')):
            if l.startswith('finding: ') and 'property=%s ' % prop in l: known[l.split('key=')[1].split()[0]] = l
        mod = importlib.import_module('h' + prop[1:])
        res['rule'] = mod.RULE
        t0 = time.time(); i = start; seen = set()
        nmin = getattr(mod, 'MIN', 60); nmax = getattr(mod, 'MAX', 10**9) if tier == 'quick' else 10**9
        while (time.time() - t0 < seconds or i - start < nmin) and time.time() - t0 < max(4 * seconds, 150) and i - start < nmax:
            d, key, msg = one(mod, prop, seed, i)
            res['cases'] += 1
            hsh = hashlib.sha256(json.dumps(d, default=str, sort_keys=True).encode()).hexdigest()
            if hsh not in seen: seen.add(hsh)
            if len(res['samples']) < 5: res['samples'].append(json.loads(json.dumps(d, default=str)))
            if msg is not None:
                if key in known:
                    if key not in res['known']: res['known'].append(key)
                else:
                    res['failures'].append({'case': {'seed': seed, 'index': i, 'input': json.loads(json.dumps(d, default=str))}, 'message': msg})
                    if len(res['failures']) >= 3: break
            i += 1
        res['next'] = i; res['distinct'] = len(seen)
    except BaseException:
        res['error'] = traceback.format_exc()
        res['failures'] = res['failures']
    with open(out, 'w') as f: json.dump(res, f, default=str)

if __name__ == '__main__': main()
