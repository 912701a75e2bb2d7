"""gen_manifest.py: writes MANIFEST.json from the contract modules that exist"""
import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from contracts import registry
NA = {}
checks = []; na = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(HERE, 'contracts', 'p_%s.py' % p)) and p not in NA:
        i = registry.info(p)
        checks.append({'property': p, 'quick_cmd': 'python3-vt -B check.py %s quick' % p, 'thorough_cmd': 'python3-vt -B check.py %s thorough' % p,
                       'technique': getattr(i, 'TECH', 'contracts on the real functions, discharged by z3/cvc5 from obligations generated out of the current source (pyvc)'),
                       'level': registry.level(p), 'level_note': i.NOTE})
    else: na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -B pyvc/selftest.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks')
