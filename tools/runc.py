"""runc.py <property> [substring]: verify contracts one by one and print every obligation (development aid)"""
import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from contracts import registry
from pyvc import contract as C
sub = sys.argv[2] if len(sys.argv) > 2 else ''
for con in registry.contracts(sys.argv[1]):
    if sub not in con.label: continue
    I = C.new_interp(getattr(con, 'timeout', None) or 6000); t = time.time()
    try:
        if hasattr(con, 'run'): con.run(I)
        else: C.verify(I, con)
        err = ''
    except C.Unsupported as e:
        err = 'UNSUPPORTED %s' % e
        if '-t' in sys.argv: print(traceback.format_exc()[-700:])
    except Exception as e: err = traceback.format_exc()
    ok = sum(o.status == 'ok' for o in I.obls)
    print('%s  %d/%d  %.1fs %s' % (con.label, ok, len(I.obls), time.time() - t, err))
    for o in I.obls:
        if o.status != 'ok' or '-v' in sys.argv: print('    %s %s %.2f %s %s' % (o.status, o.backend, o.t, o.name, (o.detail or '')[:int(os.environ.get('DL', 300))] if o.status != 'ok' else ''))
    if I.recs and '-v' in sys.argv: print('    recs', [str(r)[:200] for r in I.recs])
