"""Contracts of parallel evaluation (GPyOpt/core/task/objective.py, GPyOpt/util/general.py spawn)."""
from .lib import *
from .bo import zeq_row, snapshot_arr
from .objective import O, user_function
from pyvc.values import PyRaise

class Procs(object):
    """multiprocessing through an assumed contract: a started process runs its target in a copy of the state (or dies at any point before
    sending); a pipe delivers what was sent, in order; reading from a pipe whose write ends are all closed raises EOFError, reading from one
    this process still holds open blocks; joining a process whose result was not read may block (the pipe holds a bounded amount)."""
    def __init__(self, I, fail):
        self.n = 0; self.started = 0; g = self.g = ObjV(I, 'processes', {'started': 0, 'failed': False}, tag='stub'); self.I = I; self.fail = fail
        I.natives['multiprocessing.Pipe'] = self.pipe; I.natives['multiprocessing.Process'] = self.process
    def pipe(self, I, a, k):
        ch = ObjV(I, 'channel', {'q': [], 'here': True, 'sent': False, 'got': False}, tag='stub')
        def end(which):
            e = stub(I, 'Connection'); e.ch = ch; e.which = which
            def send(I2, v): ch.fields['q'] = ch.fields['q'] + [v]; ch.fields['sent'] = True
            def close(I2):
                if which == 'c': ch.fields['here'] = False
            def recv(I2):
                if not ch.fields['q']:
                    if ch.fields['here']: I2.prove(False, 'reading a result never blocks'); raise Infeasible()
                    raise PyRaise('EOFError', ())
                q = ch.fields['q']; ch.fields['q'] = q[1:]; ch.fields['got'] = True; return q[0]
            e.fields.update(send=native('send', send), close=native('close', close), recv=native('recv', recv)); return e
        return (end('p'), end('c'))
    def process(self, I, a, k):
        target = k.get('target', a[1] if len(a) > 1 else None); args = k.get('args', ()); pr = stub(I, 'Process', chans=[])
        args = list(args) if isinstance(args, tuple) else args.items()
        def start(I2):
            g = self.g.fields; g['started'] = zadd(g['started'], 1)
            chans = [x.ch for x in args if hasattr(x, 'ch')]
            if self.fail and I2.branch(I2.fresh('dies', 'Bool')):
                g['failed'] = True; return
            here = [(c, c.fields['here']) for c in chans]
            snap = I2.snapshot()
            I2.call(target, args, {})
            keep = [(c, c.fields['q'], c.fields['sent']) for c in chans]
            I2.load_keep(snap)                      # a copy of the state: nothing but what was sent comes back
            for c, q, s in keep: c.fields['q'] = q; c.fields['sent'] = s
            pr.fields['chans'] = [c for c in chans if c.fields['sent']]
        def join(I2, *t):
            if any(not c.fields['got'] for c in pr.fields['chans']): I2.prove(False, 'a result is read before waiting for its process')
        pr.fields.update(start=native('start', start), join=native('join', join), terminate=native('terminate', lambda I2: None), close=native('close', lambda I2: None), is_alive=native('is_alive', lambda I2: False))
        return pr

def s_par(p, fail, qual):
    def f(I):
        n = integer(I, 'n', 1); D = integer(I, 'D', 1); X = mat(I, n, D, 'X')
        f = z3.Function('f!%d' % uid(), Row, z3.RealSort()); no = z3.Const('norow', Row)
        g = ObjV(I, 'ghost', {'log': mk(I, (0, D), lambda i, j: 0, row=lambda i: no)}, tag='stub')
        o = newobj(I, O)
        I.natives['time.time'] = lambda I2, a, k: I2.fresh('now', 'Real')
        I.call(I.lookup_qual(O + '.__init__'), [o, user_function(I, o, D, f, g)], {'num_cores': p})
        o.g = g; o.f = f; o.Xc = snapshot_arr(I, X); o.procs = Procs(I, fail); o.p = p
        return [o, X]
    return f
def p_par(fail):
    def post(I, em, a, r):
        o, X = a; F, C = as_arr(I, r[0]), r[1]; n = o.Xc.shape[0]; rx = NP.rowfn(I, o.Xc); g = o.procs.g.fields
        em('one value per row', zand(F.ndim == 2, zeq(F.shape[0], n), zeq(F.shape[1], 1)))
        em.forall([n], lambda i: zeq(F.data(i, 0), o.f(rx(ZI(i)))), 'value i is the objective at row i')
        em.forall([n], lambda i: zeq_row(I, X, i, o.Xc, i), 'the inputs are unchanged')
        em('as many processes as cores', zand(zle(g['started'], o.p), zimp(zle(o.p, n), zeq(g['started'], o.p))))
        if not g['failed']:
            C = as_arr(I, C); em('one cost per row', zand(zeq(C.shape[0], n), True if C.ndim == 1 else zeq(C.shape[1], 1)))
            em.forall([n], lambda i: zeq(C.data(*([i] + [0] * (C.ndim - 1))), 1), 'cost one')
        else: em('one cost per row', zeq(seqlen(C), n))
    return post
MAXP = 12
PAR = [Contract(O + '.evaluate', s_par(p, False, None), p_par(False), name=O + '.evaluate (%d cores)' % p) for p in range(2, MAXP + 1)]
PAR += [Contract(O + '.evaluate', s_par(p, True, None), p_par(True), name=O + '.evaluate (%d cores, workers may die)' % p) for p in (2, 3, 4)]

# --- spawn: the worker sends the value of its function, then closes its end
def s_spawn(I):
    v = z3.Const('value', Row); w = ObjV(I, 'value', {}, tag='stub'); o = Native('f', lambda I2, a, k: (w, a[0])); o.w = w; return [o]
def p_spawn(I, em, a, r):
    log = []; x = ObjV(I, 'x', {}, tag='stub')
    pipe = stub(I, 'Connection', send=native('send', lambda I2, v: log.append(v)), close=native('close', lambda I2: log.append('close')))
    I.call(r, [pipe, x], {})
    em('sends the value at its own input, then closes', len(log) >= 1 and isinstance(log[0], tuple) and log[0][0] is a[0].w and log[0][1] is x and all(e == 'close' for e in log[1:]))
SPAWN = [Contract('GPyOpt.util.general.spawn', s_spawn, p_spawn)]
# and where the function fails, nothing is sent, whatever kind of failure it is: this is how the caller learns of it
def s_spawnf(kind):
    def f(I):
        def bad(I2, a, k): raise PyRaise(kind, ())
        I.cx = mat(I, 1, integer(I, 'D', 1), 'x'); return [Native('f', bad)]
    return f
def p_spawnf(I, em, a, r):
    log = []; x = I.cx
    pipe = stub(I, 'Connection', send=native('send', lambda I2, v: log.append(v)), close=native('close', lambda I2: None))
    try: I.call(r, [pipe, x], {})
    except PyRaise: pass
    em('nothing is sent for a function that fails', not log)
SPAWN += [Contract('GPyOpt.util.general.spawn', s_spawnf(k), p_spawnf, name='GPyOpt.util.general.spawn (the function raises %s)' % k) for k in ('ValueError', 'ZeroDivisionError', 'FloatingPointError', 'RuntimeError', 'KeyError', 'MemoryError', 'KeyboardInterrupt', 'SystemExit', 'Exception')]
CONTRACTS = SPAWN + PAR
