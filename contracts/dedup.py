"""Contracts of DuplicateManager (GPyOpt/util/duplicate_manager.py)."""
from .lib import *
from .bo import zeq_row, snapshot_arr
DM = 'GPyOpt.util.duplicate_manager.DuplicateManager'

def s_dup(pend, ign, mode):
    def f(I):
        D, MD, n = integer(I, 'D', 1), integer(I, 'MD', 1), integer(I, 'n', 0)
        X = mat(I, n, D, 'X'); P = mat(I, integer(I, 'np', 0), D, 'P') if pend else None; G = mat(I, integer(I, 'ni', 0), D, 'G') if ign else None
        DEC = z3.Function('DEC!%d' % uid(), Row, Row)
        def dec(I2, Q):
            Q = NP.atleast_2d(I2, NP.as_arr(I2, Q)); r = NP.rowfn(I2, Q); return mk(I2, (Q.shape[0], D), lambda i, j: el(DEC(r(ZI(i))), ZI(j)), row=lambda i: DEC(r(ZI(i))))
        space = stub(I, 'Space', zip_inputs=native('zip_inputs', dec))
        q = vec(I, D if mode.startswith('zipped') else MD, 'q')
        x = q if mode.endswith('row') else mk(I, (1, q.shape[0]), lambda i, j: q.data(j), row=lambda i: q.vec)
        I.dup = (X, P, G, DEC, q, mode, x)
        return [space, X, P, G]
    return f
def call_dup(I, fv, args, kw):
    space, X, P, G = args
    d = I.call(fv, [space, X], {k: v for k, v in (('pending_zipped_X', P), ('ignored_zipped_X', G)) if v is not None})
    x, mode = I.dup[6], I.dup[5]
    if mode == 'zipped set': r = NP.contains(I, TupV(I.dup[4].shape[0], lambda j: I.dup[4].data(j), I.dup[4].vec), I.getattr(d, 'unique_points'))
    else: r = NP.truth(I, I.call(I.getattr(d, 'is_zipped_x_duplicate' if mode.startswith('zipped') else 'is_unzipped_x_duplicate'), [x], {}))
    return Z(r)
def p_dup(I, em, a, r):
    X, P, G, DEC, q, mode, x = I.dup; z = q.vec if mode.startswith('zipped') else DEC(q.vec)
    ms = [M for M in (X, P, G) if M is not None]
    isin = zor(*[exists(I, 'Int', lambda i, M=M: zand(0 <= i, zlt(i, M.shape[0]), M.row(i) == z)) for M in ms])
    em('a reported duplicate is an evaluated, pending or ignored point', zimp(r, isin))
    for M, nm in ((X, 'evaluated'), (P, 'pending'), (G, 'ignored')):
        if M is None: continue
        with I.gen(M.shape[0]) as i:
            with I.hyp(M.row(i) == z): em('every %s point is reported' % nm, r)
class Dup(Contract): pass
DUP = []
for pend, ign in ((True, True), (True, False), (False, True), (False, False)):
    for mode in ('zipped row', 'zipped matrix', 'zipped set', 'unzipped row', 'unzipped matrix'):
        if (pend, ign) not in ((True, True), (False, False)) and mode not in ('zipped matrix',): continue
        c = Contract(DM, s_dup(pend, ign, mode), p_dup, name=DM + ': %s%s%s' % (mode, ', pending points' if pend else '', ', ignored points' if ign else ''))
        DUP.append(c)
        def run(I, c=c):
            from pyvc.contract import verify
            verify(I, c, call_dup)
        c.run = run
CONTRACTS = DUP
