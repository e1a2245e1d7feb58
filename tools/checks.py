"""What each property's check explores."""
from vlib import *
from seq import *
from conc import *
from table import *
from formulas import *
import monitor, e2e

CHECKS = {}
def check(p):
    def deco(f):
        CHECKS[p] = f
        return f
    return deco

S = SEED


@check('B01')
def b01(c):
    buffer_model(c, 2,
            ['TypeOK', 'WellFormed', 'NewestHeld', 'Bounded', 'StatusExact', 'FifoOut', 'Passive'])
    A = [(BPUSH, 0, FD, FT), (BPULL, 0), (BPOP, 0), (BLEN, 0)]
    W = A + [(NEWW, 0)]
    sc = [scen(1, W, 6), scen(2, W, 7 if THOROUGH else 6), scen(3, A, 8 if THOROUGH else 7, dt=2),
          scen(2, W[:3] + [(NEWW, 0)], 6, base=1, dt=1)]
    # close to full / wrapped
    for n in (3, 4, 5):
        pre = [(BPUSH, 0, FD, FT)] * (n + 2) + [(BPULL, 0)] * 2
        sc.append(scen(n, A, 7 if THOROUGH else 6, prefix=pre, base=2))
    for n, l, dt in ((1, 200, 0), (2, 300, 1), (3, 400, 2), (7, 800, 0), (31, 1500, 0), (100, 3000, 0), (255, 3000, 1),
                     (256, 3000, 0), (300, 4000, 0)):
        B = [(BPUSH, 0, FD, FT)] * 4 + [(BPULL, 0), (BPOP, 0), (BLEN, 0)]
        sc.append(scen(n, B, walk=(l * (4 if THOROUGH else 1), 4 if THOROUGH else 2, S + n), obs=1 if n < 10 else 97, base=n, dt=dt))
        sc.append(scen(n, B, prefix=[(NEWW, 0)] * 2, walk=(l // 2, 1, S + 77 + n), obs=1 if n < 10 else 97, dt=dt))
    for i, n in enumerate(BIG):
        L = [(BLEN, 0)]
        Q = [many(MPUSH, n - 1)] + L + [push(), push()] + L + [(BPULL, 0), many(MPULL, n // 2)] + L + [many(MPOP, n // 3)] + L
        Q += [many(MPUSH, n + 5)] + L + [many(MPULL, n + 2)] + L
        for k in (n // 2, n, n + 1, 2 * n + 1) if n <= 1000 or THOROUGH else (n,):   # round the ring, full and not
            Q += [many(MPUSH, k)] + L + [push(), (BPOP, 0)] + L + [many(MPOP, n - 1), (BPULL, 0), (BPOP, 0)] + L
        sc.append(once(n, Q, base=i))
        sc.append(once(n, [(NEWW, 0)] * (i % 3) + [many(MPUSH, 3 * n), many(MPULL, 256), many(MPUSH, 255), many(MPOP, 257), many(MPULL, n)] + L, base=i + 1))
    check_seq(c, 'B01', sc)


def push(b=0):
    return (BPUSH, b, FD, FT)


# Large capacities, with many calls in one step: index and counter widths.
HUGE = -1000                                           # 2^32, to the driver
BIG = (256, 300, 1000, 65535, 65536, 70000)
def many(op, k, b=0):
    return (op, b, FD, FT, k) if op in (MPUSH, MWPUSH) else (op, b, k)


def once(n, steps, **kw):
    """One execution of the given steps."""
    return scen(n, steps[-1:], prefix=steps[:-1], walk=(1, 1, 1), obs=0, **kw)


@check('B02')
def b02(c):
    buffer_model(c, 1, ['WellFormed', 'NewestHeld', 'Passive'])
    sc = []
    for n in (1, 2, 3):
        idx = sorted({0, n - 1, n, n + 1, n + 2, -1})
        A = [push(), (BPULL, 0), (BPOP, 0)] + [(BREAD, 0, i) for i in idx] + [(BWRITE, 0, i, FD, FT) for i in idx]
        A += [(BSTATE, 0), (BSTATE4, 0), (BLEN, 0)]
        for k in (0, n, n + 1 + n // 2):
            sc.append(scen(n, A, 4 if THOROUGH else 3, prefix=[push()] * k, dt=2 if n == 3 else 0, base=n + k))
        Q = [push(), (BPULL, 0), (BREAD, 0, n), (BSTATE4, 0), (BLEN, 0), (BWRITE, 0, 0, FD, FT)]
        sc.append(scen(n, Q, 6 if THOROUGH else 5, base=n))
    for n, dt in ((2, 1), (5, 0), (100, 0), (255, 1), (256, 0), (300, 0)):
        A = [push()] * 5 + [(BPULL, 0), (BPOP, 0), (BSTATE, 0), (BSTATE4, 0), (BLEN, 0)]
        A += [(BREAD, 0, i) for i in (0, n // 2, n, n + 1, n + 2, 2 * n + 2, 65536, -1)]
        A += [(BWRITE, 0, i, FD, FT) for i in (0, n // 2, n, n + 1, 2 * n + 2, -1)]
        for k in range(6 if THOROUGH else 2):
            sc.append(scen(n, A, walk=(6 * n + 200, 1, S + n + k), obs=1 if n < 10 else 61, base=n + k, dt=dt))
    for i, n in enumerate(BIG):
        for k in (n // 3, n + 1, 2 * n) if n <= 1000 or THOROUGH else (n + 1,):
            Q = [many(MPUSH, k)]
            for x in (0, 1, 255, 256, n // 2, n - 1, n, n + 1, n + 2, 2 * n + 2, 65535, 65536, 65537, 2**31 - 1, HUGE, HUGE - 1):
                Q += [(BREAD, 0, x), (BWRITE, 0, x, FD, FT), (BREAD, 0, x)]
            Q += [(BSTATE, 0), (BSTATE4, 0), (BLEN, 0), many(MPULL, n // 4), (BSTATE, 0), (BSTATE4, 0), many(MPOP, n // 5), (BSTATE, 0), (BLEN, 0), many(MPULL, n)]
            sc.append(once(n, Q, base=i))
    check_seq(c, 'B02', sc)


@check('B03')
def b03(c):
    buffer_model(c, 1, ['WellFormed', 'NewestHeld', 'FifoOut'])
    sc = []
    for n in (1, 2, 3):
        A = [push(0), push(1), (BPULL, 0), (BPULL, 1), (ASSIGN, 1, 0), (ASSIGN, 0, 1)]
        sc.append(scen(n, A, 6 if THOROUGH else 5, nb=2, base=n, dt=2 if n == 3 else 0))
        sc.append(scen(n, A + [(RENEWB, 0), (BPOP, 1)], 5 if THOROUGH else 4, nb=2, prefix=[push(0)] * (n + 2), base=n))
        # buffers used through writers
        P = [(NEWW, 0), (NEWW, 1)]
        W = [(WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, FT), (BPULL, 0), (ASSIGN, 1, 0), (ASSIGN, 0, 1)]
        sc.append(scen(n, W, 6 if THOROUGH else 5, nb=2, prefix=P, base=n))
        sc.append(scen(n, W, 5 if THOROUGH else 4, nb=2, prefix=P + [(NEWW, 0), (WPUSHALL, 0, FD, FT), (WPUSHALL, 2, FD, FT)] * 2, base=n))
        sc.append(scen(n, W + [(WPUSH, 2, FD), (DELW, 0), (ASSIGN, 0, 0)], 4, nb=2, prefix=P + [(NEWW, 0)], base=n))
    # three buffers, chains of snapshots; larger ones
    A3 = [(ASSIGN, i, j) for i in range(3) for j in range(3)] + [push(i) for i in range(3)] * 4 + [(BPULL, i) for i in range(3)] + [(BPOP, 2)]
    W3 = [(ASSIGN, i, j) for i in range(3) for j in range(3) if i != j] + [(WPUSHALL, i, FD, FT) for i in range(3)] * 5 + [(BPULL, 1)]
    for n in (2, 5, 31, 100):
        sc.append(scen(n, A3, nb=3, walk=(400, 4 if THOROUGH else 1, S + n), obs=1 if n < 10 else 23, base=n))
        sc.append(scen(n, W3, nb=3, prefix=[(NEWW, 0), (NEWW, 1), (NEWW, 2)], walk=(400, 4 if THOROUGH else 1, S + n), obs=1 if n < 10 else 23, base=n))
    for i, n in enumerate(BIG):
        for k in (n // 2, n + 7):
            Q = [many(MPUSH, k), (ASSIGN, 1, 0), many(MPULL, 3), push(1), (BLEN, 0), (BLEN, 1), (BSTATE4, 1), many(MPULL, n, 1), many(MPUSH, 2, 1), (ASSIGN, 0, 1), many(MPULL, 3)]
            sc.append(once(n, [(NEWW, 0), (NEWW, 1)] * (k % 2) + Q, nb=2, base=i))
    check_seq(c, 'B03', sc)


@check('W01')
def w01(c):
    buffer_model(c, 1, ['WellFormed', 'NewestHeld', 'StatusExact'])
    sc = []
    for n in (1, 2, 3):
        P = [(NEWW, 0)] * 3
        A = [(WPUSH, 0, FD), (WPUSH, 1, FD), (WPUSH, 2, FD), (BPULL, 0), (BLEN, 0)]
        sc.append(scen(n, A, 6 if THOROUGH else 5, prefix=P, base=n, dt=2 if n == 3 else 0))
        A = [(WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, 5), (WPUSH, 2, FD), (BPULL, 0)]
        sc.append(scen(n, A, 6 if THOROUGH else 5, prefix=P, base=n, dt=1 if n == 2 else 0))
        # explicit times far ahead of the clock
        A = [(WPUSHALL, 1, FD, 90000000), (WPUSH, 0, FD), (WPUSH, 1, FD), (BPULL, 0)]
        sc.append(scen(n, A, 6 if THOROUGH else 4, prefix=P, base=n % 2))
    for i, n in enumerate((2, 5, 31, 100, 300)):
        for b in range(len(BASES)):
            A = [(WPUSH, 0, FD), (WPUSH, 1, FD), (WPUSH, 2, FD), (BLEN, 0)]
            if (b + i) % 2 == 0 or THOROUGH:
                sc.append(scen(n, A, prefix=[(NEWW, 0)] * 3, walk=(3 * n + 100, 1, S + n + b), obs=1 if n < 10 else 31, base=b))
    for i, n in enumerate(BIG):
        P, Q = (lambda w: (WPUSH, w, FD)), [(NEWW, 0)] * 3
        for k in (n - 2, n, 2 * n + 1):
            Q += [many(MWPUSH, k, k % 3), P(0), P(1), many(MPULL, n // 2), P(2), many(MWPUSH, 255, 1), P(0), (BLEN, 0), many(MPULL, n + 1)]
        sc.append(once(n, Q, base=i))
    check_seq(c, 'W01', sc)
    # concurrent pushes: stamps in the order of the pushes
    lockfree(c, [(2, 2, 1), (3, 1, 1)] + ([(2, 4, 2), (3, 2, 1)] if THOROUGH else []), ['StampOrder'], broken=[('early', 'StampOrder')])
    forever(c, [(2, 1, 0), (2, 2, 0)] + ([(3, 1, 0), (2, 4, 0)] if THOROUGH else []), ['LastStamp'])
    P, A = (lambda w: (WPUSH, w)), (lambda w, t=0: (WPUSHALL, w, t) if t else (WPUSHALL, w))
    B = budget()
    q = []
    for n in (1, 2, 3):
        q.append(prog(n, [[P(0)] * 2, [P(1)] * 2], **B))
        q.append(prog(n, [[P(0)], [P(1)], [P(2), P(2)]], **B))
        q.append(prog(n, [[P(0)] * (n + 2), [P(1)]], init=[(NEWW, 0), (NEWW, 1)] + [P(0), P(1)] * n, **B))
        q.append(prog(n, [[P(0), P(0)], [A(1, FAR), P(1)]], payload=0, **B))
    check_conc(c, 'W01c', q, judge=[WPUSH, WPUSHALL, 111])


def budget():
    if THOROUGH:
        return dict(bound=3, maxexec=600000, rand=200000, keep=3000, pairs=400000)
    return dict(bound=2, maxexec=30000, rand=4000, keep=500, pairs=20000)


@check('R01')
def r01(c):
    reader_model(c)
    sc = []
    pw = (WPUSHALL, 0, FD, FT)
    for n in (2, 3, 4):
        P = [(NEWR, 0), (NEWW, 0)]
        A = [pw, (SYNC, 0), (RPULL, 0), (RLEN, 0)]
        sc.append(scen(n, A, 8 if THOROUGH else 6, prefix=P, base=n, dt=2 if n == 3 else 0))
        # every place of the ring, reader in step
        for k in range(n + 2):
            rot = P + [pw, (SYNC, 0), (RPULL, 0)] * k
            sc.append(scen(n, A[:3], 8 if THOROUGH else 6, prefix=rot, base=k))
            sc.append(scen(n, [push(), (SYNC, 0), (RPULL, 0)], 7 if THOROUGH else 5, prefix=[(NEWR, 0)] + [push(), (SYNC, 0), (RPULL, 0)] * k, base=k))
    for n in (2, 3, 7, 31, 100, 300):
        P = [(NEWR, 0), (NEWW, 0), (NEWR, 0)]
        A = [pw] * 2 + [(SYNC, 0)] * 2 + [(RPULL, 0)] * 3 + [(SYNC, 1)] * 2 + [(RPULL, 1)] * 3 + [(RLEN, 0)]
        for k in range(4 if THOROUGH else 2):
            sc.append(scen(n, A, prefix=P, walk=(3 * n + 300, 1, S + n + k), obs=1 if n < 10 else 41, base=n + k))
    sc += steady(scen, 'pull')
    sc += bigreader([lambda k: many(MRPULL, k)])
    check_seq(c, 'R01', sc, judge=[RPULL, RLEN, MRPULL])


def bigreader(take):
    """Readers of large buffers: behind, in step, exactly one lap late, more than a lap late."""
    out = []
    for i, n in enumerate(BIG):
        Q, j = [(NEWR, 0), (NEWW, 0), many(MWPUSH, 3), (SYNC, 0), many(MRPULL, 4)], 0
        few = n > 1000 and not THOROUGH
        for k in (n - 4, n, n + 1, n - 1) if few else (n - 4, 255, 256, n // 2, n - 1, n, n - 2, n + 1, n - 1, n + 2, 300, 2 * n + 3, n):
            Q += [many(MWPUSH, k), (RLEN, 0), (RGAP, 0), (SYNC, 0), (RLEN, 0), (RGAP, 0), take[j % len(take)](k // 2), (RLEN, 0), (RGAP, 0), take[(j + 1) % len(take)](n)]
            j += 1
        for k in (n + 1, n + 2) if few else (n - 1, n, n + 1, n + 2, n + 3):  # told of a loss without synchronizing
            Q += [many(MWPUSH, k), (RGAP, 0), (RPULL, 0), (RGAP, 0), (SYNC, 0), take[0](n), (RPULL, 0), (SYNC, 0), (RPULL, 0)]
        out.append(once(n, Q, base=i))
    return out


def steady(scen, kind):
    """Long histories of a reader that keeps up, sized to go round the ring many times."""
    out = []
    for n in (2, 3, 5, 31, 100):
        chunk = max(1, n // 2)
        unit = [(WPUSHALL, 0, FD, FT)] * chunk + [(SYNC, 0)] + [(RPULL, 0)] * (chunk + 1) + [(RLEN, 0), (RGAP, 0)]
        laps = (6 if n < 50 else 4)
        P = [(NEWR, 0), (NEWW, 0)] + unit * (laps * (n + 1) // chunk)
        out.append(scen(n, [(RLEN, 0)], prefix=P, walk=(1, 1, 1), obs=0, base=n))
    return out


@check('R02')
def r02(c):
    reader_model(c)
    sc = []
    pw = (WPUSHALL, 0, FD, FT)
    for n in (1, 2, 3):
        P = [(NEWR, 0), (NEWW, 0)]
        A = [pw, (SYNC, 0), (RPULL, 0), (RGAP, 0)]
        sc.append(scen(n, A, 8 if THOROUGH else 7, prefix=P, base=n))
        for k in range(2 * n + 3):
            sc.append(scen(n, A, 6 if THOROUGH else 5, prefix=P + [pw] * k + [(SYNC, 0)], base=k))
            sc.append(scen(n, [pw, (SYNC, 0), (RPULL, 0)], 7 if THOROUGH else 6, prefix=P + [pw, (SYNC, 0), (RPULL, 0)] * k, base=k))
    for n in (2, 4, 7, 31, 100, 300):
        P = [(NEWR, 0), (NEWW, 0), (NEWR, 0)]
        A = [pw] * 6 + [(SYNC, 0)] + [(RPULL, 0)] * 3 + [(SYNC, 1)] * 2 + [(RPULL, 1)] * 5 + [(RGAP, 0), (RGAP, 1), (RPOP, 1)]
        for k in range(6 if THOROUGH else 2):
            sc.append(scen(n, A, prefix=P, walk=(6 * n + 500, 1, S + n + k), obs=0, base=n + k, dt=0))
    # exactly around a full lap: n-1 .. 2n+3 pushes between two synchronizations
    for n in (2, 3, 5, 31):
        for k in range(max(0, n - 2), 2 * n + 4):
            for lead in (0, 1, n // 2, n + 1):
                P = [(NEWR, 0), (NEWW, 0)] + [pw] * (lead + 1) + [(SYNC, 0)] + [(RPULL, 0)] * lead
                P += [pw] * k + [(RPULL, 0), (RGAP, 0), (SYNC, 0), (RPULL, 0), (SYNC, 0), (RPULL, 0)]
                sc.append(scen(n, [(RLEN, 0)], prefix=P, walk=(1, 1, 1), obs=0, base=k))
    sc += steady(scen, 'pull')
    sc += bigreader([lambda k: many(MRPULL, k)])
    check_seq(c, 'R02', sc, judge=[SYNC, RPULL, RPOP, RGAP, MRPULL, MRPOP])


@check('R03')
def r03(c):
    reader_model(c)
    sc = []
    pw = (WPUSHALL, 0, FD, FT)
    for n in (1, 2, 3):
        P = [(NEWR, 0), (NEWW, 0), (NEWR, 0)]
        A = [pw, (SYNC, 0), (RPULL, 0), (RPOP, 0), (SYNC, 1), (RPULL, 1), (RPOP, 1)]
        sc.append(scen(n, A, 6 if THOROUGH else 5, prefix=P, base=n, dt=2 if n == 3 else 0))
        B = [pw, (SYNC, 0), (RPULL, 0), (RPOP, 0), (RLEN, 0), (RGAP, 0)]
        for k in (1, n, n + 1, 2 * n + 1):
            sc.append(scen(n, B, 6 if THOROUGH else 5, prefix=[(NEWR, 0), (NEWW, 0)] + [pw] * k + [(SYNC, 0)], base=k, dt=2 if n > 1 else 0))
    for n in (2, 5, 31, 100, 300):
        P = [(NEWR, 0), (NEWW, 0), (NEWR, 0), (NEWW, 0), (NEWR, 0)]
        A = [pw] * 4 + [(WPUSHALL, 1, FD, FT)] * 3
        for r in range(3):
            A += [(SYNC, r)] * 2 + [(RPULL, r)] * 3 + [(RPOP, r)] * 2 + [(RGAP, r), (RLEN, r)]
        for k in range(4 if THOROUGH else 2):
            sc.append(scen(n, A, prefix=P, walk=(4 * n + 600, 1, S + n + k), obs=1 if n < 10 else 61, base=n + k))
    sc += bigreader([lambda k: many(MRPULL, k), lambda k: many(MRPOP, k)])
    check_seq(c, 'R03', sc, judge=[RPULL, RPOP, RLEN, MRPULL, MRPOP])


FOREVER = 1000000000  # more than the shortest histories to all states seen through a view


def buffer_model(c, writers, inv):
    """One buffer in all histories, of any length."""
    for cap in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4, 5):
        c.model('MCBuffer', dict(CAP=cap, MAXOPS=FOREVER, MAXW=writers), inv, view='Rel')


def forever(c, sizes, inv, design='fixed', **kw):
    """The lock-free protocol with writers and a reader that never end."""
    for w, n, r in sizes:
        c.model('Forever', dict(W='{%s}' % ', '.join(map(str, range(1, w + 1))), NPUSH=FOREVER, N=n, READS=FOREVER if r else 0, DESIGN='"%s"' % design),
                inv, spec='Endless', view='Rel', timeout=800, **kw)


def reader_model(c):
    inv = ['BufferWell', 'PullsRight', 'Told', 'PopsRight', 'GapOK', 'LenOK']
    for cap in (1, 2, 3, 5) if not THOROUGH else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
        c.model('MCReader', dict(CAP=cap, MAXPUSH=FOREVER, FIXED='TRUE'), inv, view='Rel')
    c.refuted('MCReader', dict(CAP=2, MAXPUSH=8, FIXED='FALSE'), ['Told'])


def lockfree(c, sizes, inv=(), props=(), broken=(), reads=0):
    """The lock-free protocol, one memory access per step, and its broken relatives."""
    k = lambda d, w, np, n, r: dict(W='{%s}' % ', '.join(map(str, range(1, w + 1))), NPUSH=np, N=n, READS=r, DESIGN='"%s"' % d)
    for x in sizes:
        c.model('LockFree', k('fixed', *(x if len(x) == 4 else x + (0,))), ['TypeOK'] + list(inv), props, timeout=800)
    for d, i in broken:
        c.refuted('LockFree', k(d, 2, 2 if reads else 3, 1, reads), [i] if i != 'Finishes' else [], [i] if i == 'Finishes' else [])


@check('T01')
def t01(c):
    reader_model(c)
    sc = []
    pw = (WPUSHALL, 0, FD, FT)
    cur = [(CINC, 0), (CDEC, 0), (CREAD, 0), (CNEXT, 0), (CPREV, 0), (CLEN, 0), (CCONS, 0), (CRESET, 0), (CPULL, 0)]
    for n in (1, 2, 3, 4):
        P = [(NEWR, 0), (NEWW, 0)]
        for k in range(0, 2 * n + 3):
            pre = P + [pw] * k + [(SYNC, 0), (CRESET, 0)]
            sc.append(scen(n, cur, 4 if THOROUGH and n < 4 else 3, prefix=pre, base=k, dt=2 if n == 3 else 0))
            # walk to the far end first
            sc.append(scen(n, cur[:5], 5 if THOROUGH else 4, prefix=pre + [(CINC, 0)] * n, base=k))
        # events taken by the reader: window smaller than the buffer, all rotations
        for k in range(n + 2):
            pre = P + [pw, (SYNC, 0), (RPULL, 0)] * k + [pw] * (n - 1) + [(SYNC, 0), (CRESET, 0)]
            sc.append(scen(n, cur + [(CSETCUR, 0, i) for i in (0, n, n + 1, -1)], 3, prefix=pre, base=k))
    for n in (2, 5, 31, 100, 300):
        P = [(NEWR, 0), (NEWW, 0)]
        A = [pw, (SYNC, 0)] + [(CINC, 0)] * 4 + [(CDEC, 0)] * 3 + cur + [(RPULL, 0)] + [(CPULL, 0)] * 2
        A += [(CSETCUR, 0, i) for i in (0, n // 2, n, n + 1, n + 2, -1)]
        for k in range(5 if THOROUGH else 2):
            sc.append(scen(n, A, prefix=P + [pw] * (k * n + 3) + [(SYNC, 0), (CRESET, 0)], walk=(5 * n + 500, 1, S + n + k), obs=0, base=n + k))
    for i, n in enumerate(BIG):
        for lead in (0, n // 2, 2 * n + 3) if n <= 1000 or THOROUGH else (n // 2,):
            Q = [(NEWR, 0), (NEWW, 0), many(MWPUSH, 1 + lead), (SYNC, 0), many(MRPULL, n), many(MWPUSH, n - 2), (SYNC, 0), (CRESET, 0)]
            look = [(CREAD, 0), (CNEXT, 0), (CPREV, 0), (CLEN, 0), (CCONS, 0)]
            Q += look
            for k in (254, 1, 1, n - 258, 1, 1, 1, 5):
                Q += [many(MCINC, k)] + look
            for k in (1, n // 2, 255, 1, n):
                Q += [many(MCDEC, k)] + look
            Q += [many(MCPULL, n // 3)] + look + [many(MCPULL, n)] + look + [(CRESET, 0)] + look
            Q += [x for p in (0, 255, 256, n - 1, n, n + 1, 65535, 65536, HUGE) for x in [(CSETCUR, 0, p)] + look]
            sc.append(once(n, Q, base=i + lead))
    check_seq(c, 'T01', sc, judge=[MCINC, MCDEC, MCPULL] + [CRESET, CINC, CDEC, CREAD, CNEXT, CPREV, CLEN, CCONS, CPULL, CSETCUR])


def seeks(sizes, extra=(), b=lambda k: k):
    """Seeks to every time of a window, from every position, and on a long window."""
    sc, pw = [], (WPUSHALL, 0, FD, FT)
    for n in sizes:
        k = n + n // 2 + 1
        P = [(NEWR, 0), (NEWW, 0)] + [pw] * k + [(SYNC, 0), (CRESET, 0)]
        hi = 2 * (k + 1) + 2
        A = [(CSET, 0, t) for t in range(max(0, hi - 2 * n - 5), hi + 3)] + list(extra)
        if n < 9:
            sc.append(scen(n, A, 2, prefix=P, base=b(k)))
        else:
            sc.append(scen(n, A + [(CINC, 0), (CDEC, 0)] * n, prefix=P, walk=(300, 1, S + n), obs=0, base=b(n + k)))
    return sc


@check('T02')
def t02(c):
    reader_model(c)
    sc = []
    pw = (WPUSHALL, 0, FD, FT)
    for n in (1, 2, 3, 4):
        for k in range(0, 2 * n + 3):
            P = [(NEWR, 0), (NEWW, 0)] + [pw] * k + [(SYNC, 0), (CRESET, 0)]
            hi = 2 * (k + 1) + 2
            ts = sorted({t for t in range(hi - 2 * n - 5, hi + 3) if t >= 0})
            A = [(CSET, 0, t) for t in ts]
            sc.append(scen(n, A, 2, prefix=P, base=k, dt=2 if n in (2, 3) else 0))
            # from every cursor position
            for j in range(1, min(k, n) + 1):
                sc.append(scen(n, A, 1, prefix=P + [(CINC, 0)] * j, base=k + j))
            if k > n:
                sc.append(scen(n, A[::3] + [(CINC, 0), (CDEC, 0), (CNEXT, 0), (CPREV, 0)], 3, prefix=P, base=k))
    # the window has moved on, away from the cursor
    for n in (2, 3, 4, 5):
        for k in (n - 1, n, n + 1, 2 * n):
            P = [(NEWR, 0), (NEWW, 0)] + [pw] * k + [(SYNC, 0)]
            hi = 2 * (k + 1) + 2
            A = [(CSET, 0, t) for t in range(max(0, hi - 2 * n - 3), hi + 6)]
            for j in range(1, min(n, k)):
                sc.append(scen(n, A, 1, prefix=P + [(RPULL, 0)] * j, base=k + j))
                sc.append(scen(n, A, 1, prefix=P + [(CRESET, 0)] + [(RPULL, 0)] * j + [pw, (SYNC, 0)], base=k))
                sc.append(scen(n, A, 1, prefix=[(NEWW, 0)] + [pw] * k + [(BPULL, 0)] * j + [(NEWR, 0), (SYNC, 0)], base=k + j))
                sc.append(scen(n, A, 1, prefix=P + [(CRESET, 0)] + [(BPULL, 0)] * j + [pw, (SYNC, 0)], base=k))
            sc.append(scen(n, A[::3] + [pw, (SYNC, 0), (RPULL, 0)], 4, prefix=P, base=k))
    for n in (5, 31, 100, 300):
        P = [(NEWR, 0), (NEWW, 0)] + [pw] * (n + n // 3) + [(SYNC, 0), (CRESET, 0)]
        top = 2 * (len(P) + 4)
        A = [(CSET, 0, t) for t in range(max(0, top - 2 * n - 8), top + 4, 1 if n < 50 else 3)]
        A += [(CINC, 0), (CDEC, 0)] * (len(A) // 6 + 1)
        for k in range(4 if THOROUGH else 2):
            sc.append(scen(n, A, prefix=P, walk=(800, 1, S + n + k), obs=0, base=n + k))
    for i, n in enumerate(BIG):
        for lead in (0, n // 2, 2 * n + 3) if n <= 1000 or THOROUGH else (n // 2,):
            Q = [(NEWR, 0), (NEWW, 0), many(MWPUSH, 1 + lead), (SYNC, 0), many(MRPULL, n), many(MWPUSH, n - 2), (SYNC, 0), (CRESET, 0)]
            lo = 2 * (4 + (1 + lead)) + 2                          # about the time of the first event
            for t in (0, n, n - 2, 255, 256, 257, 100, n // 2, n // 2 + 1, 0, n // 3, n - 1, n + 9, 3):
                Q += [(CSET, 0, lo + 2 * t + t % 2)]
            sc.append(once(n, Q, base=i + lead))
    check_seq(c, 'T02', sc, judge=[CSET])


def weak(c, sizes, inv=(), props=(), broken=(), design='fixed'):
    """The lock-free protocol on machines that reorder stores and loads."""
    k = lambda w, np, n, r, so, lo: dict(W='{%s}' % ', '.join(map(str, range(1, w + 1))), NPUSH=np, N=n, READS=r, DESIGN='"%s"' % design, STORES='"%s"' % so, LOADS='"%s"' % lo)
    for x in sizes:
        c.model('WeakMemory', k(*x), inv, props, spec='MSpec', timeout=800)
    for x, i in broken:
        c.refuted('WeakMemory', k(*x), [i], spec='MSpec')


def leaving(c):
    """Writers that go away and come back while others push and a reader reads."""
    k = lambda w, np, n, lives, reads, leave: dict(W='{%s}' % ', '.join(map(str, range(1, w + 1))), NPUSH=np, N=n, READS=reads, DESIGN='"fixed"', LIVES=lives, LEAVE='"%s"' % leave)
    inv = ['Positions', 'Stored', 'Kept', 'NotDangling', 'Once', 'OwnOrder', 'Statuses', 'Whole', 'StampOrder', 'OneAtATime']
    for x in [(2, 1, 1, 2, 0), (1, 1, 2, 2, 2), (2, 1, 1, 1, 2)] + ([(2, 2, 1, 2, 0), (2, 1, 2, 2, 0), (3, 1, 1, 1, 0), (2, 1, 1, 3, 0)] if THOROUGH else []):
        c.model('Leaving', k(*x, 'fixed'), inv, spec='LSpec', timeout=800)
    c.model('Leaving', k(2, 1, 1, 1 if not THOROUGH else 2, 0, 'fixed'), [], ['AllLeave'], spec='LSpec')
    c.refuted('Leaving', k(2, 1, 1, 2, 0, 'stays'), ['NotDangling'], spec='LSpec')
    c.refuted('Leaving', k(2, 1, 1, 2, 0, 'nolock'), ['Positions'], spec='LSpec')
    c.refuted('Leaving', k(2, 1, 1, 2, 0, 'store'), ['Positions'], spec='LSpec')
    c.refuted('Leaving', k(2, 1, 1, 1, 2, 'blind'), ['Whole'], spec='LSpec')


@check('W04')
def w04(c):
    buffer_model(c, 1, ['WellFormed', 'NewestHeld'])
    leaving(c)
    sc = []
    for n in (1, 2, 3):
        A = [(NEWW, 0), (DELW, 0), (DELW, 1), (WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, FT), (BPULL, 0)]
        sc.append(scen(n, A, 6 if THOROUGH else 5, prefix=[(NEWW, 0)], base=n, dt=2 if n == 3 else 0))
        B = [(NEWW, 0), (DELW, 0), (DELW, 1), (DELW, 2), (WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, FT), (WPUSH, 2, FD)]
        sc.append(scen(n, B, 5 if THOROUGH else 4, prefix=[(NEWW, 0)] * 2 + [(WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, FT)] * 2, base=n))
        R = [(DELW, 0), (DELW, 1), (WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, FT), (SYNC, 0), (RPULL, 0)]
        sc.append(scen(n, R, 5 if THOROUGH else 4, prefix=[(NEWW, 0)] * 2 + [(NEWR, 0)] + [(WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, FT), (SYNC, 0)], base=n))
    for n in (2, 5, 31, 100):
        for k in range(4 if THOROUGH else 2):
            A = [(NEWW, 0)] * 3 + [(DELW, i) for i in range(12)] + [(WPUSHALL, i, FD, FT) for i in range(40)] + [(BLEN, 0)]
            A += [(SYNC, 0), (RPULL, 0)]
            sc.append(scen(n, A, prefix=[(NEWR, 0)] + [(NEWW, 0)] * 4, walk=(400, 1, S + n + k), obs=1 if n < 10 else 13, base=n + k))
    for i, n in enumerate(BIG):
        Q = [(NEWR, 0)] + [(NEWW, 0)] * 4
        for w, k in enumerate((n - 1, n + 2, n // 2, 2 * n)):
            Q += [many(MWPUSH, k, w), (DELW, w), (SYNC, 0), (BLEN, 0), (RPULL, 0)] + [(WPUSHALL, 3, FD, FT)] * (w < 3)
        sc.append(once(n, Q + [many(MPULL, n)], base=i))
    check_seq(c, 'W04', sc, judge=[WPUSH, WPUSHALL, BPULL, BLEN, RPULL, SYNC, MWPUSH, MPULL])
    # writers destroyed while others push, read and are destroyed
    P, D = (lambda w: (WPUSH, w)), (lambda w: (DELW, w))
    Y, U = (SYNC, 0), (RPULL, 0)
    q = []
    B = budget()
    for n in (1, 2, 3):
        two, three = [(NEWW, 0), (NEWW, 1)], [(NEWW, 0), (NEWW, 1), (NEWW, 2)]
        q.append(prog(n, [[P(0), D(0)], [P(1), D(1)]], **B))
        q.append(prog(n, [[P(0), P(0), D(0)], [P(1), P(1)]], init=two + [P(1)] * n, **B))
        q.append(prog(n, [[D(0)], [P(1), P(1)]], init=two + [P(1), P(0)] * n, **B))
        q.append(prog(n, [[D(0)], [D(1)], [P(2), P(2)]], init=three + [P(1), P(0)] * n, **B))
        q.append(prog(n, [[P(0), D(0)], [P(1), D(1)], [P(2), D(2)]], init=three + [P(2)] * n, **B))
        q.append(prog(n, [[P(0), D(0)], [P(1)], [Y, U, Y, U]], nr=1, init=two + [P(0)] * n + [Y], **B))
        q.append(prog(n, [[P(0), D(0)], [(BLEN, 0), (BSTATE, 0)] * 2, [P(1)]], init=two + [P(1)] * n, **B))
        q.append(prog(n, [[D(0), (NEWW, 0), P(0), D(0)], [P(1), P(1)]], init=two + [P(0)] * (n + 1), **B))
    check_conc(c, 'W04c', q, progress=True)


FAR = 10 ** 9  # ns ahead of the clock


def conc_writers(c, small=False):
    P, A = (lambda w: (WPUSH, w)), (lambda w, t=0: (WPUSHALL, w, t) if t else (WPUSHALL, w))
    q = []
    B = budget()
    for n in (1, 2, 3):
        q.append(prog(n, [[P(0)] * 2, [P(1)] * 2], **B))
        q.append(prog(n, [[P(0)] * (n + 2), [P(1)]], **B))
        q.append(prog(n, [[P(0)] * 2, [P(1)], [P(2)] * 2], **B))
        q.append(prog(n, [[P(0)] * (n + 2), [P(1)] * (n + 2)], init=[(NEWW, 0), (NEWW, 1)] + [P(0), P(1)] * n, **B))
        q.append(prog(n, [[A(0), P(0)], [A(1)], [P(2), P(2)]], payload=0, init=[(NEWW, i) for i in range(3)] + [P(2)] * (n + 1), **B))
        q.append(prog(n, [[P(0), P(2)], [P(1), P(3)]], **B))
        q.append(prog(n, [[P(0)], [P(1)], [P(2)], [P(3)]], **B))
        # times far ahead of the clock
        q.append(prog(n, [[A(0, FAR), P(0)], [P(1)] * 2], **B))
        # events that are equal to what the slots hold already
        q.append(prog(n, [[A(0, 5)] * 2, [A(1, 5)] * (n + 2)], payload=0, **B))
        q.append(prog(n, [[A(0), A(0)], [A(1)], [P(2)], [P(3)]], payload=0, **B))
        # writers that come and go
        q.append(prog(n, [[P(0), (DELW, 0)], [P(1)] * 2], **B))
        # a writer suspended while another one goes round many times
        for k in (256,) if not THOROUGH else (16, 64, 128, 256, 512, 1024):
            q.append(prog(n, [[P(0)], [P(1)] * k], init=[(NEWW, 0), (NEWW, 1), P(1)], bound=-1, rand=0, steps=100000))
        for k in (65536,):
            q.append(prog(n, [[P(0)], [(WBULK, 1, k)]], payload=0, init=[(NEWW, 0), (NEWW, 1), A(1, 5)], bound=-1, rand=0, steps=10000000))
    for n in (4, 7):
        q.append(prog(n, [[P(0)] * 2, [P(1)] * (n + 3)], init=[(NEWW, 0), (NEWW, 1)] + [P(0), P(1)] * (n // 2 + 1), **B))
        q.append(prog(n, [[P(0)], [P(1)] * 2, [P(2)] * 3], init=[(NEWW, i) for i in range(3)] + [P(i % 3) for i in range(n)], **B))
    return q


@check('W02')
def w02(c):
    lockfree(c, [(2, 2, 1), (3, 1, 1)] + ([(2, 5, 2), (3, 2, 1)] if THOROUGH else []),
             ['Positions', 'Stored', 'Contents', 'Once', 'OwnOrder', 'Statuses'],
             broken=[('original', 'Contents'), ('nocounter', 'Contents'), ('nowait', 'Contents'), ('onestate', 'Positions')])
    weak(c, [(2, 2, 1, 0, 'tso', 'tso'), (2, 1, 2, 0, 'tso', 'tso'), (3, 1, 1, 0, 'tso', 'tso')]
         + ([(2, 3, 1, 0, 'tso', 'tso'), (2, 2, 1, 0, 'release', 'tso'), (2, 2, 2, 0, 'release', 'tso')] if THOROUGH else []),
         ['Positions', 'Stored', 'MContents', 'Once', 'OwnOrder', 'Statuses', 'StampOrder'], broken=[((2, 2, 1, 0, 'loose', 'tso'), 'Positions')])
    forever(c, [(2, 1, 0), (2, 2, 0), (2, 3, 0)] + ([(3, 1, 0), (2, 5, 0)] if THOROUGH else []), ['Positions', 'Stored', 'Settled', 'LastOnce', 'LastOrder', 'LastStatus'])
    check_conc(c, 'W02', conc_writers(c), judge=[WPUSH, WPUSHALL])


@check('W03')
def w03(c):
    lockfree(c, [(2, 3, 1), (3, 1, 1)] + ([(2, 4, 2), (3, 2, 1)] if THOROUGH else []), ['NoWedge'], ['Finishes'], broken=[('original', 'Finishes')])
    weak(c, [(2, 1, 1, 0, 'tso', 'tso')] + ([(2, 2, 1, 0, 'tso', 'tso')] if THOROUGH else []), props=['MFinishes'])
    forever(c, [(2, 1, 0), (2, 2, 0)] + ([(3, 1, 0)] if THOROUGH else []), ['Owned'])
    check_conc(c, 'W03', conc_writers(c), progress=True, order=False)


def conc_readers(c):
    P = lambda w: (WPUSH, w)
    G, L, Y, U, Q = (RGAP, 0), (RLEN, 0), (SYNC, 0), (RPULL, 0), (RPOP, 0)
    q = []
    B = budget()
    for n in (1, 2, 3):
        q.append(prog(n, [[P(0)] * (n + 2), [Y, U, U, Y, U, U]], nr=1, **B))
        q.append(prog(n, [[P(0)] * (n + 1), [P(1)] * 2, [Y, U, Y, U, U]], nr=1, **B))
        q.append(prog(n, [[P(0)] * (n + 3), [Y, U, G, Y, U, G]], nr=1, init=[(NEWW, 0), P(0)], **B))
        q.append(prog(n, [[P(0)] * (n + 3), [U, G, U, Y, U, L]], nr=1, init=[(NEWW, 0)] + [P(0)] * (n + 1) + [Y], **B))
        q.append(prog(n, [[P(0)] * 2, [P(1)] * (n + 1), [U, Y, U, Y, U]], nr=1, init=[(NEWW, 0), (NEWW, 1)] + [P(0)] * n + [Y, U], **B))
        q.append(prog(n, [[P(0)] * 3, [Y, U, Y, U], [(SYNC, 1), (RPULL, 1), (SYNC, 1), (RPULL, 1)]], nr=2,
                      init=[(NEWW, 0), P(0), Y, (SYNC, 1)], **B))
        # the reader in step, and a writer going round while it pulls
        q.append(prog(n, [[P(0)] * (2 * n + 3), [Y, U, U, U]], nr=1, init=[(NEWW, 0)] + [P(0)] * n, **B))
        q.append(prog(n, [[P(0)] * 2, [Y] * 4], nr=1, init=[(NEWW, 0)], **B))
        q.append(prog(n, [[P(0)], [P(1)], [Y, Y, Y, U]], nr=1, init=[(NEWW, 0), (NEWW, 1)], **B))
        # positions and length of the buffer
        q.append(prog(n, [[P(0)] * 2, [P(1)] * 2, [(BLEN, 0), (BSTATE, 0)] * 2], nr=1, init=[(NEWW, 0), (NEWW, 1)] + [P(0)] * n, **B))
    return q


@check('R04')
def r04(c):
    lockfree(c, [(1, 4, 1, 3)] + ([(2, 2, 1, 3), (2, 2, 2, 4), (1, 6, 3, 4), (1, 8, 2, 5)] if THOROUGH else []), ['Whole'],
             broken=[('norecheck', 'Whole'), ('slottime', 'Whole')], reads=4)
    weak(c, [(1, 3, 1, 2, 'tso', 'tso'), (1, 4, 1, 3, 'tso', 'tso'), (2, 1, 1, 2, 'tso', 'tso')]
         + ([(1, 4, 2, 3, 'tso', 'tso'), (1, 6, 1, 4, 'tso', 'tso'), (1, 3, 1, 2, 'release', 'fenced'), (2, 1, 1, 2, 'release', 'fenced')] if THOROUGH else []),
         ['Positions', 'Whole'], broken=[((1, 2, 1, 2, 'any', 'fenced'), 'Whole')] + ([((1, 3, 1, 2, 'release', 'free'), 'Whole')] if THOROUGH else []))
    forever(c, [(1, 1, 1), (1, 2, 1), (1, 3, 1)] + ([(2, 1, 1), (1, 5, 1)] if THOROUGH else []), ['Whole', 'Positions'])
    check_conc(c, 'R04', conc_readers(c), judge=[SYNC, RPULL, RGAP, RLEN, BLEN, BSTATE])


@check('L01')
def l01(c):
    es, lines = l01_lines(THOROUGH)
    check_table(c, 'L01', lines, es)


@check('E01')
def e01(c):
    check_table(c, 'E01', e01_lines(THOROUGH))


@check('E02')
def e02(c):
    check_table(c, 'E02', e02_lines(THOROUGH))


def leafs():
    return [P1, N(P1), P2, OR(P1, P2), TR]


def windows(rng, quick, thorough):
    """Small windows exhaustively (a sample of them in the quick tier), longer ones at random."""
    n = thorough if THOROUGH else quick
    out = [w for k in (1, 2) for w in exhaustive(k, (1, 2, 3), (1, 2, 3))]
    three = list(exhaustive(3, (1, 2, 3), (1, 2, 3)))
    four = list(exhaustive(4, (1, 2), (1, 2, 3)))
    out += pick(rng, three, n // 3) + pick(rng, four, n // 3)
    while len(out) < n:
        out.append(randwin(rng, rng.randint(4, 7), (1, 1, 2, 3), (1, 1, 2, 3, 5)))
    return out


def spread(rng, cs, ws, at, long=0, cfgs='abf'):
    """Each window in one configuration and placement."""
    for k, w in enumerate(ws):
        cf = cfgs[k % len(cfgs)]
        if k % 9 == 8 and len(w) == 5:
            cs.add([('c', 2 + k % 2, 1 + k % 13)], w, at(w))
        else:
            cs.add([(cf, k % 2, rng.randrange(0, 20))], w, at(w))
    for k in range(long):
        n = rng.choice((12, 20, 40, 63))
        w = randwin(rng, n, (1, 1, 1, 2, 3), (1, 2, 3, 7), rng.choice((0, .5, .9)))
        cs.add([('de'[k % 2], k % 2, rng.randrange(0, 90))], w, pick(rng, at(w), 12))


@check('L02')
def l02(c):
    rng = random.Random(S + 2)
    formula_model(c, [P1], 'L02')
    fs = [P1, P2, P3, ('prop', 0), N(P1), AND(P1, N(P2))]
    cs = Cases(fs)
    def at(w):
        if not w:
            return [(0, 0), (0, 3)]
        hi = w[-1][1] + 3
        return [(i + 1, t) for i in range(len(w)) for t in range(0, hi)]
    spread(rng, cs, [[]] * 6 + windows(rng, 700, 3000), at, 40 if not THOROUGH else 200)
    check_formulas(c, 'L02', cs, 'value')


def far_windows(rng, n):
    """Long windows in which nothing happens for a long time: what decides is far from where the evaluation begins."""
    for k in range(n):
        m = rng.choice((70, 130, 250, 257, 258, 290, 299))
        p, q = rng.choice(((1, 2), (1, 3), (3, 2), (2, 1), (1, 1)))
        at = rng.choice((0, 3, m // 2, m - 3, m - 1, 255, 256, 60))
        t, w = 2, []
        for i in range(m):
            w.append((q if i == at else p, t))
            t += rng.choice((1, 1, 2))
        yield w


def form_check(c, name, fs, nq, nt, mc=True, long=24, far=()):
    rng = random.Random(S * 101 + int(name[1:]))
    if mc:
        formula_model(c, fs[:6], name)
    cs = Cases(list(fs) + list(far))
    for k, w in enumerate(far_windows(rng, 0 if not far else 90 if THOROUGH else 18)):
        i = [(j + 1, w[j][1] + d) for j in (0, 1, len(w) // 2, len(w) - 2, len(w) - 1) for d in (0, 1)]
        i = [(j, t) for j, t in i if j == len(w) or t < w[j][1]]
        cs.add([('e', k % 2, rng.choice((0, 2, 150, 299)))], w, pick(rng, i, 6), forms=range(len(fs) + 1, len(fs) + len(far) + 1))
    empty = [i + 1 for i, f in enumerate(fs) if not has(f, ('true',))]
    for k in range(6):
        cs.add([('abf'[k % 3], k % 2, k * 3)], [], [(0, 3)], forms=empty)
    spread(rng, cs, windows(rng, nq, nt), inforce, long * (5 if THOROUGH else 1))
    if far:                                # (only the long windows are evaluated with these)
        for k, L in cs.lines.items():
            for x in range(0, len(L), 2):
                if L[x] == 'F %d %s' % (len(cs.fs), ' '.join(map(str, range(1, len(cs.fs) + 1)))):
                    L[x] = 'F %d %s' % (len(fs), ' '.join(map(str, range(1, len(fs) + 1))))
    check_formulas(c, name, cs, 'value')


def formula_model(c, fs, name=None):
    """TLC on the specification: the operators against their declarative definitions, L07 and L08 for a few formulas."""
    fs = [f for f in fs if not has(f, ('untilb',))]
    with open(os.path.join(c.work, 'Forms.tla'), 'w') as f:
        f.write('---- MODULE Forms ----\nFORMS == <<\n%s\n>>\n====\n' % ',\n'.join(tla(x) for x in fs))
    inv = dict(L02=['PropDef'], L03=['UntilDef'], L04=['AlwaysDef', 'Unbounded'], L05=['SinceDef'], L06=['DurDef']).get(
        name, ['PropDef', 'Unbounded', 'Invariance'])
    c.model('MCRmtld3', dict(MAXLEN=5 if THOROUGH else 4, PROPS='{1, 2}', GAPS='{1, 2, 3}' if THOROUGH else '{1, 3}',
                             BOUNDS='{1, 2, 3, 4, 6}' if THOROUGH else '{1, 2, 4}'),
            inv, ['Monotone'] if name in ('L07', None) else [])


@check('L03')
def l03(c):
    A = [U(b, f, g) for b in (1, 2, 4) for f, g in ((P1, P2), (TR, P2), (N(P2), P1), (N(P1), N(P2)), (OR(P1, P2), P3))]
    A += [U(7, P1, P2), U(9, TR, N(P1))]
    A += [U(3, P1, U(2, N(P1), P2)), U(3, U(2, TR, P2), P3), N(U(4, TR, U(4, TR, N(P1)))), U(5, N(U(2, TR, P3)), P2)]
    A += [UB(b, f, g) for b in (1, 3, 5) for f, g in ((P1, P2), (TR, N(P1)), (N(P2), U(2, P1, P2)))]
    A += [UB(4, U(2, TR, P1), U(1, TR, P2)), UB(3, N(U(3, TR, P2)), P3), UB(6, TR, U(3, P2, P1)), UB(5, TR, UB(3, N(P1), P2))]
    form_check(c, 'L03', A, 800, 4000, far=[U(90, P1, P2), U(300, P1, P2), U(2000, P1, N(P1)), U(2000, N(P2), P2), U(260, TR, P3)])


@check('L04')
def l04(c):
    A = [ALW(b, f) for b in (1, 2, 4, 8) for f in (P1, N(P1), OR(P1, P2))]
    A += [EVEQ(b, f) for b in (0, 1, 2, 4) for f in (P1, N(P2))] + [ALWEQ(b, f) for b in (0, 3, 5) for f in (P1, OR(P1, P2))]
    A += [EVUN(f) for f in (P1, N(P1), AND(P1, P2), P3)]
    A += [ALW(3, ALW(2, P1)), ALW(3, EVEQ(2, P1)), EVEQ(3, ALW(2, P1)), EVUN(ALW(2, P2)), EVUN(EVEQ(1, P2)), ALW(4, EVUN(P2)),
          EVEQ(2, EVEQ(1, P1)), ALW(2, OR(N(P1), U(3, TR, P2))), ALWEQ(1, EVUN(P1)), N(ALW(3, N(P1)))]
    # operands that are known at the newest event already
    A += [EVEQ(2, SI(3, TR, P1)), EVEQ(3, TR), ALWEQ(2, PEQ(1, P1)), EVUN(SI(2, P1, P2)), EVUN(PEQ(1, P1)), ALW(3, HI(2, P1)), EVUN(N(TR))]
    form_check(c, 'L04', A, 800, 4000, far=[ALW(90, P1), ALW(300, P1), ALW(2000, OR(P1, P3)), EVEQ(100, P2), EVEQ(280, P1), ALWEQ(350, N(P3)), EVUN(P2), EVUN(N(P1))])


@check('L05')
def l05(c):
    A = [SI(b, f, g) for b in (1, 2, 4) for f, g in ((P1, P2), (TR, P2), (N(P2), P1), (OR(P1, P2), P3))]
    A += [HI(b, f) for b in (1, 2, 5) for f in (P1, N(P1), OR(P1, P2))]
    A += [PEQ(b, f) for b in (0, 1, 2, 4) for f in (P1, N(P2))] + [HEQ(b, f) for b in (1, 3, 5) for f in (P1, OR(P1, P2))]
    A += [SI(9, P1, P2), HI(12, P1), HI(3, SI(2, P1, P2)), SI(3, SI(2, TR, P1), P2), PEQ(2, HI(2, P1)), HI(2, PEQ(2, P1)),
          U(3, P1, SI(2, P1, P2)), SI(3, N(P3), U(2, TR, P1)), ALW(2, PEQ(1, P1)), PEQ(1, PEQ(1, P1))]
    form_check(c, 'L05', A, 800, 4000, far=[SI(90, P1, P2), SI(300, P1, P2), SI(2000, P1, N(P1)), HI(260, P1), HI(2000, OR(P1, P3)), PEQ(100, P2), PEQ(280, P1), HEQ(350, N(P3))])


@check('L06')
def l06(c):
    A = [DUR(b, f) for b in (0, 1, 2, 3, 5, 9) for f in (P1, N(P1), OR(P1, P2))]
    A += [DUR(b, TR) for b in (1, 4)] + [DUR(b, U(2, P1, P2)) for b in (2, 4)] + [DUR(3, ALW(2, P1)), DUR(4, N(EVEQ(1, P1)))]
    A += [DLT(3, P1, 2), DGT(3, P1, 1), D2(3, P1, 3, P2), DUR(4, DLT(2, P1, 2)), ALW(3, DLT(2, P1, 2)), U(3, P1, DGT(2, P2, 0)),
          DUR(3, SI(2, P1, P2))]
    form_check(c, 'L06', A, 700, 3500, far=[DUR(90, P1), DUR(300, P1), DUR(2000, P1), DUR(257, N(P1)), DLT(300, P1, 299), DGT(2000, P2, 0)])


def mixed(rng, n, depth=3, between=True, past=True):
    """Random nestings of all the operators."""
    def mk(d):
        if d == 0 or rng.random() < .15:
            return rng.choice([P1, P2, P1, N(P1), P3])
        b = rng.choice((1, 2, 3, 4))
        k = rng.randrange(17)
        m = lambda: mk(d - 1)
        if k in (12, 13, 14, 15) and not past:
            k = rng.randrange(12)
        return (lambda: U(b, m(), m()), lambda: U(b, TR, m()), lambda: UB(b, m(), m()) if between else U(b, m(), m()),
                lambda: ALW(b, m()), lambda: EVEQ(b, m()), lambda: ALWEQ(b, m()), lambda: EVUN(m()), lambda: AND(m(), m()),
                lambda: OR(m(), m()), lambda: N(m()), lambda: DLT(b, m(), rng.randint(1, b)), lambda: DGT(b, m(), rng.randint(0, b - 1)),
                lambda: SI(b, m(), m()), lambda: HI(b, m()), lambda: PEQ(b, m()), lambda: HEQ(b, m()),
                lambda: D2(b, m(), b, m()))[k]()
    out = []
    while len(out) < n:
        f = mk(depth)
        if f[0] == 'prop' or f in out or len(text(f)) > 220:
            continue
        out.append(f)
    return out


BASIC = [P1, U(2, P1, P2), U(4, TR, P1), ALW(2, P1), ALW(4, OR(P1, P2)), EVEQ(2, P1), ALWEQ(3, N(P1)), EVUN(P2), EVUN(N(P2)), EVEQ(2, SI(3, TR, P1)),
         EVUN(PEQ(1, P1)), EVUN(SI(2, P1, P2)), SI(3, P1, P2), SI(2, N(P2), P1), HI(2, P1), PEQ(2, P1), HEQ(3, N(P2)), DUR(3, P1), DUR(2, N(P1)),
         DLT(3, P1, 2), D2(4, P1, 4, P2), N(U(3, TR, N(P1)))]


@check('L07')
def l07(c):
    rng = random.Random(S * 7 + 7)
    fs = BASIC + [UB(3, P1, P2), UB(4, TR, N(P1))] + mixed(rng, 40 if THOROUGH else 20, 3, between=False)
    formula_model(c, BASIC + mixed(rng, 10, 2, between=False), 'L07')
    cs = Cases(fs)
    n = 1500 if THOROUGH else 240
    future = [i + 1 for i, f in enumerate(fs) if not has(f, ('since', 'hist', 'peq', 'heq'))]
    for k in range(n):
        m = rng.randint(3, 7)
        w = randwin(rng, m, (1, 1, 2, 3) if k % 2 else (1, 2), (1, 1, 2, 3) if k % 3 else (1, 4), rng.choice((0, .5)))
        cs.add([('abf'[k % 3], k % 2, rng.randrange(0, 20))], w, pick(rng, inforce(w, 1), 14), grow=1)
    # oldest events are discarded while the trace grows
    for k in range(n // 3):
        w = randwin(rng, rng.randint(7, 12), (1, 1, 2, 3), (1, 2, 3))
        cs.add([('c', k % 2, rng.randrange(0, 9))], w, pick(rng, inforce(w, 1), 14), grow=1, forms=future)
    for k in range(6):
        w = randwin(rng, 25, (1, 1, 1, 2), (1, 2, 5), .7)
        cs.add([('de'[k % 2], k % 2, k * 31)], w, pick(rng, inforce(w, 1), 8), grow=1)
    check_formulas(c, 'L07', cs, 'grow')
    # in-between instants are placed by the distances of later events (see KNOWN_FINDINGS)
    cs = Cases([UB(4, TR, U(2, TR, P1))])
    cs.add(['a'], [(2, 2), (2, 4), (1, 6), (1, 7)], [(1, 2)], grow=1)
    known_or_raise(c, 'in-between-until', lambda: check_formulas(c, 'L07known', cs, 'grow'))


@check('L08')
def l08(c):
    rng = random.Random(S * 5 + 3)
    fs = BASIC + [UB(3, P1, P2), UB(4, TR, U(2, P1, P2)), UB(5, N(P2), ALW(2, P1))] + mixed(rng, 30 if THOROUGH else 20, 3)
    formula_model(c, BASIC + mixed(rng, 10, 2))
    cs = Cases(fs)
    n = 500 if THOROUGH else 200
    for k in range(n):
        w = randwin(rng, rng.randint(1, 5), (1, 1, 2, 3), (1, 1, 2, 3, 5))
        where = [('a', 0, 0), ('g', k % 2, 0), ('a', 1, rng.randrange(1, 9)), ('b', 0, rng.randrange(0, 9)), ('f', k % 2, rng.randrange(0, 9)), ('d', 0, 63 - rng.randrange(0, 9))]
        if len(w) == 5:
            where += [('c', 2, rng.randrange(1, 9)), ('c', 1, rng.randrange(1, 9))]
        cs.add(where, w, pick(rng, inforce(w), 10))
    for k in range(20 if THOROUGH else 6):
        w = randwin(rng, 40, (1, 1, 1, 2), (1, 2, 5), .7)
        cs.add([('d', 0, 0), ('d', 1, 40), ('e', 0, 280)], w, pick(rng, inforce(w), 8))
    check_formulas(c, 'L08', cs, 'pure')


# ---- monitors --------------------------------------------------------------------
MON_LAT = 10000  # us a thread may take to notice that it is enabled


def monitor_model(c, inv, props=(), broken=None):
    k = dict(CTRL='{"a", "b"}', OPS='{"enable", "disable"}', PERIOD=2, MAXT=8 if THOROUGH else 6, DUR='{0, 1, 3}' if THOROUGH else '{0, 3}',
             SPUR=2 if THOROUGH else 1, LATE=1, MEM='{"ACTIVATE", "UNACTIVATE", "RUNNING", "ABORT"}')
    # histories of any length; those that never end, for the properties of progress
    c.model('Monitor', dict(k, FIXED='TRUE', ENDLESS='TRUE'), ['TypeOK'] + list(inv), props if THOROUGH else [], timeout=800)
    if THOROUGH:
        c.model('Monitor', dict(k, FIXED='TRUE', ENDLESS='FALSE'), ['TypeOK'] + list(inv), props, timeout=800)
    elif props:
        c.model('Monitor', dict(k, CTRL='{"a"}', FIXED='TRUE', ENDLESS='TRUE'), ['TypeOK'], props)
        c.model('Monitor', dict(k, MAXT=4, DUR='{3}', FIXED='TRUE', ENDLESS='FALSE'), ['TypeOK'], props)
    k['ENDLESS'] = 'FALSE'
    if broken:
        c.refuted('Monitor', dict(k, FIXED='FALSE'), [broken] if broken in inv else [], [broken] if broken in props else [])


@check('M01')
def m01(c):
    monitor_model(c, ['NotEarly'], ['Begins'], 'NotEarly')
    monitor.check_monitor(c, 'M01', monitor.m01(THOROUGH), ['M01'], MON_LAT)


@check('M02')
def m02(c):
    monitor_model(c, ['Grid', 'NeverBefore'])
    monitor.check_monitor(c, 'M02', monitor.m02(THOROUGH), ['M02'], MON_LAT)


@check('M03')
def m03(c):
    monitor_model(c, ['Stops'], ['Terminates', 'TrapEnds'], 'TrapEnds')
    monitor.check_monitor(c, 'M03', monitor.m03(THOROUGH), ['M03'], MON_LAT)


@check('M04')
def m04(c):
    monitor_model(c, ['ReportsRunning', 'ReportsStopped'], (), 'ReportsRunning')
    monitor.check_monitor(c, 'M04', monitor.m04(THOROUGH), ['M04'], MON_LAT)


@check('M05')
def m05(c):
    monitor_model(c, ['StillThere', 'Grid', 'NeverBefore'], (), 'StillThere')
    monitor.check_monitor(c, 'M05', monitor.m05(THOROUGH), ['M05'], MON_LAT)


@check('M06')
def m06(c):
    k = lambda d: dict(DESIGN='"%s"' % d)
    c.model('Threads', k('code'), ['TypeOK', 'AsDeclared', 'Joinable', 'NeverRefused'], ['Made'])
    c.model('Threads', k('explicit'), ['AsDeclared', 'Joinable', 'NeverRefused', 'Effective'], ['Made'])
    for d, i in (('paramfirst', 'NeverRefused'), ('detached', 'Joinable'), ('code', 'Effective')):
        c.refuted('Threads', k(d), [i])
    hist = monitor.check_monitor(c, 'M06', monitor.m06(THOROUGH), ['M06', 'M03'], MON_LAT)
    def effective():
        bad = [h for h in hist if h['v'] and any(e[0] == 18 and not e[2] % 10 for e in h['ev'])]
        if bad:
            raise Violation('M06: the thread is told to take its scheduling from its creator', '\n'.join(monitor.story(bad[0])), [])
    known_or_raise(c, 'inherited-scheduling', effective)


# ---- end to end --------------------------------------------------------------------
def scaled(f, k):
    return tuple(scaled(x, k) if isinstance(x, tuple) else x * k if isinstance(x, int) and (f[0] != 'prop') else x for x in f)


@check('X01')
def x01(c):
    rng = random.Random(S * 31 + 7)
    base = [f for f in BASIC if not has(f, ('untilb', 'dur'))] + [f for f in mixed(rng, 64, 2, between=False) if not has(f, ('dur',))]
    fs = [scaled(f, 50000) for f in base]
    # the composition: verdicts stay, also when old events are discarded (formulas that do not look back)
    future = [f for f in base if not has(f, ('since', 'hist', 'peq', 'heq'))]
    for cap, sel in ((3, future[:8]), (9, base[:14])) if not THOROUGH else ((3, future), (9, base)):
        for k in range(0, len(sel), 2):
            with open(os.path.join(c.work, 'Forms.tla'), 'w') as f:
                f.write('---- MODULE Forms ----\nFORMS == <<\n%s\n>>\n====\n' % ',\n'.join(tla(x) for x in sel[k:k + 2]))
            c.model('EndToEnd', dict(CAP=cap, MAXLEN=6 if THOROUGH else 5, PROPS='{1, 2}', GAPS='{1, 2}', TZ=2), ['TypeOK', 'Right'], ['Stay'])
    us = 1000
    groups = {}
    n, ex, rd = (1600, 60, 40) if THOROUGH else (240, 8, 5)

    def one(cap, nw, npush, gaps, tz, coincide, nm, seed, bound=1):
        r = random.Random(seed)
        mons = [(r.randint(1, len(fs)), r.choice((50, 100, 150, 300)), r.choice(tz) * us) for _ in range(nm)]
        ws = []
        for k in range(nw):
            w = [('s', (30 if not coincide else 100) * us + (k * 7 * us if not coincide else 0))]
            for _ in range(npush):
                w += [('p', r.choice((1, 1, 2, 2, 3))), ('s', r.choice(gaps) * us)]
            ws.append(w)
        total = (max(gaps) * npush + 600) * us
        ctrl = [('c', m) for m in range(nm)] + [('w', k) for k in range(nw)]
        for m in range(nm):
            ctrl += [('e', m)]
            if r.random() < .4:
                ctrl += [('s', r.choice((0, 100, 350)) * us)]
        ctrl += [('s', total)] + [('d', m) for m in range(nm)] + [('j', m) for m in range(nm)]
        return e2e.script(mons, ctrl, ws, bound=bound, maxexec=ex, rand=rd, seed=seed)

    a, b, d = [], [], []
    for k in range(n):
        a.append(one(16, 1, rng.randint(4, 12), (100, 100, 200, 300), (120, 130, 330, 250), False, rng.randint(1, 3), S * 1000 + k, 0))
        b.append(one(24, rng.randint(2, 3), rng.randint(2, 6), (50, 100, 150), (100, 120, 220), True, rng.randint(1, 3), S * 2000 + k, 2))
        d.append(one(5, 1, rng.randint(8, 20), (100, 100, 200), (130, 430, 750), False, rng.randint(1, 3), S * 3000 + k, 0))
    e2e.check_e2e(c, 'X01', fs, {(16, 'int'): a, (24, 'unsigned char'): b, (5, 'unsigned int'): d})


# ---- diagnosis ----------------------------------------------------------------------
SAN = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-DWATCH', '-DSMALL']
DIAG = dict(_d0=SAN, _d1=SAN + ['-DRTMLIB_DEBUG=1'], _d3=SAN + ['-DRTMLIB_DEBUG=3'],
            _dv=SAN + ['-DRTMLIB_DEBUG=3', '-DRTMLIB_ENABLE_DEBUGV_RMTLD3', '-DRTMLIB_ENABLE_DEBUG_RMTLD3'])
DIAGF = dict(DIAG, _dw=SAN + ['-DRTMLIB_ENABLE_DEBUGV_RMTLD3'])   # formulas tell what they do, the rest does not


def d01_scenarios(b=lambda k: k):
    sc, pw = [], (WPUSHALL, 0, FD, FT)
    for n in (1, 2, 3):
        sc.append(scen(n, [push(), (BPULL, 0), (BPOP, 0), (BDEBUG, 0)], 6 if THOROUGH else 5, base=b(n)))
        sc.append(scen(n, [push(), (BPULL, 0), (BDEBUG, 0), (EDEBUG, 0, 0), (BREAD, 0, n + 1), (BWRITE, 0, n + 1, FD, FT), (BREAD, 0, n)], 3, prefix=[push()] * (n + 2), base=b(n)))
        P = [(NEWR, 0), (NEWW, 0), (NEWR, 0)]
        sc.append(scen(n, [pw, (SYNC, 0), (RPULL, 0), (RPOP, 0), (RDEBUG, 0), (BDEBUG, 0), (RGAP, 0)], 4, prefix=P, base=b(n)))
        sc.append(scen(n, [(WPUSH, 0, FD), (SYNC, 0), (RPULL, 0), (RDEBUG, 0), (BLEN, 0), (DELW, 0)], 4, prefix=P, base=b(n)))
        for k in (0, 1, n, 2 * n + 1):
            pre = P[:2] + [pw] * k + [(SYNC, 0), (CRESET, 0)]
            cur = [(CINC, 0), (CDEC, 0), (CPULL, 0), (CPREV, 0), (CDEBUG, 0), (CSETCUR, 0, n + 1), (CSET, 0, 2 * k + 5)]
            sc.append(scen(n, cur, 4 if THOROUGH else 3, prefix=pre, base=b(k)))
        sc.append(scen(n, [pw, (ASSIGN, 1, 0), (ASSIGN, 0, 1), (BDEBUG, 0), (BDEBUG, 1), push(1)], 4, nb=2, prefix=[(NEWW, 0)] + [pw] * n, base=b(n)))
    for n in (2, 5, 31, 300):
        A = [pw] * 6 + [(WPUSH, 1, FD), (SYNC, 0), (SYNC, 1), (RPULL, 0), (RPULL, 1), (RPOP, 1), (RGAP, 1), (RLEN, 0), (CRESET, 0), (CINC, 0), (CINC, 0), (CDEC, 0), (CPULL, 0), (CREAD, 0)]
        A += [(CSET, 0, 40), (BDEBUG, 0), (RDEBUG, 0), (CDEBUG, 0), (CDEBUG, 1), (EDEBUG, 0, 1), (BREAD, 0, 0), (BREAD, 0, -1), (BWRITE, 0, 2 * n, FD, FT), (BSTATE4, 0)]
        sc.append(scen(n, A, prefix=[(NEWR, 0), (NEWW, 0), (NEWR, 0), (NEWW, 0)], walk=(2 * n + 300, 4 if THOROUGH else 2, S + n), obs=1 if n < 10 else 29, base=b(n)))
    return sc + seeks((1, 2, 3, 5, 31), [(CDEBUG, 0)], b=b)


@check('D01')
def d01(c):
    k = lambda d: dict(CAP=2, MAXPUSH=7 if THOROUGH else 6, FIXED='TRUE', DESIGN='"%s"' % d)
    c.model('Diagnosis', k('code'), ['BufferWell', 'PullsRight', 'Told', 'PopsRight', 'Within'], ['Silent', 'Passive'], spec='DSpec')
    for d, i in (('overread', 'Within'), ('consume', 'Passive')):
        c.refuted('Diagnosis', k(d), ['Within'] if d == 'overread' else [], ['Passive'] if d == 'consume' else [], spec='DSpec')
    # buffers, writers, readers and cursors: with and without diagnosis, which may be asked for at any point
    sc = d01_scenarios()
    plain = ['-DNO_DEBUG_CALLS', '-DSMALL']
    with cfut.ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda x: compile_cxx(c.work, 'seq_driver' + x[0], os.path.join(HARN, 'seq_driver.cpp'), x[1], opt='-O0'), list(DIAG.items()) + [('_plain', plain)]))
    ref = record(c, 'D01', sc, '_plain', plain)[1]
    for b in DIAG:
        check_seq(c, 'D01', sc, DIAG[b], build=b, ref=ref)
    # and on the other targets
    arm = [(0, 1), (4000000000, 1), (1000, 1000)]
    told = {x: PORTS[x] + ['-DRTMLIB_DEBUG=3', '-DRTMLIB_ENABLE_DEBUGV_RMTLD3', '-DRTMLIB_ENABLE_DEBUG_RMTLD3'] for x in ('_rvnuttx', '_rvrtems', '_armfree')}
    for x, fl in told.items():
        sp = d01_scenarios((lambda k: arm[k % 3]) if 'arm' in x else (lambda k: k))
        rp = record(c, 'D01', sp, x + '_plain', PORTS[x] + ['-DNO_DEBUG_CALLS'])[1]
        check_seq(c, 'D01', sp, fl, build=x, ref=rp)
    # formulas
    rng = random.Random(S * 13 + 1)
    fs = BASIC + [UB(3, P1, P2), UB(4, TR, U(2, P1, P2))] + mixed(rng, 20 if THOROUGH else 8, 2)
    cfs = {k + b: CONFIGS[k] + tuple(DIAGF.get(b, [])) for k in 'ac' for b in ('', '_dw', '_d3', '_dv')}
    cs = Cases(fs)
    for k in range(200 if THOROUGH else 40):
        w = randwin(rng, rng.randint(1, 5), (1, 1, 2, 3), (1, 1, 2, 3, 5))
        h, r = k % 2, rng.randrange(0, 13)
        cs.add([(('c' if k % 3 == 2 else 'a') + b, h, r) for b in ('', '_dw', '_d3', '_dv')], w, pick(rng, inforce(w), 6))
    check_formulas(c, 'D01', cs, 'pure', cfs)
    where = dict(r=(8, 1000000000, 'int', 1600000000000000000), p=(8, 10, 'int', 0))
    ports = dict(r=PORTS['_rvnuttx'], p=PORTS['_armfree'])
    cfs = {k + b: where[k] + tuple(ports[k] + (told['_rvnuttx'][-3:] if b else [])) for k in 'rp' for b in ('', '_dv')}
    cs = Cases(fs)
    for k in range(100 if THOROUGH else 30):
        w = randwin(rng, rng.randint(1, 5), (1, 1, 2, 3), (1, 1, 2, 3, 5))
        h, r = k % 2, rng.randrange(0, 13)
        cs.add([(x, h, r) for x in cfs], w, pick(rng, inforce(w), 6))
    check_formulas(c, 'D01ports', cs, 'pure', cfs)
    # concurrently
    B = dict(budget(), payload=0)
    if not THOROUGH:
        B.update(maxexec=3000, rand=1000, pairs=2000, keep=300)
    P, q = (lambda w: (WPUSH, w)), []
    Y, L = (SYNC, 0), (RPULL, 0)
    for n in (1, 2, 3):
        q.append(prog(n, [[P(0)] * 2, [P(1)] * 2, [(BDEBUG, 0)] * 2], init=[(NEWW, 0), (NEWW, 1)] + [P(0)] * n, **B))
        q.append(prog(n, [[P(0)] * (n + 2), [Y, L, (RDEBUG, 0), L, Y, L]], nr=1, init=[(NEWW, 0)] + [P(0)] * n, **B))
        q.append(prog(n, [[P(0), (DELW, 0)], [P(1), P(1)], [(BDEBUG, 0), (BLEN, 0)]], init=[(NEWW, 0), (NEWW, 1), P(0), P(1)], **B))
    for b in ('_d1', '_d3'):
        check_conc(c, 'D01', q, progress=True, build=b, flags=['-DPLAIN_PAYLOAD'] + [f for f in DIAG[b] if 'DEBUG' in f])
    # monitors
    for b in ('_d1', '_d3'):
        monitor.check_monitor(c, 'D01', monitor.d01(THOROUGH), ['M01', 'M02', 'M03', 'M04', 'M05'], MON_LAT, build=b, flags=[f for f in DIAG[b] if 'DEBUG' in f])
    for x in ('_rvnuttx', '_armfree'):
        monitor.check_monitor(c, 'D01', monitor.d01(THOROUGH), ['M01', 'M02', 'M03', 'M04', 'M05'], MON_LAT, build=x, flags=[f for f in told[x] if f not in ('-no-pie',)])


# ---- ports ------------------------------------------------------------------------
PORT = ['-I' + os.path.join(HARN, 'ports'), '-include', os.path.join(HARN, 'ports', 'port.h'), '-DSMALL']
RV, ARM = PORT + ['-DPORT_RISCV'], PORT + ['-DPORT_ARM', '-fpermissive', '-no-pie']
PORTS = dict(_hw=PORT + ['-DPORT_HW'], _rvnuttx=RV + ['-D__NUTTX__'], _rvrtems=RV + ['-D__rtems__', '-DPORT_MONOTONIC'], _rvfree=RV + ['-D__FREERTOS__'],
             _rvbare=RV + ['-DNO_THREADS'], _armfree=ARM + ['-D__FREERTOS__'], _armnuttx=ARM + ['-D__NUTTX__'])


def p01_scenarios(b, clock=True, ub=False):
    """b: the times used; clock: the target has one."""
    sc, pw = [], (WPUSHALL, 0, FD, FT)
    st = (WPUSH, 0, FD) if clock else pw
    for n in (1, 2, 3):
        A = [push(), (BPULL, 0), (BPOP, 0), (BLEN, 0)]
        sc.append(scen(n, A + [(NEWW, 0)], 6 if THOROUGH else 5, base=b(n)))
        idx = sorted({0, n, n + 1, -1})
        R = [push(), (BPULL, 0)] + [(BREAD, 0, i) for i in idx] + [(BWRITE, 0, i, FD, FT) for i in idx] + [(BSTATE, 0), (BSTATE4, 0)]
        for k in (0, n, n + 1 + n // 2):
            sc.append(scen(n, R, 3, prefix=[push()] * k, base=b(k)))
        sc.append(scen(n, [push(0), push(1), (BPULL, 0), (BPULL, 1), (ASSIGN, 1, 0), (ASSIGN, 0, 1), (RENEWB, 0)], 4, nb=2, prefix=[push(0)] * n, base=b(n)))
        W = [pw, (WPUSHALL, 1, FD, FT), st, (BPULL, 0), (DELW, 0), (NEWW, 0), (BLEN, 0)]
        sc.append(scen(n, W, 5 if THOROUGH else 4, prefix=[(NEWW, 0)] * 2, base=b(n + 1)))
        sc.append(scen(n, [(WPUSHALL, 0, FD, FT), (WPUSHALL, 1, FD, FT), (BPULL, 0), (ASSIGN, 1, 0), (ASSIGN, 0, 1)], 4, nb=2, prefix=[(NEWW, 0), (NEWW, 1)] + [pw] * n, base=b(n)))
        P = [(NEWR, 0), (NEWW, 0)]
        sc.append(scen(n, [pw, (SYNC, 0), (RPULL, 0), (RGAP, 0), (RLEN, 0)], 7 if THOROUGH else 5, prefix=P, base=b(n)))
        for k in (1, n, n + 1, 2 * n + 1):
            pre = P + [pw] * k + [(SYNC, 0)]
            sc.append(scen(n, [pw, (SYNC, 0), (RPULL, 0), (RPOP, 0)], 5, prefix=pre, base=b(k)))
            cur = [(CINC, 0), (CDEC, 0), (CREAD, 0), (CNEXT, 0), (CPREV, 0), (CLEN, 0), (CCONS, 0), (CPULL, 0), (CSETCUR, 0, n), (CSET, 0, 2 * k + 5), (CSET, 0, 9)]
            sc.append(scen(n, cur, 3, prefix=pre + [(CRESET, 0)], base=b(k)))
    for n in (2, 5, 31, 300):
        A = [pw] * 6 + [(WPUSHALL, 1, FD, FT), (SYNC, 0), (SYNC, 1), (RPULL, 0), (RPULL, 1), (RPOP, 1), (RGAP, 1), (RLEN, 0), (CRESET, 0), (CINC, 0), (CINC, 0), (CDEC, 0), (CPULL, 0), (CREAD, 0)]
        A += [(CSET, 0, 40), (BREAD, 0, 0), (BREAD, 0, -1), (BWRITE, 0, 2 * n, FD, FT), (BSTATE4, 0)]
        sc.append(scen(n, A, prefix=[(NEWR, 0), (NEWW, 0), (NEWR, 0), (NEWW, 0)], walk=(2 * n + 300, 6 if THOROUGH else 2, S + n), obs=1 if n < 10 else 29, base=b(n)))
        if clock:
            sc.append(scen(n, [(WPUSH, 0, FD), (WPUSH, 1, FD), (BPULL, 0), (BLEN, 0)], prefix=[(NEWW, 0)] * 2, walk=(3 * n + 60, 1, S + n), obs=1 if n < 10 else 31, base=b(n + 2)))
    return sc + seeks((1, 3, 5, 31), b=b)


@check('P01')
def p01(c):
    with cfut.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda x: compile_cxx(c.work, 'seq_driver' + x, os.path.join(HARN, 'seq_driver.cpp'), PORTS[x]), PORTS))
    for b in PORTS:
        arm = [(0, 1), (4000000000, 1), (1000, 1000)]
        sc = p01_scenarios((lambda k: arm[k % 3]) if 'arm' in b else (lambda k: k), b not in ('_hw', '_rvbare', '_rvfree'))
        check_seq(c, 'P01', sc, PORTS[b], build=b, port='hw' if b == '_hw' else '')
    # the values themselves: times have no sign on RISC-V and 32 bits on ARM
    for b in ('_hw', '_rvnuttx', '_rvrtems', '_armfree'):
        keep = (lambda t: True) if b == '_hw' else (lambda t: 0 <= t < 2 ** 63) if 'rv' in b else (lambda t: 0 <= t < 2 ** 32)
        lines = e01_lines(THOROUGH, keep)
        for l in e02_lines(THOROUGH)[1:]:
            k, *v = l.split()
            if k != 'CLK' or b != '_hw' and keep(int(v[0]) * 10 ** 9 + int(v[1])):
                lines.append(l)
        check_table(c, 'times' + b, lines, flags=PORTS[b])
        es, lines = l01_lines(THOROUGH)
        lines = [l for l in lines if not l.startswith('DUR') or b == '_hw' or all(int(x) >= 0 for x in l.split()[1:6:2])]
        check_table(c, 'logic' + b, lines, es, flags=PORTS[b])


@check('P02')
def p02(c):
    """Formulas on the other targets."""
    rng = random.Random(S * 17 + 5)
    fs = BASIC + [UB(3, P1, P2), UB(4, TR, U(2, P1, P2))] + mixed(rng, 40 if THOROUGH else 12, 2)
    CF = dict(h='_hw', r='_rvnuttx', q='_rvrtems', p='_armfree', u='_armnuttx')
    where = dict(h=(8, 1, 'int', 0), r=(8, 1000000000, 'int', 1600000000000000000), q=(5, 1, 'unsigned int', 0), p=(8, 10, 'int', 0), u=(7, 1, 'int', 2000000000))
    cfs = {k: where[k] + tuple(PORTS[b]) for k, b in CF.items()}
    cs = Cases(fs)
    for k in range(600 if THOROUGH else 120):
        w = randwin(rng, rng.randint(1, 5), (1, 1, 2, 3), (1, 1, 2, 3, 5))
        cs.add([(x, k % 2, rng.randrange(0, 13)) for x in CF], w, pick(rng, inforce(w), 8))
    check_formulas(c, 'P02', cs, 'value', cfs)
    for b in ('_armnuttx', '_rvnuttx', '_rvrtems', '_rvfree', '_armfree'):
        more = [x for m in (monitor.m01, monitor.m02, monitor.m03, monitor.m04, monitor.m05, monitor.m06) for x in m(False)[::1 if THOROUGH else 7]]
        monitor.check_monitor(c, 'P02', monitor.d01(THOROUGH) + more, ['M01', 'M02', 'M03', 'M04', 'M05', 'M06'], MON_LAT, build=b, flags=[f for f in PORTS[b] if f not in ('-no-pie', '-DPORT_MONOTONIC')])


@check('P03')
def p03(c):
    """Concurrent use on the targets whose page has no counter, and what the counter is for."""
    k = lambda w, np, n, r: dict(W='{%s}' % ', '.join(map(str, range(1, w + 1))), NPUSH=np, N=n, READS=r, DESIGN='"nocounter"')
    inv = ['TypeOK', 'Positions', 'Stored', 'Contents', 'Once', 'OwnOrder', 'Statuses', 'NoWedge', 'Whole']
    for x in [(2, 2, 1, 0), (3, 1, 1, 0), (1, 2, 1, 3)] + ([(2, 2, 2, 0)] if THOROUGH else []):
        c.model('LockFree', k(*x), inv)
    forever(c, [(2, 1, 0), (2, 2, 0), (1, 1, 1), (1, 2, 1)] + ([(2, 4, 0), (3, 1, 0), (2, 1, 1), (1, 4, 1)] if THOROUGH else []),
            ['Positions', 'Stored', 'Settled', 'LastOnce', 'LastOrder', 'LastStatus', 'LastStamp', 'Owned', 'Whole'], 'nocounter', constraints=['Near'])
    # the order of stores and loads on RISC-V
    weak(c, [(2, 1, 1, 0, 'release', 'fenced'), (1, 2, 1, 2, 'release', 'fenced')] + ([(3, 1, 1, 0, 'release', 'fenced')] if THOROUGH else []),
         ['Positions', 'Stored', 'MContents', 'Once', 'OwnOrder', 'Statuses', 'StampOrder', 'Whole'], design='nocounter')
    c.refuted('LockFree', k(2, 3, 1, 0), ['Contents'])
    c.refuted('LockFree', k(1, 4, 1, 3), ['Whole'])
    B = budget()
    Y, U, L, T_ = (SYNC, 0), (RPULL, 0), (BLEN, 0), (BSTATE, 0)
    for b in ('_rvnuttx', '_rvrtems', '_rvfree', '_armfree'):
        fl = [f for f in PORTS[b] if f not in ('-no-pie', '-DPORT_MONOTONIC')]
        op = WPUSH if b in ('_rvnuttx', '_armfree') else WPUSHALL
        P, D = (lambda w: (op, w)), (lambda w: (DELW, w))
        n2, n3, n4 = ([(NEWW, i) for i in range(k)] for k in (2, 3, 4))
        free, q = [], []                  # programs in which the same state is never in force twice, and others
        for n in (1, 2, 3):
            free.append(prog(n, [[P(0)] * 2, [P(1)] * 2], **B))
            free.append(prog(n, [[P(0)], [P(1)], [P(2)]], **B))
            free.append(prog(n, [[P(0)], [P(1)], [P(2)]], init=n4 + [P(3)] * (n + 1), **B))
            free.append(prog(n, [[P(0)], [Y, U, Y, U]], nr=1, init=n2 + [P(1)] * (n + 1), **B))
            free.append(prog(n, [[P(0)], [P(1)], [Y, U, L, T_]], nr=1, init=n3 + [P(2)] * n, **B))
            free.append(prog(n, [[P(0)], [P(1)], [U, Y, U]], nr=1, init=n3 + [P(2)] * n + [Y], **B))
            free.append(prog(n, [[P(0), D(0)], [P(1)]], init=n3 + [P(2)] * (n + 1), **B))
            free.append(prog(n, [[D(0)], [P(1)], [P(2)]], init=n3 + [P(2), P(1)] * n + [P(0)], **B))
            q.append(prog(n, [[P(0)] * 4, [P(1)]], near=1, **B))
            q.append(prog(n, [[P(0)] * 3, [P(1)] * 3], init=n2 + [P(0)] * (n + 1), near=1, **B))
            q.append(prog(n, [[P(0)] * (n + 2), [Y, U, Y, U]], nr=1, init=n2 + [P(0)] * n, near=1, **B))
            q.append(prog(n, [[P(0)] * (n + 2), [U, Y, U, U]], nr=1, init=n2 + [P(0)] * n + [Y], near=1, **B))
            q.append(prog(n, [[P(0)] * 3, [L, T_] * 2], init=n2 + [P(0)] * n, near=1, **B))
            q.append(prog(n, [[P(0), D(0), (NEWW, 0), P(0), D(0)], [P(1)] * 2], init=n2, near=1, **B))
        if op == WPUSHALL:                # without the system's clock the events have no distinct times
            free, q = ([x for x in y if '%d.0' % SYNC not in x] for y in (free, q))
        J = [WPUSH, WPUSHALL, SYNC, RPULL, RGAP, RLEN, BLEN, BSTATE]
        check_conc(c, 'P03' + b, free, judge=J, progress=True, build=b, flags=fl)
        check_conc(c, 'P03near' + b, q, judge=J, build=b, flags=fl)
        if b in ('_rvnuttx', '_armfree'):
            one = dict(bound=-1, rand=0, maxexec=0)
            known_or_raise(c, 'aba-push' + b, lambda: check_conc(c, 'P03push' + b, [prog(2, [[P(0)] * 2, [P(1)]], init=n2 + [P(0)], **one)], judge=J, build=b, flags=fl))
            known_or_raise(c, 'aba-view' + b, lambda: check_conc(c, 'P03view' + b, [prog(2, [[P(0)] * 2, [T_]], init=n2 + [P(0)], **one)], judge=J, build=b, flags=fl))
