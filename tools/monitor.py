"""Monitor conformance: controller scripts -> real monitors under virtual time -> MonitorTrace.tla."""
import random
from vlib import *

CONSTRUCT, ENABLE, DISABLE, SETP, ISRUN, GETP, SLEEP, JOIN, ID, START = range(1, 11)
EVN = {1: 'enable called', 2: 'enable returned', 3: 'disable called', 4: 'disable returned', 5: 'setPeriod called', 6: 'setPeriod returned',
       7: 'isRunning called', 8: 'isRunning returned', 9: 'getPeriod called', 10: 'getPeriod returned', 11: 'JOB STARTS', 12: 'job ends',
       13: 'join called', 14: 'join returned', 15: 'constructed', 16: 'identifier right', 17: 'end of the run, finished', 18: 'thread created'}
BASES = [(1700000000, 0), (1700000000, 999900000), (1700000000, 999000000), (1700000000, 999999999), (1700000000, 500000000),
         (1699999999, 998999999), (2000000000, 123456789)]


def script(mons, threads, variant=0, fill=-1, base=(1700000000, 0), spur=0, late=0, bound=1, maxexec=60, rand=40, seed=SEED, keep=400,
           maxtime=2000000000, latek=1):
    """mons: [(period, [durations])] or [(period, [durations], policy, priority)]; threads: lists of (op, mon, arg)."""
    f = lambda ops: ' '.join('.'.join(str(x) for x in (o + (0, 0))[:3]) for o in ops)
    return '\n'.join(['S %d %d %d %d %d %d %d %d' % (variant, fill, base[0], base[1], spur, late, maxtime, latek)]
                     + ['M %d %s %s' % (m[0], ','.join(map(str, m[1])), ' '.join(map(str, m[2:]))) for m in mons]
                     + ['T ' + f(t) for t in threads]
                     + ['E %d %d %d %d %d' % (bound, maxexec, rand, seed * 7919, keep)])


def story(h):
    return ['%10d us  %s %s' % (e[1], EVN.get(e[0], '?'), e[2] if e[0] not in (1, 3, 7, 9, 12, 13, 15) else '') for e in h['ev']] \
        + (['late wake-ups (due, woken): %s' % h['jumps']] if h['jumps'] else [])


def check_monitor(c, name, scripts, judge, lat=10000, timeout=800, build='', flags=()):
    exe = os.path.join(c.work, 'monitor_driver' + build)
    if not os.path.exists(exe):
        compile_vrt(c.work, 'monitor_driver' + build, os.path.join(HARN, 'monitor_driver.cpp'), flags)
    import concurrent.futures as cf
    nb = min(8, len(scripts))
    def one(b):
        sf, tf = (os.path.join(c.work, '%s_%d.%s' % (name, b, x)) for x in ('scn', 'json'))
        open(sf, 'w').write('\n'.join(scripts[b::nb]) + '\n')
        rc, se, dt = run_quiet([exe, sf, tf], timeout)
        if rc == 'timeout':
            raise Violation('%s: the real code does not come to an end' % name, '', [sf])
        if rc != 0:
            raise Violation('%s: the real code crashed (exit %s)' % (name, rc), se[-3000:], [sf])
        return json.load(open(tf)), sf, dt
    with cf.ThreadPoolExecutor(nb) as ex:
        res = list(ex.map(one, range(nb)))
    hist, execs, scns = [], 0, []
    for b, (d, sf, dt) in enumerate(res):
        for h in d['hist']:
            h['script'] = scripts[b::nb][h['s'] - 1]
            hist.append(h)
        for x in d['scns']:
            execs += x['execs']
            scns.append(x)
            if x['crashed']:
                raise Violation('%s: the real code crashed under some schedule' % name, x['text'], [sf])
    tf = os.path.join(c.work, name + '_all.json')
    json.dump(dict(hist=[dict(p0=h['p0'], th=h['th'], v=h['v'], frac=h['frac'], jumps=h['jumps'], ev=h['ev']) for h in hist]), open(tf, 'w'))
    r = tlc(c.work, 'MonitorTrace', cfg(constants={'FILE': '"%s"' % tf, 'JUDGE': '{%s}' % ', '.join('"%s"' % j for j in judge), 'LAT': lat},
                                        invariants=['Accepted'], view='View'), timeout=timeout)
    if r.violated == 'Accepted':
        k = int(re.findall(r'/\\ h = (\d+)', r.out)[-1])
        p = int(re.findall(r'/\\ pos = (\d+)', r.out)[-1])
        why = re.findall(r'why \|-> "([^"]*)"', r.out)[-1]
        h = hist[k - 1]
        st = story(h)
        st[max(p - 1, 0)] += '      <-- ' + why
        raise Violation('%s: monitor history not allowed: %s' % (name, why),
                        '\n'.join(st) + '\n\nscript:\n' + h['script'] + '\nschedule: ' + h['sched'], [x[1] for x in res])
    if r.violated:
        raise CheckError('MonitorTrace: %s\n%s' % (r.violated, cex_text(r.out)))
    want = sum(len(h['ev']) + 1 for h in hist)
    if r.states != want:
        raise CheckError('%s: TLC visited %d states, expected %d' % (name, r.states, want))
    c.part('monitor histories ' + name, scripts=len(scripts), executions=execs, states=r.states, transitions=r.generated,
           jobs=sum(1 for h in hist for e in h['ev'] if e[0] == 11),
           traces_validated_against_impl=len(hist), seconds=round(r.dt + max(x[2] for x in res), 1),
           preemption_bound_exhausted=min(x['exhausted'] for x in scns) - 1)
    c.sample('%s: %s' % (name, '; '.join(story(hist[len(hist) // 2])[:16])))
    os.unlink(tf)
    return hist


# ---- scripts -------------------------------------------------------------------
def life(pre=0, run=3000, mid=(), m=0):
    """construct, wait, enable, do things, disable, join"""
    return [(CONSTRUCT, m)] + ([(SLEEP, m, pre)] if pre else []) + [(ENABLE, m)] + list(mid) + [(SLEEP, m, run), (DISABLE, m), (JOIN, m)]


FILLS = [0, 1, 2, 3, 4, 5, -1]


def m01(deep):
    S = []
    b, n, r = (2, 3000, 1500) if deep else (2, 250, 80)
    for variant in (0, 1, 2):
        for fill in FILLS:
            S.append(script([(1000, [0])], [life(0, 2500)], variant, fill, bound=b, maxexec=n, rand=r))
            S.append(script([(700, [0, 900])], [life(450, 2500)], variant, fill, bound=b, maxexec=n, rand=r))
            # constructed and never enabled until much later, then twice
            S.append(script([(500, [200])], [[(CONSTRUCT, 0), (SLEEP, 0, 3100), (ENABLE, 0), (SLEEP, 0, 1300), (ENABLE, 0), (SLEEP, 0, 1300), (ENABLE, 0),
                                              (SLEEP, 0, 700), (DISABLE, 0), (JOIN, 0)]], variant, fill, bound=1, maxexec=n, rand=r))
        # enabled after seconds, minutes
        for w in (13000000, 65000000 if variant else 310000000):
            S.append(script([(700, [0])], [life(w, 2500)], variant, -1, bound=0, maxexec=1, rand=1, seed=variant))
        # several monitors, enabled one after the other, one never
        S.append(script([(400, [0]), (900, [100]), (650, [800])],
                        [[(CONSTRUCT, 0), (CONSTRUCT, 1), (CONSTRUCT, 2), (ENABLE, 0), (SLEEP, 0, 1500), (ENABLE, 1), (SLEEP, 0, 2500),
                          (DISABLE, 0), (ENABLE, 2), (SLEEP, 0, 2500), (DISABLE, 1), (DISABLE, 2), (JOIN, 0), (JOIN, 1), (JOIN, 2)]],
                        variant, 0, bound=1, maxexec=n, rand=r))
        # enabled by two threads at once, while it runs too
        S.append(script([(600, [300])], [[(CONSTRUCT, 0), (START, 0, 1), (ENABLE, 0), (SLEEP, 0, 900), (ENABLE, 0), (SLEEP, 0, 2300), (DISABLE, 0), (JOIN, 0)],
                                         [(ENABLE, 0), (SLEEP, 0, 900), (ENABLE, 0)]], variant, 2, bound=b, maxexec=n, rand=r))
    return S


def m02(deep):
    S, rng = [], random.Random(SEED)
    n, r = (200, 100) if deep else (12, 6)
    P = [50, 100, 999, 1000, 100000, 999999, 1000000, 1000001, 1500000, 2500000, 5000001, 60000000, 333333]
    for i, p in enumerate(P):
        for j, base in enumerate(BASES):
            if not deep and (i + j) % 2:
                continue
            S.append(script([(p, [0])], [life(0, 6 * p + p // 3)], (i + j) % 3, -1, base, bound=1, maxexec=n, rand=r))
            S.append(script([(p, [p // 2, p + p // 4, 0, 3 * p + 7, 0, 0])], [life(150, 11 * p + p // 3)], (i + j + 1) % 3, -1, base, bound=1, maxexec=n, rand=r))
    S.append(script([(1000000000, [5])], [life(0, 1000500000)], 0, -1, BASES[3], bound=0, maxexec=3, rand=2))
    # boundaries of the second with every phase
    for ns in range(999000000, 1000000000, 100000):
        S.append(script([(100, [0])], [life(0, 1500)], 0, -1, (1700000000, ns), bound=0, maxexec=3, rand=2))
    # late wake-ups
    for i in range(12 if deep else 5):
        S.append(script([(800, [0, 300])], [life(100, 7000)], i % 3, -1, BASES[i % 7], late=1 + i % 2, bound=2, maxexec=n * 8, rand=r * 4))
    # falling behind by seconds and minutes, and catching up; counters of releases
    for i, (p, d) in enumerate([(100000, [1400000] * 3 + [0] * 57), (1000000, [90000000] + [0] * 95), (250000, [0, 30000000] + [100000] * 180), (7000, [2500000] + [0] * 380)]):
        S.append(script([(p, d)], [life(0, sum(d) + 6 * p)], i % 3, -1, BASES[i % 7], bound=0, maxexec=3, rand=2))
    for n_ in (300, 600) if not deep else (300, 600, 70000):
        S.append(script([(1000, [0])], [life(0, n_ * 1000 + 300)], n_ % 3, -1, BASES[2], bound=0, maxexec=2, rand=1))
    # changes of the period: while waiting, in a job, twice
    for i in range(300 if deep else 60):
        p = rng.choice([300, 1000, 1500, 999999, 700000])
        ops = []
        for _ in range(rng.randint(1, 4)):
            q = rng.choice([p, p // 2, 2 * p, p + 1, 3 * p // 2, 100])
            ops += [(SLEEP, 0, rng.choice([p, p // 2, 2 * p + 3, p // 3, 3 * p]) if ops else 20000 + rng.choice([p, p // 2, 3 * p])), (SETP, 0, q), (GETP, 0)]
        d = [rng.choice([0, p // 2, p, p // 3, 2 * p]) for _ in range(rng.randint(1, 4))]
        S.append(script([(p, d)], [life(rng.choice([0, 130]), rng.choice([2, 4]) * p, ops)], i % 3, -1, rng.choice(BASES), bound=1, maxexec=n, rand=r))
    # random
    for i in range(400 if deep else 60):
        k = rng.randint(1, 3)
        mons = [(rng.choice([rng.randint(20, 3000), rng.randint(100000, 4000000)]), [rng.choice([0, 0, rng.randint(0, 6000)]) for _ in range(rng.randint(1, 5))]) for _ in range(k)]
        ops = [(CONSTRUCT, m) for m in range(k)]
        for m in range(k):
            ops += [(ENABLE, m), (SLEEP, m, rng.randint(1, 2000))]
        ops += [(SLEEP, 0, rng.randint(1, 6) * max(min(p, 500000) for p, _ in mons))]
        for m in range(k):
            ops += [(DISABLE, m)]
        ops += [(JOIN, m) for m in range(k)]
        S.append(script(mons, [ops], rng.randint(0, 2), -1, (1700000000, rng.randint(0, 999999999)), bound=0, maxexec=n, rand=r, seed=i + 1))
    return S


def m03(deep):
    S = []
    b, n, r = (2, 4000, 2000) if deep else (2, 400, 120)
    for variant in (0, 1, 2):
        for fill in ([0, 1, 4, -1] if not deep else FILLS):
            # never enabled; at once, while trapped
            for w in (0, 50, 350):
                S.append(script([(500, [0])], [[(CONSTRUCT, 0)] + ([(SLEEP, 0, w)] if w else []) + [(DISABLE, 0), (JOIN, 0)]], variant, fill, bound=b, maxexec=n, rand=r))
            # enabled just before
            for w in (0, 1, 99, 100, 101, 250):
                S.append(script([(300, [0])], [[(CONSTRUCT, 0), (SLEEP, 0, 150), (ENABLE, 0)] + ([(SLEEP, 0, w)] if w else []) + [(DISABLE, 0), (JOIN, 0)]],
                                variant, fill, bound=b, maxexec=n, rand=r))
        # at every phase of the period, waiting and in a job
        for w in range(0, 1600, 100 if not deep else 25):
            S.append(script([(400, [150, 500])], [life(0, 500 + w)], variant, -1, bound=b, maxexec=n // 4, rand=r // 2))
        # twice, by two threads, enabled again, disabled before enabled
        S.append(script([(400, [0, 500])], [[(CONSTRUCT, 0), (ENABLE, 0), (START, 0, 1), (SLEEP, 0, 1000), (DISABLE, 0), (DISABLE, 0), (JOIN, 0)],
                                            [(SLEEP, 0, 1000), (DISABLE, 0)]], variant, -1, bound=b, maxexec=n, rand=r))
        S.append(script([(400, [0])], [[(CONSTRUCT, 0), (START, 0, 1), (ENABLE, 0), (SLEEP, 0, 900), (DISABLE, 0), (JOIN, 0)],
                                       [(DISABLE, 0)]], variant, -1, bound=b, maxexec=n, rand=r))
        S.append(script([(400, [0])], [[(CONSTRUCT, 0), (DISABLE, 0), (ENABLE, 0), (SLEEP, 0, 900), (DISABLE, 0), (JOIN, 0)]], variant, -1, bound=b, maxexec=n, rand=r))
        S.append(script([(400, [100])], [[(CONSTRUCT, 0), (ENABLE, 0), (SLEEP, 0, 900), (DISABLE, 0), (ENABLE, 0), (SLEEP, 0, 900), (DISABLE, 0), (JOIN, 0)]],
                        variant, -1, bound=b, maxexec=n, rand=r))
        S.append(script([(300, [0]), (500, [700])], [[(CONSTRUCT, 0), (CONSTRUCT, 1), (ENABLE, 1), (ENABLE, 0), (SLEEP, 0, 1300), (DISABLE, 0), (JOIN, 0),
                                                      (SLEEP, 0, 900), (DISABLE, 1), (JOIN, 1)]], variant, -1, bound=b, maxexec=n, rand=r))
    return S


def m04(deep):
    S, rng = [], random.Random(SEED + 4)
    b, n, r = (2, 2000, 1000) if deep else (1, 150, 50)
    Q = [(ISRUN, 0), (GETP, 0), (ID, 0)]
    for variant in (0, 1):
        for fill in FILLS:
            S.append(script([(600, [0, 700])], [[(CONSTRUCT, 0)] + Q + [(SLEEP, 0, 300)] + Q + [(SETP, 0, 900), (GETP, 0), (ENABLE, 0)] + Q + [(SLEEP, 0, 2000)] + Q
                                                + [(ENABLE, 0)] + Q + [(SLEEP, 0, 50)] + Q + [(SLEEP, 0, 2000)] + Q + [(SETP, 0, 450), (GETP, 0), (SLEEP, 0, 1500)] + Q
                                                + [(DISABLE, 0)] + Q + [(JOIN, 0)] + Q], variant, fill, bound=b, maxexec=n, rand=r))
        # two monitors: settings do not leak
        S.append(script([(600, [0]), (950, [100])], [[(CONSTRUCT, 0), (CONSTRUCT, 1), (ENABLE, 0), (SLEEP, 0, 1500), (ISRUN, 0), (ISRUN, 1), (GETP, 0), (GETP, 1), (SETP, 1, 333),
                                                      (GETP, 0), (GETP, 1), (ENABLE, 1), (SLEEP, 1, 2000), (ISRUN, 0), (ISRUN, 1), (ID, 0), (ID, 1), (DISABLE, 0), (ISRUN, 0),
                                                      (ISRUN, 1), (SETP, 0, 4000000000 // 2), (GETP, 0), (DISABLE, 1), (JOIN, 0), (JOIN, 1), (ISRUN, 1)]],
                        variant, 2, bound=b, maxexec=n, rand=r))
        # queried by one thread while another controls
        for i in range(20 if deep else 6):
            qs = []
            for _ in range(12):
                qs += [(SLEEP, 0, rng.choice([1, 100, 250, 600]))] + Q[:2]
            S.append(script([(400, [rng.choice([0, 150, 600])])],
                            [[(CONSTRUCT, 0), (START, 0, 1), (SLEEP, 0, 150), (ENABLE, 0), (SLEEP, 0, 700), (ENABLE, 0), (SLEEP, 0, 900), (ENABLE, 0), (SLEEP, 0, 1300),
                              (DISABLE, 0), (SLEEP, 0, 800), (JOIN, 0)], qs], variant, 2, bound=b, maxexec=n, rand=r, seed=i + 1))
    return S


def m05(deep):
    S, rng = [], random.Random(SEED + 5)
    n, r = (1500, 600) if deep else (150, 60)
    for variant in (0, 1, 2):
        for i, (p, d) in enumerate([(1000, [0]), (800, [300]), (600, [900, 0, 0]), (1000001, [0, 1500000]), (101, [0])]):
            for spur, late in ((1, 0), (2, 0), (3, 1), (0, 2), (1, 1)):
                S.append(script([(p, d)], [life(0, 7 * p + p // 3)], variant, -1, BASES[(i + spur) % 7], spur, late, bound=2, maxexec=n, rand=r))
        S.append(script([(700, [0]), (500, [100])], [[(CONSTRUCT, 0), (CONSTRUCT, 1), (ENABLE, 1), (ENABLE, 0), (SLEEP, 0, 20000), (SETP, 0, 1100), (SLEEP, 0, 5000), (DISABLE, 0), (JOIN, 0),
                                                      (DISABLE, 1), (JOIN, 1)]], variant, -1, BASES[1], 3, 1, bound=2, maxexec=n, rand=r))
    # late by seconds and minutes
    for i, (p, k) in enumerate([(100000, 500), (50000, 1000), (333333, 2000), (1000000, 10000), (9000000, 30000), (101, 7)]):
        for spur, late in ((0, 1), (1, 2)):
            S.append(script([(p, [0, p // 3])], [life(0, 14 * p + 6100 * k + p // 3)], i % 3, -1, BASES[(i + spur) % 7], spur, late, bound=1, maxexec=n // 5,
                            rand=r, keep=90, latek=k))
    for i in range(200 if deep else 30):
        p = rng.randint(50, 4000)
        S.append(script([(p, [rng.choice([0, 0, rng.randint(0, 2 * p)]) for _ in range(rng.randint(1, 4))])], [life(rng.choice([0, 70]), rng.randint(3, 12) * p)],
                        rng.randint(0, 2), -1, (1700000000, rng.randint(0, 999999999)), rng.randint(1, 6), rng.randint(0, 2), bound=0, maxexec=3, rand=n // 3, seed=i + 1))
    return S


FIFO, RR, OTHER = 1, 2, 0
def m06(deep):
    S = []
    sched = [(OTHER, 0)] + [(p, x) for p in (FIFO, RR) for x in (1, 2, 10, 50, 98, 99)]
    n = 200 if deep else 30
    for i, (p, x) in enumerate(sched):
        for variant in (1, 2):
            S.append(script([(500 + i, [0], p, x)], [life(0, 1600)], variant, FILLS[i % len(FILLS)], bound=1, maxexec=n, rand=n))
            q, y = sched[(i * 5 + 3) % len(sched)]
            S.append(script([(500, [0], p, x), (700, [100], q, y), (300, [0], *sched[(i + 1) % len(sched)])],
                            [[(CONSTRUCT, 0), (CONSTRUCT, 1), (ENABLE, 1), (CONSTRUCT, 2), (ENABLE, 0), (SLEEP, 0, 2100), (ENABLE, 0), (DISABLE, 0), (JOIN, 0), (ENABLE, 2),
                              (SLEEP, 0, 900), (DISABLE, 2), (DISABLE, 1), (JOIN, 1), (JOIN, 2)]], variant, 0, bound=1, maxexec=n // 2, rand=n // 2))
    for fill in FILLS:
        S.append(script([(400, [0])], [life(0, 1600)], 0, fill, bound=1, maxexec=n, rand=n))
        S.append(script([(400, [0])], [[(CONSTRUCT, 0), (DISABLE, 0), (JOIN, 0)]], 0, fill, bound=1, maxexec=n, rand=n))
    return S


def d01(deep):
    """A little of everything, for the builds with diagnosis."""
    S = []
    n, r = (400, 200) if deep else (40, 20)
    Q = [(ISRUN, 0), (GETP, 0), (ID, 0)]
    for variant in (0, 1, 2):
        for i, fill in enumerate(FILLS):
            S.append(script([(1000, [0, 300])], [life(150 * i, 3500, Q)], variant, fill, BASES[i], spur=i % 2, late=i % 3 // 2, bound=1, maxexec=n, rand=r))
        # overruns, changes of the period, several monitors, a disable before the first job
        S.append(script([(800, [0, 3000, 0, 0, 0])], [life(100, 9000, [(SLEEP, 0, 20000), (SETP, 0, 450)] + Q)], variant, -1, BASES[2], bound=1, maxexec=n, rand=r))
        S.append(script([(300, [0]), (500, [700])], [[(CONSTRUCT, 0), (CONSTRUCT, 1), (ENABLE, 1), (ENABLE, 0), (SLEEP, 0, 1300), (DISABLE, 0), (JOIN, 0),
                                                      (SLEEP, 0, 900), (DISABLE, 1), (JOIN, 1)]], variant, -1, bound=1, maxexec=n, rand=r))
        S.append(script([(500, [0])], [[(CONSTRUCT, 0), (DISABLE, 0), (JOIN, 0)]], variant, 2, bound=1, maxexec=n, rand=r))
    return S
