"""Connectives, durations and event operations: cases -> real code -> TableTrace.tla."""
import itertools, random
from vlib import *


def exprs(rng, n):
    """Random and small nested connectives: list of (json, c++ text)."""
    def mk(depth, leaves):
        if depth == 0 or (rng.random() < 0.2):
            leaves[0] += 1
            return ('v%d' % (leaves[0] - 1),)
        k = rng.randrange(3)
        if k == 0:
            return ('n', mk(depth - 1, leaves))
        return ('a' if k == 1 else 'o', mk(depth - 1, leaves), mk(depth - 1, leaves))
    out, seen = [], set()
    # every shape of depth two exactly once
    V = lambda i: ('v%d' % i,)
    base = [('n', V(0)), ('a', V(0), V(1)), ('o', V(0), V(1))]
    out += base
    sh = lambda t, d: (t[0],) + tuple(sh(x, d) for x in t[1:]) if t[0] in 'nao' else ('v%d' % (int(t[0][1:]) + d),)
    for x in base:
        out.append(('n', x))
        out += [('a', x, V(2)), ('o', x, V(2)), ('a', V(2), x), ('o', V(2), x)]
        for y in base:
            out += [('a', x, sh(y, 2)), ('o', x, sh(y, 2))]
    while len(out) < n:
        l = [0]
        t = mk(3, l)
        if l[0] <= 5 and len(t) > 1:
            out.append(t)
    return out


def cpp(t):
    if t[0] == 'n':
        return 'b3_not(%s)' % cpp(t[1])
    if t[0] in 'ao':
        return '%s(%s, %s)' % ('b3_and' if t[0] == 'a' else 'b3_or', cpp(t[1]), cpp(t[2]))
    return '(three_valued_type)v[%s]' % t[0][1:] if False else 'x%s' % t[0][1:]


def js(t, v):
    if t[0] == 'n':
        return '[1,%s]' % js(t[1], v)
    if t[0] in 'ao':
        return '[%d,%s,%s]' % (2 if t[0] == 'a' else 3, js(t[1], v), js(t[2], v))
    return '[0,%d]' % v[int(t[0][1:])]


def nleaves(t):
    return 1 + int(t[0][1:]) if t[0][0] == 'v' else max(nleaves(x) for x in t[1:])


def check_table(c, name, lines, es=(), flags=()):
    with open(os.path.join(c.work, 'exprs.inc'), 'w') as f:
        for i, t in enumerate(es):
            f.write('static int expr%d(const int *v) {\n' % i)
            for k in range(nleaves(t)):
                f.write('  three_valued_type x%d = (three_valued_type)v[%d];\n' % (k, k))
            f.write('  three_valued_type r = %s;\n  return (int)r;\n}\n' % cpp(t))
        f.write('static int run_expr(int k, const int *v) {\n  switch (k) {\n')
        for i in range(len(es)):
            f.write('  case %d: return expr%d(v);\n' % (i, i))
        f.write('  }\n  return -1;\n}\n')
    exe = compile_cxx(c.work, 'table_' + name, os.path.join(HARN, 'table_driver.cpp'), ['-I' + c.work] + list(flags))
    sf, tf = os.path.join(c.work, name + '.cases'), os.path.join(c.work, name + '.json')
    open(sf, 'w').write('\n'.join(lines) + '\n')
    rc, so, se, dt = run([exe, sf, tf], 300)
    if rc != 0:
        raise Violation('%s: the real code crashed (exit %s)' % (name, rc), se[-3000:], [sf])
    rows = json.load(open(tf))['rows']
    r = tlc(c.work, 'TableTrace', cfg(constants={'FILE': '"%s"' % tf}, invariants=['Accepted'], view='View'), timeout=700, workers=1)
    if r.violated == 'Accepted':
        bad = int(re.findall(r'/\\ bad = (\d+)', r.out)[-1])
        row = rows[bad - 1]
        txt = json.dumps(row)
        if row['op'].startswith('ev.'):
            k = bad - 1
            while rows[k]['op'] != 'ev.start':
                k -= 1
            txt = '\n'.join(json.dumps(x) for x in rows[k:bad])
        raise Violation('%s: %s does not give what the specification says' % (name, row['op']), txt, [sf])
    if r.states != len(rows) + 1:
        raise CheckError('%s: TLC visited %d of %d rows' % (name, r.states, len(rows)))
    kinds = {}
    for x in rows:
        kinds[x['op']] = kinds.get(x['op'], 0) + 1
    c.part('applications ' + name, states=r.states, transitions=r.states - 1, traces_validated_against_impl=len(rows),
           seconds=round(dt + r.dt, 1), operations=kinds)
    rng = random.Random(SEED)
    for x in rng.sample(rows, min(5, len(rows))):
        c.sample(json.dumps(x))


def l01_lines(thorough):
    rng = random.Random(SEED * 31 + 5)
    es = exprs(rng, 160 if thorough else 70)
    lines = ['CONV']
    for i, t in enumerate(es):
        n = nleaves(t)
        vs = list(itertools.product(range(3), repeat=n))
        if len(vs) > 81:
            vs = rng.sample(vs, 243 if thorough else 81)
        for v in vs:
            lines.append('EXPR %d %s %s' % (i, js(t, v), ' '.join(map(str, v))))
    vals = [0, 1, 2, -1, 9, 10000, 9999, 10**8, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 10**12 + 7, 1700000000 * 10**9, -10**10]
    small = lambda *x: int(all(abs(a * b) < 2**62 for a in x for b in x))
    for a in vals:
        for b in vals:
            for u in range(4):
                z = rng.choice(vals)
                lines.append('DUR %d %d %d %d %d %d %d' % (a, u & 1, b, u >> 1, z, rng.randrange(2) if u == 3 else 0, small(a, b, z)))
    for _ in range(3000 if thorough else 600):
        m = 2 ** rng.randrange(1, 31)
        a, b, z = (rng.randrange(-m, m) for _ in range(3))
        if rng.random() < .2:
            b = a + rng.randrange(-1, 2)
        lines.append('DUR %d %d %d %d %d %d %d' % (a, rng.random() < .15, b, rng.random() < .15, z, rng.random() < .15, small(a, b, z)))
    return es, lines


def e01_lines(thorough, keep=lambda t: True):
    """keep: the times of the target."""
    rng = random.Random(SEED * 17 + 3)
    times = sorted({0, 1, 2, -1, -2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**33,
                    10**9, 10**18, 1700000000 * 10**9, 1700000000 * 10**9 + 1, 2**62, 2**63 - 1, 2**63 - 2, -2**63, -2**31, -2**32,
                    2**53, 2**53 + 1, 3 * 2**32 + 1})
    times = [t for t in times if keep(t)]
    lines = ['TIMES ' + ' '.join(map(str, times))]
    n = len(times)
    for ty in range(3):
        lines.append('TYPE %d' % ty)
        for i in range(n):
            for j in range(n):
                if thorough or ty == 0 or abs(i - j) < 3 or rng.random() < .3:
                    for d, e in ((5, 5), (5, 6), (7, 7 + 256), (0, -1), (3, 3 + 65536))[:2 if ty == 1 or (i + j) % 3 else 5]:
                        lines.append('CMP %d %d %d %d' % (i, d, j, e))
        for h in range(120 if thorough else 40):
            lines.append('ev.start')
            for _ in range(20):
                k = rng.randrange(7)
                a, b, t, d = rng.randint(1, 3), rng.randint(1, 3), rng.randrange(n), rng.randint(0, 200)
                lines.append(('ev.setTime %d %d' % (a, t), 'ev.setData %d %d' % (a, d), 'ev.set %d %d %d' % (a, d, t),
                              'ev.make %d %d %d' % (a, d, t), 'ev.copy %d %d' % (a, b), 'ev.assign %d %d' % (a, b), 'ev.assignp %d %d' % (a, b))[k])
    return lines


def e02_lines(thorough):
    rng = random.Random(SEED * 29 + 11)
    lines = ['TIMES 0']
    G = 10 ** 9
    secs = [0, 1, 2, 59, 86400, 1700000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 33 + 5, 10 ** 12]
    nss = [0, 1, 999, 10 ** 6, 499999999, 500000000, 999999998, 999999999]
    pts = [(a, b) for a in secs for b in nss]
    pairs = [(x, y) for x in pts for y in pts]
    for x, y in pairs if thorough else rng.sample(pairs, 1500):
        lines.append('TS %d %d %d %d' % (x + y))
    for _ in range(3000 if thorough else 500):
        x = (rng.randrange(2 ** rng.randrange(1, 40)), rng.randrange(G))
        y = (x[0] + rng.randrange(-1, 2) if rng.random() < .4 else rng.randrange(2 ** rng.randrange(1, 40)), rng.choice((x[1], rng.randrange(G))))
        lines.append('TS %d %d %d %d' % (x + (abs(y[0]), y[1])))
    us = {0, 1, 999, 1000, 10 ** 6 - 1, 10 ** 6, 10 ** 6 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2147483, 2147484, 4294967, 4294968, 1999999, 2000000}
    us |= {rng.randrange(2 ** rng.randrange(1, 33)) for _ in range(2000 if thorough else 300)}
    lines += ['US %d' % u for u in sorted(us)]
    for s in [0, 1, 2, 3, 4, 5, 1700000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 33] + [rng.randrange(2 ** rng.randrange(1, 33)) for _ in range(100)]:
        for n in rng.sample(nss, 3) + [rng.randrange(G)]:
            lines.append('CLK %d %d' % (s, n))
    return lines
