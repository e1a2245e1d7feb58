"""Formulas: generated operator nestings -> real code -> FormulaTrace.tla."""
import itertools, random
import concurrent.futures as cfut
from vlib import *

# formulas are tuples as in spec/Rmtld3.tla
P1, P2, P3 = ('prop', 1), ('prop', 2), ('prop', 3)
TR = ('true',)
def N(f): return ('not', f)
def AND(f, g): return ('and', f, g)
def OR(f, g): return ('or', f, g)
def U(b, f, g): return ('until', b, f, g)
def UB(b, f, g): return ('untilb', b, f, g)
def ALW(b, f): return ('alw', b, f)
def EVEQ(b, f): return ('eveq', b, f)
def ALWEQ(b, f): return ('alweq', b, f)
def EVUN(f): return ('evun', f)
def SI(b, f, g): return ('since', b, f, g)
def HI(b, f): return ('hist', b, f)
def PEQ(b, f): return ('peq', b, f)
def HEQ(b, f): return ('heq', b, f)
def DUR(b, f): return ('dur', b, f)
def DLT(b, f, c): return ('durlt', b, f, c)
def DGT(b, f, c): return ('durgt', b, f, c)
def D2(b, f, d, g): return ('dur2', b, f, d, g)


def tla(f):
    return '<<%s>>' % ', '.join(tla(x) if isinstance(x, tuple) else ('"%s"' % x if isinstance(x, str) else str(x)) for x in f)


def text(f):
    return f[0] + ('(%s)' % ', '.join(text(x) if isinstance(x, tuple) else str(x) for x in f[1:]) if len(f) > 1 else '')


def has(f, names):
    return f[0] in names or any(has(x, names) for x in f[1:] if isinstance(x, tuple))


class Cpp:
    """One struct per distinct subformula."""
    def __init__(self):
        self.ids, self.txt = {}, []

    def sub(self, f):
        if f in self.ids:
            return self.ids[f]
        k = [self.sub(x) for x in f[1:] if isinstance(x, tuple)]
        n = len(self.ids) + 1
        self.ids[f] = n
        ev = lambda j: 'F%d<T, S>::eval(trace, t)' % k[j]
        o = f[0]
        h = 'template <typename T, timespan S> struct '
        if k:
            self.txt.append(h + 'E%d {\n  static three_valued_type eval_phi1(T &trace, timespan &t) { return %s; }\n'
                            '  static three_valued_type eval_phi2(T &trace, timespan &t) { return %s; }\n};'
                            % (n, ev(0) if f[k and [i for i, x in enumerate(f) if isinstance(x, tuple)][0]] and f[0] != 'dur' else ev(0),
                               ev(1) if len(k) > 1 and o not in ('dur2',) else 'T_UNKNOWN'))
        if o == 'dur2':
            self.txt.append(h + 'EB%d {\n  static three_valued_type eval_phi1(T &trace, timespan &t) { return %s; }\n'
                            '  static three_valued_type eval_phi2(T &trace, timespan &t) { return T_UNKNOWN; }\n};' % (n, ev(1)))
        E = 'E%d<T, S>' % n
        ty = 'three_valued_type'
        pre = ''
        if o == 'prop':
            pre, r = 'proposition p = %d; ' % f[1], 'prop<T>(trace, p, t)'
        elif o == 'true':
            r = 'T_TRUE'
        elif o == 'not':
            r = 'b3_not(a)'
            pre = 'three_valued_type a = %s; ' % ev(0)
        elif o in ('and', 'or'):
            pre = 'three_valued_type a = %s, b = %s; ' % (ev(0), ev(1))
            r = 'b3_%s(a, b)' % o
        elif o in ('until', 'since'):
            r = '%s_less<T, %s, %d * S>(trace, t)' % (o, E, f[1])
        elif o == 'untilb':
            r = 'until_less<T, %s, %d * S, with_in_between>(trace, t)' % (E, f[1])
        elif o in ('alw', 'hist'):
            r = '%s_less<T, %s, %d * S>(trace, t)' % (dict(alw='always', hist='historically')[o], E, f[1])
        elif o in ('eveq', 'alweq', 'peq', 'heq'):
            r = '%s_equal<T, %s, %d * S>(trace, t)' % (dict(eveq='eventually', alweq='always', peq='pasteventually',
                                                            heq='historically')[o], E, f[1])
        elif o == 'evun':
            r = 'eventually_less_unbounded<T, %s>(trace, t)' % E
        elif o == 'dur':
            ty, r = 'duration', 'duration_term<T, %s, %d * S>(trace, t)' % (E, f[1])
        elif o in ('durlt', 'durgt'):
            pre = 'duration d = duration_term<T, %s, %d * S>(trace, t), c = make_duration(%d * S, false); ' % (E, f[1], f[3])
            r = 'b3_lessthan(d, c)' if o == 'durlt' else 'b3_lessthan(c, d)'
        elif o == 'dur2':
            pre = ('duration d = duration_term<T, %s, %d * S>(trace, t); duration c = duration_term<T, EB%d<T, S>, %d * S>(trace, t); '
                   % (E, f[1], n, f[3]))
            r = 'b3_lessthan(d, c)'
        self.txt.append(h + 'F%d {\n  static %s eval(T &trace, timespan &t) { %sreturn %s; }\n};' % (n, ty, pre, r))
        return n

    def source(self, fs):
        ids = [self.sub(f) for f in fs]
        out = list(self.txt)
        for i, k in enumerate(ids):
            out.append('static long form%d(trace_t &trace, timespan &t) { return enc(F%d<trace_t, CFG_S>::eval(trace, t), CFG_S); }' % (i, k))
        out.append('static fun_t forms[] = {%s};' % ', '.join('form%d' % i for i in range(len(ids))))
        return '\n'.join(out) + '\n'


def window(ps, gs, start=1):
    t, w = start, []
    for p, g in zip(ps, gs):
        w.append((p, t))
        t += g
    return w


def exhaustive(n, props, gaps):
    for ps in itertools.product(props, repeat=n):
        for gs in itertools.product(gaps, repeat=n - 1):
            yield window(ps, gs + (0,))


def randwin(rng, n, props, gaps, sticky=0.0):
    ps, gs, p = [], [], rng.choice(props)
    for _ in range(n):
        if rng.random() >= sticky:
            p = rng.choice(props)
        ps.append(p)
        gs.append(rng.choice(gaps))
    return window(ps, gs, rng.choice((1, 1, 2, 5)))


def inforce(w, extra=2):
    """(index, time) for every tick with an event in force."""
    if not w:
        return [(0, 3)]
    return [(i + 1, t) for i, (_, x) in enumerate(w) for t in range(x, w[i + 1][1] if i + 1 < len(w) else x + extra)]


def pick(rng, xs, k):
    xs = list(xs)
    return xs if len(xs) <= k else sorted(rng.sample(xs, k))


CONFIGS = dict(
    a=(8, 1, 'int', 0), b=(8, 1000000000, 'int', 1600000000000000000), c=(5, 3, 'unsigned int', 2 ** 32 - 7), d=(64, 1, 'int', 1000),
    e=(300, 7000000000, 'unsigned char', 2 ** 33), f=(7, 1, 'long', 10 ** 15),
    g=(8, 1, 'hooked', 0))


class Cases:
    """Rows to be recorded: windows with evaluation points, per configuration."""
    def __init__(self, fs):
        self.fs, self.lines, self.groups = list(fs), {}, []

    def add(self, cfgs, w, at, how=0, rot=0, grow=0, forms=None):
        """the same window in each of cfgs = [(config, how, rot), ...]: one group of rows."""
        forms = forms if forms is not None else range(1, len(self.fs) + 1)
        g = []
        for c in cfgs:
            c, h, r = c if isinstance(c, tuple) else (c, how, rot)
            L = self.lines.setdefault(c, [])
            L.append('F %d %s' % (len(forms), ' '.join(map(str, forms))))
            L.append('W %d %d %d %d %s %d %s' % (h, r, grow, len(w), ' '.join('%d %d' % x for x in w), len(at),
                                                 ' '.join('%d %d' % x for x in at)))
            g.append((c, len(w) if grow else 1))
        self.groups.append(g)


def check_formulas(c, name, cases, mode, configs=CONFIGS, timeout=700, known=None):
    fs = cases.fs
    open(os.path.join(c.work, 'forms.inc'), 'w').write(Cpp().source(fs))
    with open(os.path.join(c.work, 'Forms.tla'), 'w') as f:
        f.write('---- MODULE Forms ----\nFORMS == <<\n%s\n>>\n====\n' % ',\n'.join(tla(x) for x in fs))
    used = sorted(cases.lines)

    def one(k):
        n, s, dt, o = configs[k][:4]
        exe = compile_cxx(c.work, 'form_%s_%s' % (name, k), os.path.join(HARN, 'form_driver.cpp'),
                          ['-DCFG_N=%d' % n, '-DCFG_S=%dL' % s, '-DCFG_T=' + dt, '-I' + c.work] + list(configs[k][4:]), opt='-O0' if mode == 'x' else '-O1')
        cfn, of = (os.path.join(c.work, '%s_%s.%s' % (name, k, x)) for x in ('cases', 'json'))
        open(cfn, 'w').write('O %d\n' % o + '\n'.join(cases.lines[k]) + '\n')
        rc, se, dt = run_quiet([exe, cfn, of], 500)
        if rc != 0:
            raise Violation('%s: the real code crashed or hung (exit %s)' % (name, rc), se[-3000:], [cfn])
        return k, json.load(open(of))['rows'], cfn
    with cfut.ThreadPoolExecutor(len(used)) as ex:
        res = {k: (rows, cfn) for k, rows, cfn in ex.map(one, used)}
    # put the rows of one group after one another
    pos, rows, where = {k: 0 for k in used}, [], []
    for g in cases.groups:
        for j, (k, cnt) in enumerate(g):
            got = res[k][0][pos[k]:pos[k] + cnt]
            pos[k] += cnt
            if len(got) != cnt:
                raise CheckError('%s: rows missing' % name)
            for r in got:
                if mode == 'pure':
                    r['g'] = int(j > 0)
                rows.append(r)
                where.append(k)
    for k in used:
        if pos[k] != len(res[k][0]):
            raise CheckError('%s: %d of %d rows used' % (name, pos[k], len(res[k][0])))
    tf = os.path.join(c.work, name + '.json')
    json.dump(dict(rows=rows), open(tf, 'w'))
    nblk = min(64, max(1, len(rows) // 20))
    r = tlc(c.work, 'FormulaTrace', cfg(constants={'FILE': '"%s"' % tf, 'MODE': '"%s"' % mode, 'NBLK': nblk},
                                        invariants=['Accepted'], view='View'), timeout=timeout)
    evals = sum(len(x['e']) * len(x['f']) for x in rows)
    if r.violated == 'Accepted':
        k = int(re.findall(r'/\\ r = (\d+)', r.out)[-1])
        row = rows[k - 1]
        txt = 'configuration %s (capacity, ns per tick, payload, origin) = %s\nwindow %s\n' % (where[k - 1], configs[where[k - 1]], row['w'])
        txt += explain(c, fs, rows, k - 1, mode, tf)
        raise Violation('%s: evaluating the real formula does not give what the specification says' % name, txt, [res[where[k - 1]][1]])
    if r.states != len(rows) + nblk:
        raise CheckError('%s: TLC visited %d of %d rows' % (name, r.states, len(rows) + nblk))
    c.part('formulas ' + name, formulas=len(fs), windows=len(rows), evaluations=evals, states=r.states, transitions=r.generated,
           traces_validated_against_impl=len(rows), seconds=round(r.dt, 1))
    rng = random.Random(SEED)
    for x in rng.sample(range(len(rows)), min(4, len(rows))):
        row = rows[x]
        if row['e']:
            e = rng.choice(row['e'])
            m = rng.randrange(len(row['f']))
            c.sample('%s: window %s, %s at time %d (event %d): %s' % (name, row['w'], text(fs[row['f'][m] - 1]), e[1], e[0], verdict(e[2][m])))
    os.unlink(tf)


def verdict(v):
    return ('true', 'false', 'unknown')[v] if v < 3 else 'duration %s%s' % ((v - 100) // 2, ' (not final)' if v % 2 else '') if v >= 100 else 'invalid (%d)' % v


def explain(c, fs, rows, k, mode, tf):
    """Which evaluation of the row is not accepted: asked of TLC one by one."""
    row = rows[k]
    out = []
    if mode == 'value':
        small = []
        for e in row['e']:
            for m, f in enumerate(row['f']):
                small.append(dict(w=row['w'], f=[f], g=0, e=[[e[0], e[1], [e[2][m]], [e[3][m]], e[4], e[5]]]))
        tf2 = tf + '.one'
        json.dump(dict(rows=small), open(tf2, 'w'))
        try:
            r = tlc(c.work, 'FormulaTrace', cfg(constants={'FILE': '"%s"' % tf2, 'MODE': '"value"', 'NBLK': len(small)},
                                                invariants=['Accepted'], view='View'), extra=['-continue'])
        except CheckError as x:
            return str(x)[:500]
        bad = sorted({int(x) for x in re.findall(r'/\\ r = (\d+)\n/\\ ok = FALSE', r.out)} | {int(x) for x in re.findall(r'/\\ ok = FALSE\n/\\ r = (\d+)', r.out)}
                     | {int(x) for x in re.findall(r'/\\ ok = FALSE[^/]*(?:/\\ old[^/]*)?/\\ r = (\d+)', r.out)})
        for b in bad[:8]:
            s = small[b - 1]
            out.append('%s at time %d with the cursor on event %d: the real code says %s'
                       % (text(fs[s['f'][0] - 1]), s['e'][0][1], s['e'][0][0], verdict(s['e'][0][2][0])))
    elif mode == 'grow':
        prev = rows[k - 1]
        out.append('before: window %s' % prev['w'])
        for e in row['e']:
            for p in prev['e']:
                if p[1] == e[1]:
                    for m, f in enumerate(row['f']):
                        v = p[2][m]
                        if (v % 2 == 0 if v >= 100 else v != 2) and e[2][m] != v:
                            out.append('%s at time %d: was %s, becomes %s' % (text(fs[f - 1]), e[1], verdict(v), verdict(e[2][m])))
    else:
        for j, e in enumerate(row['e']):
            if e[2] != e[3]:
                out.append('evaluated twice at %d: %s then %s' % (e[1], e[2], e[3]))
            if e[4] != e[5]:
                out.append('evaluating at %d changes the state: %s -> %s' % (e[1], e[4], e[5]))
            if row['g'] and k and j < len(rows[k - 1]['e']) and rows[k - 1]['e'][j][2] != e[2]:
                out.append('in other storage at %d: %s instead of %s' % (e[1], e[2], rows[k - 1]['e'][j][2]))
    return '\n'.join(out[:12])
