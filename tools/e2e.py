"""End to end: writers and monitors on the real code -> EndToEndTrace.tla."""
import random
import concurrent.futures as cfut
from vlib import *
from formulas import Cpp, tla, text, verdict, has


def script(mons, ctrl, writers, bound=1, maxexec=60, rand=40, seed=SEED, keep=600, maxtime=10000000):
    return '\n'.join(['S 0 %d' % maxtime] + ['M %d %d %d' % m for m in mons]
                     + ['C ' + ' '.join('%s.%d' % o for o in ctrl)]
                     + ['W ' + ' '.join('%s.%d' % o for o in w) for w in writers]
                     + ['E %d %d %d %d %d' % (bound, maxexec, rand, seed * 7919, keep)])


def check_e2e(c, name, fs, groups, timeout=800):
    """groups: {(capacity, payload): [scripts]}"""
    open(os.path.join(c.work, 'forms.inc'), 'w').write(Cpp().source(fs))
    with open(os.path.join(c.work, 'Forms.tla'), 'w') as f:
        f.write('---- MODULE Forms ----\nFORMS == <<\n%s\n>>\n====\n' % ',\n'.join(tla(x) for x in fs))
    for (cap, ty), scripts in groups.items():
        key = '%s_%d' % (name, cap)
        exe = compile_vrt(c.work, key, os.path.join(HARN, 'e2e_driver.cpp'),
                          ['-DCFG_N=%d' % cap, '-DCFG_T=' + ty, '-DCFG_S=1L', '-I' + c.work])
        nb = min(8, len(scripts))

        def one(b):
            sf, tf = (os.path.join(c.work, '%s_%d.%s' % (key, b, x)) for x in ('scn', 'json'))
            open(sf, 'w').write('\n'.join(scripts[b::nb]) + '\n')
            rc, so, se, dt = run([exe, sf, tf], timeout)
            if rc == 'timeout':
                raise Violation('%s: the real code does not come to an end' % name, '', [sf])
            if rc != 0:
                raise Violation('%s: the real code crashed (exit %s)' % (name, rc), se[-3000:], [sf])
            return json.load(open(tf)), sf, dt
        with cfut.ThreadPoolExecutor(nb) as ex:
            res = list(ex.map(one, range(nb)))
        hist, execs = [], 0
        for b, (d, sf, dt) in enumerate(res):
            for h in d['hist']:
                h['script'] = scripts[b::nb][h['s'] - 1]
                hist.append(h)
            for k, x in enumerate(d['scns']):
                execs += x['execs']
                if x['crashed'] or x['unfinished']:
                    raise Violation('%s: under some schedule the run %s' % (name, 'crashes' if x['crashed'] else 'does not finish'),
                                    x['text'] + '\n' + scripts[b::nb][k], [sf])
        tf = os.path.join(c.work, key + '_all.json')
        json.dump(dict(hist=[dict(ev=h['ev'], mons=h['mons']) for h in hist]), open(tf, 'w'))
        r = tlc(c.work, 'EndToEndTrace', cfg(constants={'FILE': '"%s"' % tf, 'CAP': cap}, invariants=['Accepted'], view='View'), timeout=timeout)
        if r.violated == 'Accepted':
            k, m, j = (int(re.findall(r'/\\ %s = (\d+)' % v, r.out)[-1]) for v in 'hmj')
            h = hist[k - 1]
            mon = h['mons'][m - 1]
            txt = 'formula %s at time %d\nevents (proposition, time, call, return):\n  %s\n' % (
                text(fs[mon['f'] - 1]), mon['tz'], '\n  '.join(map(str, h['ev'])))
            txt += 'jobs (verdict, first step, last step, start time):\n  ' + '\n  '.join(
                '%s %s%s' % (verdict(x[0]), x[1:], '   <-- not allowed' if i + 1 == j else '') for i, x in enumerate(mon['jobs']))
            raise Violation('%s: a monitor publishes a verdict that is not the formula\'s value' % name, txt + '\n\n' + h['script'], [x[1] for x in res])
        if r.violated:
            raise CheckError('EndToEndTrace: %s\n%s' % (r.violated, cex_text(r.out)))
        want = sum(len(m['jobs']) + 1 for h in hist for m in h['mons'])
        if r.states != want:
            raise CheckError('%s: TLC visited %d states, expected %d' % (name, r.states, want))
        vs = [m['jobs'][-1][0] for h in hist for m in h['mons'] if m['jobs']]
        c.part('end to end, capacity %d' % cap, scripts=len(scripts), executions=execs, states=r.states, transitions=r.generated,
               traces_validated_against_impl=len(hist), jobs=want, true=vs.count(0), false=vs.count(1), unknown=vs.count(2),
               seconds=round(r.dt + max(x[2] for x in res), 1))
        h = hist[len(hist) // 2]
        c.sample('%s: events %s; %s' % (name, [e[:2] for e in h['ev']][:12],
                                        '; '.join('%s at %d: %s' % (text(fs[m['f'] - 1]), m['tz'], ' '.join(verdict(x[0]) for x in m['jobs'][:20])) for m in h['mons'])))
        os.unlink(tf)
