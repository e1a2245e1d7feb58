"""Concurrent conformance: programs -> real code under the deterministic runtime -> ConcTrace.tla."""
from vlib import *
WBULK = 13
from seq import NAMES, NEWW, DELW, WPUSH, WPUSHALL, SYNC, RPULL, RPOP, RGAP, RLEN, BLEN, BSTATE, BDEBUG, RDEBUG


def prog(N, threads, init=None, payload=1, nw=None, nr=0, bound=2, maxexec=2000, rand=1000, keep=1500, seed=SEED, pairs=0, steps=12000, near=0):
    """threads: lists of (op, target[, arg]); near: judge only histories in which no operation overlaps
    more than one push or destruction by another thread."""
    if nw is None:
        nw = max([o[1] + 1 for t in threads + [init or []] for o in t if o[0] in (NEWW, DELW, WPUSH, WPUSHALL, WBULK)] + [0])
    if init is None:
        init = [(NEWW, i) for i in range(nw)]
    f = lambda ops: ' '.join('.'.join(map(str, o)) for o in ops)
    return '\n'.join(['S %d %d %d %d' % (N, payload, nw, nr), 'I ' + f(init)] + ['T ' + f(t) for t in threads]
                     + ['E %d %d %d %d %d %d %d %d' % (bound, maxexec, rand, seed * 7919, keep, pairs, steps, near)])


def story(h):
    out = []
    for e in h['ev']:
        o = h['ops'][abs(e) - 1]
        nm = '%s(%s%d%s)' % (NAMES[o[1]] if o[1] != WBULK else '%d pushes' % o[5], 'w' if o[1] in (9, 10, 11, 12, 13) else 'r', o[2],
                             ' event %d' % o[3] if o[3] else '')
        out.append('thread %d %s %s%s' % (o[0], 'calls' if e > 0 else 'returns from', nm,
                   '' if e > 0 else ' -> %d%s' % (o[4], ' event %s' % (o[5:7],) if o[5:7] != [-1, -1] else '')))
    return out + ['at the end: bottom, top, length, slots = %s' % h['fin']]


def check_conc(c, name, progs, judge=(), progress=False, timeout=800, flags=(), order=True, build=''):
    """Explore the programs; judge histories (order) and that every run ends (progress)."""
    exe = os.path.join(c.work, 'conc_driver' + build)
    if not os.path.exists(exe):
        compile_vrt(c.work, 'conc_driver' + build, os.path.join(HARN, 'conc_driver.cpp'), flags)
    # run the programs in parallel batches
    import concurrent.futures as cf
    nb = min(8, len(progs))
    files = []
    def one(b):
        sf, tf = (os.path.join(c.work, '%s_%d.%s' % (name, b, x)) for x in ('scn', 'json'))
        open(sf, 'w').write('\n'.join(progs[b::nb]) + '\n')
        rc, se, dt = run_quiet([exe, sf, tf], timeout)
        if rc == 'timeout':
            raise CheckError('%s: exploration timed out' % name)
        if rc != 0:
            raise Violation('%s: the real code crashed (exit %s)' % (name, rc), se[-3000:], [sf])
        return json.load(open(tf)), sf, dt
    with cf.ThreadPoolExecutor(nb) as ex:
        res = list(ex.map(one, range(nb)))
    scns, hist = [], []
    for d, sf, _ in res:
        for h in d['hist']:
            h['s'] += len(scns)
            hist.append(h)
        scns += d['scns']
    for s in scns:
        if s['crashed']:
            raise Violation('%s: the real code crashed under some schedule' % name, s['crash_text'], [res[0][1]])
        if s['stuck'] and progress:
            raise Violation('%s: under some schedule an operation never finishes' % name, s['stuck_text'], [r[1] for r in res])
    execs = sum(s['execs'] for s in scns)
    stuck = sum(s['stuck'] for s in scns)
    if not order:
        c.part('schedules ' + name, programs=len(progs), executions=execs, traces_validated_against_impl=execs,
               seconds=round(max(r[2] for r in res), 1), histories=len(hist),
               preemption_bound_exhausted=min(s['exhausted'] for s in scns if s['bound'] >= 0) - 1 if any(s['bound'] >= 0 for s in scns) else 0)
        if hist:
            c.sample('%s: %s' % (name, '; '.join(story(hist[len(hist) // 2])[:14])))
        return
    if not hist and stuck:
        c.part('schedules ' + name, programs=len(progs), executions=execs)
        return
    tf = os.path.join(c.work, name + '_all.json')
    json.dump(dict(scns=[dict(n=s['n'], nr=s['nr']) for s in scns], hist=hist), open(tf, 'w'))
    r = tlc(c.work, 'ConcTrace', cfg(constants={'FILE': '"%s"' % tf, 'JUDGE': '{%s}' % ', '.join(map(str, judge))},
                                     invariants=['Accepted', 'SpecWell'], view='View'), timeout=timeout)
    if r.violated == 'Accepted':
        k = int(re.findall(r'/\\ h = (\d+)', r.out)[-1])
        p = int(re.findall(r'/\\ pos = (\d+)', r.out)[-1])
        h = hist[k - 1]
        st = story(h)
        raise Violation('%s: capacity %d: no order of the operations explains this history of the real code (stops at step %d)'
                        % (name, scns[h['s'] - 1]['n'], p), '\n'.join('%3d %s' % (i + 1, x) for i, x in enumerate(st)), [x[1] for x in res])
    if r.violated:
        raise CheckError('ConcTrace: %s\n%s' % (r.violated, cex_text(r.out)))
    want = sum(len(h['ev']) + 2 for h in hist)
    if r.states != want:
        raise CheckError('%s: TLC visited %d states, expected %d' % (name, r.states, want))
    if any(s['left_out'] for s in scns):
        c.part('left out ' + name, histories_with_more_overlapping_pushes=sum(s['left_out'] for s in scns))
    c.part('linearizability ' + name, programs=len(progs), executions=execs, unfinished=stuck, states=r.states,
           transitions=r.generated, traces_validated_against_impl=len(hist), seconds=round(r.dt + max(x[2] for x in res), 1),
           preemption_bound_exhausted=min(s['exhausted'] for s in scns if s['bound'] >= 0) - 1 if any(s['bound'] >= 0 for s in scns) else 0)
    c.sample('%s: %s' % (name, '; '.join(story(hist[len(hist) // 2])[:14])))
    os.unlink(tf)
