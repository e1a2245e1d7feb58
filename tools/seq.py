"""Sequential conformance: scenarios -> real code -> trie -> SeqTrace.tla."""
import json, os
from vlib import *

FD, FT = -1000001, -1000002
BPUSH, BPULL, BPOP, BREAD, BWRITE, BSTATE, BSTATE4, BLEN = range(1, 9)
NEWW, DELW, WPUSH, WPUSHALL, ASSIGN, RENEWB, BDEBUG, EDEBUG = range(9, 17)
NEWR, SYNC, RPULL, RPOP, RGAP, RLEN, RDEBUG = range(20, 27)
CRESET, CSET, CINC, CDEC, CPULL, CREAD, CNEXT, CPREV, CLEN, CCONS, CSETCUR, CDEBUG = range(30, 42)
MPUSH, MWPUSH, MPULL, MPOP, MRPULL, MRPOP, MCINC, MCDEC, MCPULL = range(50, 59)
NAMES = {50: 'pushes', 51: 'writer.push_alls', 52: 'pulls', 53: 'pops', 54: 'reader.pulls', 55: 'reader.pops',
         56: 'increment_cursors', 57: 'decrement_cursors', 58: 'trace.pulls', 1: 'push', 2: 'pull', 3: 'pop', 4: 'read', 5: 'write', 6: 'state', 7: 'state4', 8: 'length',
         9: 'new_writer', 10: 'destroy_writer', 11: 'writer.push', 12: 'writer.push_all', 13: 'assign', 14: 'renew_buffer', 15: 'buffer.debug', 16: 'event.debug', 26: 'reader.debug', 41: 'trace.debug',
         20: 'new_reader', 21: 'synchronize', 22: 'reader.pull', 23: 'reader.pop', 24: 'gap', 25: 'reader.length',
         30: 'reset', 31: 'set', 32: 'increment_cursor', 33: 'decrement_cursor', 34: 'trace.pull', 35: 'trace.read',
         36: 'read_next', 37: 'read_previous', 38: 'trace.length', 39: 'consumed', 40: 'set_cursor', 0: 'start'}

BASES = [(0, 1), (1700000000 * 10**9, 1), (1700000000 * 10**9 + 999999990, 7),
         (9 * 10**18, 3), (4294967290, 1), (2**62, 2**31), (1700000000999999999, 999999999)]


def scen(N, alpha, depth=0, prefix=(), dt=0, nb=1, walk=None, obs=1, base=0):
    """Exhaustive sequences of `alpha` of length depth after the prefix, or walk=(len,count,seed)."""
    b, s = base if isinstance(base, tuple) else BASES[base % len(BASES)]
    out = ['S %d %d %d %d %d %d' % (N, dt, nb, b, s, obs)]
    pad = lambda t: tuple(t) + (0,) * (5 - len(t))
    out += ['P %d %d %d %d %d' % pad(t) for t in prefix]
    out += ['A %d %d %d %d %d' % pad(t) for t in alpha]
    out.append('R %d %d %d' % walk if walk else 'D %d' % depth)
    return '\n'.join(out)


def path_to(nodes, roots, target):
    parent = {}
    for i, x in enumerate(nodes, 1):
        for k in range(x[10], x[10] + x[11]):
            parent[k] = i
    p = [target]
    while p[-1] in parent:
        p.append(parent[p[-1]])
    return p[::-1]


def fmt(x):
    return '%-16s args=%s -> reply %d out=%s%s' % (NAMES[x[0]], x[1:5], x[5], x[6:10],
                                                    '  observed=%s%s' % (x[12:52], '...' if len(x) > 52 else '') if len(x) > 12 else '')


def record(c, name, scenarios, build='', flags=(), opt='-O1'):
    """Execute the scenarios on one build of the real code."""
    exe = os.path.join(c.work, 'seq_driver' + build)
    if not os.path.exists(exe):
        compile_cxx(c.work, 'seq_driver' + build, os.path.join(HARN, 'seq_driver.cpp'), flags, opt=opt)
    sf, tf = os.path.join(c.work, name + '.scen'), os.path.join(c.work, name + build + '.json')
    open(sf, 'w').write('\n'.join(scenarios) + '\n')
    rc, se, dt = run_quiet([exe, sf, tf], 600)
    if rc != 0:
        raise Violation('%s: the real code crashed or did not finish (exit %s)' % (name, rc), se[-4000:], [sf])
    return sf, tf, dt


def check_seq(c, name, scenarios, flags=(), timeout=700, judge=(), build='', ref='', opt='-O1', port=''):
    """Build the driver, run the scenarios on the real code, validate them."""
    sf, tf, dt = record(c, name, scenarios, build, flags, opt)
    data = json.load(open(tf))
    nodes = data['nodes']
    r = tlc(c.work, 'SeqTrace', cfg(constants={'FILE': '"%s"' % tf, 'JUDGE': '{%s}' % ', '.join(map(str, judge)), 'PORT': '"%s"' % port, 'REF': '"%s"' % ref}, invariants=['Accepted', 'SpecWell'], view='View', alias='Shown'),
            timeout=timeout)
    if r.violated == 'Accepted':
        bad = int(re.findall(r'/\\ bad = (\d+)', r.out)[-1])
        p = path_to(nodes, data['roots'], bad)
        root = nodes[p[0] - 1]
        h = ['capacity %d; op numbers: reply codes as in the header files' % root[1]]
        h += [fmt(nodes[i - 1]) for i in p[1:]]
        raise Violation('%s: the real code does something the specification does not allow in step %d (%s)'
                        % (name, len(p) - 1, NAMES[nodes[bad - 1][0]]),
                        '\n'.join(h[:1] + h[-60:]) + '\n\nTLC:\n' + cex_text(r.out)[-5000:], [sf])
    if r.violated:
        raise CheckError('SeqTrace: %s\n%s' % (r.violated, cex_text(r.out)))
    if r.states != len(nodes):
        raise CheckError('%s: TLC visited %d of %d recorded steps' % (name, r.states, len(nodes)))
    leaves = [i for i, x in enumerate(nodes, 1) if x[11] == 0]
    ops = {}
    for x in nodes:
        ops[NAMES[x[0]]] = ops.get(NAMES[x[0]], 0) + 1
    c.part('conformance ' + name, states=r.states, transitions=r.states - len(data['roots']),
           traces_validated_against_impl=len(leaves), seconds=round(r.dt + dt, 1),
           scenarios=len(scenarios), operations=ops)
    if leaves:
        p = path_to(nodes, data['roots'], leaves[(len(leaves) * 2) // 3])
        c.sample('%s: capacity %d: ' % (name, nodes[p[0] - 1][1])
                 + '; '.join(fmt(nodes[i - 1]).split('  observed')[0] for i in p[1:8]))
    os.unlink(tf)
