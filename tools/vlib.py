"""Shared machinery of the checks: build harnesses from /repo, run TLC, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


class CheckError(Exception):
    """The check itself could not decide (exit 2)."""


class Violation(Exception):
    """The real code did something the specification does not allow."""
    def __init__(self, what, detail='', files=(), key=None):
        super().__init__(what)
        self.what, self.detail, self.files, self.key = what, detail, list(files), key


def run(cmd, timeout, cwd=None, env=None, stdin=None):
    t = time.time()
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired as x:
        return 'timeout', (x.stdout or b'').decode('utf8', 'replace'), (x.stderr or b'').decode('utf8', 'replace'), time.time() - t


def run_quiet(cmd, timeout):
    """What the program prints is not kept, and of its error output only the end."""
    t = time.time()
    with tempfile.TemporaryFile() as f:
        try:
            rc = subprocess.run(cmd, timeout=timeout, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=f).returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        n = f.seek(0, 2)
        f.seek(max(0, n - 8000))
        return rc, f.read().decode('utf8', 'replace'), time.time() - t


CXX = ['g++', '-std=c++11', '-mcx16', '-w', '-I' + REPO + '/src', '-I' + HARN]


def compile_cxx(work, name, src, flags=(), libs=('-latomic', '-pthread'), opt='-O1', timeout=600):
    """Compile a harness translation unit against /repo's sources."""
    out = os.path.join(work, name)
    cmd = CXX + [opt] + list(flags) + [src, '-o', out] + list(libs)
    rc, so, se, _ = run(cmd, timeout)
    if rc != 0:
        raise CheckError('harness does not compile: %s\n%s' % (' '.join(cmd), (so + se)[-3000:]))
    return out


def compile_vrt(work, name, src, flags=(), opt='-O1'):
    """Compile a harness for the deterministic runtime: instrumented, linked with vrt."""
    o, v, out = (os.path.join(work, name + x) for x in ('.o', '_vrt.o', ''))
    for cmd in (CXX + [opt, '-fsanitize=thread'] + list(flags) + ['-c', src, '-o', o],
                ['g++', '-std=c++17', '-O2', '-c', os.path.join(HARN, 'vrt.cpp'), '-o', v],
                ['g++', o, v, '-o', out, '-latomic', '-pthread']):
        rc, so, se, _ = run(cmd, 600)
        if rc != 0:
            raise CheckError('harness does not compile: %s\n%s' % (' '.join(cmd), (so + se)[-3000:]))
    return out


class TLCResult:
    pass


def tlc(work, module, cfg, timeout=800, workers=8, deadlock=False, heap='10g', extra=(), simulate=None,
        dfid=None, env=None, jvm=()):
    """Run TLC on spec/<module>.tla with the configuration text `cfg`.

    Returns counts, and `violated` (the name of the violated invariant or
    property, None when it was accepted) with the counterexample text."""
    d = os.path.join(work, 'tlc_' + module + '_' + hashlib.md5((cfg + str(time.time())).encode()).hexdigest()[:8])
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    for f in os.listdir(work):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(work, f), d)
    with open(os.path.join(d, module + '.cfg'), 'w') as f:
        f.write(cfg)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d] + list(jvm) + ['-cp', TLAJAR, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE',
           '-config', module + '.cfg']
    if not deadlock:
        cmd += ['-deadlock']
    if simulate:
        cmd += ['-simulate', simulate]
    cmd += list(extra) + [module + '.tla']
    rc, so, se, dt = run(cmd, timeout, cwd=d, env=env)
    r = TLCResult()
    r.rc, r.out, r.err, r.dt, r.dir = rc, so, se, dt, d
    open(os.path.join(d, 'tlc.out'), 'w').write(so + '\n--- stderr\n' + se)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', so)
    r.generated, r.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r'Invariant (\S+) is violated', so) or re.search(r'Action property (\S+) is violated', so)
    r.violated = m.group(1) if m else None
    if not r.violated and re.search(r'Temporal properties were violated', so):
        r.violated = 'temporal'
    if not r.violated and rc == 13:
        r.violated = 'temporal'
    if not r.violated and deadlock and 'Deadlock reached' in so:
        r.violated = 'deadlock'
    shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
    if rc == 'timeout':
        raise CheckError('TLC timed out on %s after %ds (see %s/tlc.out)' % (module, dt, d))
    if rc != 0 and not r.violated:
        raise CheckError('TLC failed on %s (exit %s):\n%s\n%s' % (module, rc, so[-3500:], se[-1500:]))
    if rc == 0 and 'Model checking completed. No error has been found' not in so and not simulate:
        raise CheckError('TLC gave no verdict on %s:\n%s' % (module, so[-3000:]))
    return r


def cex_text(out, limit=12000):
    i = out.find('Error:')
    return out[i:i + limit] if i >= 0 else out[-limit:]


def cfg(spec='Spec', constants=None, invariants=(), properties=(), constraints=(), view=None, post=None,
        symmetry=None, action_constraints=(), alias=None):
    t = ['SPECIFICATION ' + spec]
    if constants:
        t.append('CONSTANTS')
        for k, v in constants.items():
            t.append('  %s = %s' % (k, v))
    for kw, xs in (('INVARIANT', invariants), ('PROPERTY', properties), ('CONSTRAINT', constraints),
                   ('ACTION_CONSTRAINT', action_constraints)):
        for x in xs:
            t.append('%s %s' % (kw, x))
    if view:
        t.append('VIEW ' + view)
    if alias:
        t.append('ALIAS ' + alias)
    if symmetry:
        t.append('SYMMETRY ' + symmetry)
    if post:
        t.append('POSTCONDITION ' + post)
    return '\n'.join(t) + '\n'


def known_findings():
    """Entries of KNOWN_FINDINGS: 'known: property=<id> key=<key> <text>' are reported, not alarmed on."""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def known_or_raise(c, key, body):
    """Run one recorded failing case: quiet when it no longer fails, a KNOWN-FINDING line when it does."""
    try:
        body()
    except Violation as v:
        t = known_findings().get((c.prop, key))
        if t is None:
            raise
        c.known.append(t)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.work = os.path.join(VERIF, '.work', prop + '_' + TIER)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], parts=[])
        self.assumptions = []
        self.violations = []
        self.known = []

    # --- coverage -------------------------------------------------------
    def part(self, name, **kw):
        """One thing that was explored: counts are summed into the totals."""
        self.cov['parts'].append(dict(name=name, **kw))
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            if k in kw:
                self.cov[k] += kw[k]
        print('  %-46s %s' % (name, ' '.join('%s=%s' % i for i in kw.items() if i[0] != 'exhaustive')), flush=True)

    def sample(self, x):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(x)

    # --- design-level model checking --------------------------------------
    def model(self, module, constants, invariants=(), properties=(), spec='Spec', timeout=600, **kw):
        r = tlc(self.work, module, cfg(spec, constants, invariants, properties,
                                       **{k: kw.pop(k) for k in list(kw) if k in ('view', 'constraints', 'symmetry', 'action_constraints')}),
                timeout=timeout, **kw)
        if r.violated:
            raise CheckError('the specification itself violates %s in %s %s:\n%s'
                             % (r.violated, module, constants, cex_text(r.out)))
        self.part('TLC %s %s' % (module, ' '.join('%s=%s' % i for i in constants.items())),
                  states=r.states, transitions=r.generated, seconds=round(r.dt, 1),
                  properties=list(invariants) + list(properties))
        return r

    def refuted(self, module, constants, invariants=(), properties=(), spec='Spec', timeout=300, **kw):
        """A model of a known defect must violate the property: the property is not vacuous."""
        r = tlc(self.work, module, cfg(spec, constants, invariants, properties,
                                       **{k: kw.pop(k) for k in list(kw) if k in ('view', 'constraints')}), timeout=timeout, **kw)
        if not r.violated:
            raise CheckError('%s %s does not violate %s: the property is vacuous' % (module, constants, list(invariants) + list(properties)))
        self.part('TLC %s refutes %s of a broken design %s' % (module, r.violated if r.violated != 'temporal' else properties[0], ' '.join('%s=%s' % i for i in constants.items())),
                  seconds=round(r.dt, 1))

    # --- finishing --------------------------------------------------------
    def evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level='model_checking',
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        if not self.cov['samples']:
            self.cov['samples'] = ['(the check stopped before a sample was taken)']
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def report(self, v):
        d = os.path.join(self.work, 'replay%d' % (len(self.violations) + 1))
        os.makedirs(d, exist_ok=True)
        for f in v.files:
            if os.path.exists(f):
                shutil.copy(f, d)
        path = os.path.join(d, 'violation.txt')
        with open(path, 'w') as f:
            f.write('property %s\n%s\n\n%s\n' % (self.prop, v.what, v.detail))
        self.violations.append(v)
        print(v.what)
        print((v.detail or '')[:4000])
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def clean(self):
        for f in os.listdir(self.work):
            if not f.startswith('replay'):
                p = os.path.join(self.work, f)
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def main(prop, body):
    """Run a check body; a violation is only reported when a second run repeats it."""
    c = Check(prop)
    print('%s (%s, seed %d)' % (prop, TIER, SEED), flush=True)
    rc = 0
    try:
        try:
            body(c)
        except Violation as v:
            print('a difference was found; repeating the run to confirm it', flush=True)
            c2 = Check(prop)
            try:
                body(c2)
            except Violation as v2:
                c = c2
                c.report(v2)
                rc = 1
            else:
                raise CheckError('a difference was not repeated: ' + v.what + '\n' + v.detail[:3000])
        for k in c.known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        c.evidence()
    except CheckError as x:
        print('CHECK ERROR: %s' % x)
        c.evidence()
        return 2
    if rc == 0:
        c.clean()
        print('%s holds on everything explored (%.1f s)' % (prop, time.time() - c.t0))
    return rc
