"""Shared machinery of every check: building the code under test, running drivers, verdicts, evidence."""
import hashlib, json, os, random, re, resource, signal, subprocess, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
KNOWN = os.path.join(ROOT, 'known_findings.json')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:'
                    'malloc_fill_byte=190:max_malloc_fill_size=4096:allocator_may_return_null=1:'
                    'hard_rss_limit_mb=6000:handle_abort=1:strict_string_checks=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:second_deadlock_stack=1',
    'MSAN_OPTIONS': 'abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1',
    'TZ': 'UTC', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
}


class HarnessError(Exception):
    pass


def build(variant='asan', cc=None):
    """compile /repo's current working tree; returns the output folder"""
    out = os.path.join(BUILD, variant + ('' if not cc else '-' + cc))
    env = dict(os.environ, REPO=REPO)
    if cc:
        env['CC'] = cc
    p = subprocess.run(['bash', os.path.join(ROOT, 'lib/build.sh'), out, variant], env=env,
                       capture_output=True, text=True)
    if p.returncode:
        raise HarnessError('build of %s failed:\n%s\n%s' % (variant, p.stdout[-3000:], p.stderr[-3000:]))
    return out


def link(out, src, name, extra=(), cc=None):
    """compile a driver of /verif/src against the library built in @out"""
    exe = os.path.join(out, name)
    flags = open(os.path.join(out, 'cflags')).read().split()
    cmd = [cc or 'gcc'] + flags + ['-I' + os.path.join(ROOT, 'src'), os.path.join(ROOT, 'src', src),
                                   os.path.join(out, 'libmidori.a'), '-Wl,--as-needed', '-lm', '-lfl', '-lpthread', '-o', exe] + list(extra)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise HarnessError('link of %s failed:\n%s' % (name, p.stderr[-3000:]))
    return exe


def pair(src, name):
    """[driver with ASan/UBSan (three times), driver with MemorySanitizer]; without the latter if clang can't compile the tree"""
    a = link(build('asan'), src, name)
    try:
        m = link(build('msan'), src, name, (os.path.join(ROOT, 'src/msanwrap.c'), '-Wl,--wrap=regexec'), cc='clang')
    except HarnessError:
        m = a
    return [a, a, a, m]


def derive(*parts):
    """a seed that depends on nothing but its parts"""
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def _limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    return f


class Run:
    __slots__ = ('events', 'rc', 'stderr', 'timeout', 'done')


# Names that are words of the language, or of the items the parser hands to the syntax tree, have to be quoted in a
# statement. Everywhere in the generators and oracles the name `select` is written Kwq5Zt_select; the quotes come and go here.
KW = re.compile(rb'`?\bKwq5Zt_(\w+)\b`?')


def _quote(lines):
    """(lines for the driver, words that are used as names)"""
    words, out = set(), []
    for l in lines:
        if '4b7771355a745f' in l:
            parts = l.split(' ')
            for i, x in enumerate(parts):
                if '4b7771355a745f' in x and len(x) % 2 == 0:
                    try:
                        b = bytes.fromhex(x)
                    except ValueError:
                        continue
                    words |= {m.group(1).decode() for m in KW.finditer(b)}
                    parts[i] = KW.sub(rb'`\1`', b).hex()
            l = ' '.join(parts)
        elif 'Kwq5Zt_' in l:
            l = l.replace('Kwq5Zt_', '')
        out.append(l)
    return out, words


def run_driver(exe, lines, env=None, cpu=60, wall=240, args=()):
    """feed a script to a driver, parse its event log. A run that exceeds its limits is repeated once."""
    lines, words = _quote(lines)
    back = re.compile(r'(?<!\w)(%s)(?!\w)' % '|'.join(sorted(words))) if words else None
    data = ('\n'.join(lines) + '\n').encode()
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    for attempt in (0, 1):
        r = Run()
        r.timeout = False
        try:
            p = subprocess.run([exe] + list(args), input=data, capture_output=True, env=e, timeout=wall * (1 + attempt),
                               preexec_fn=_limits(cpu * (1 + attempt)))
            r.rc, out, err = p.returncode, p.stdout, p.stderr
            if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
                r.timeout = True
        except subprocess.TimeoutExpired as x:
            r.timeout = True
            r.rc, out, err = -9, x.stdout or b'', x.stderr or b''
        if not r.timeout:
            break
    r.stderr = err.decode('latin1')
    r.events = []
    r.done = False
    for l in out.decode('latin1').split('\n'):
        if not l:
            continue
        try:
            ev = json.loads(l)
        except ValueError:
            break
        if 'end' in ev and 'n' not in ev:
            r.done = True
            break
        if back and 'cols' in ev:
            for c in ev['cols']:
                c[0] = back.sub(r'Kwq5Zt_\1', bytes.fromhex(c[0]).decode('latin1')).encode('latin1').hex()
        r.events.append(ev)
    return r


def crash_summary(r):
    """one line, without addresses, that names how the process ended"""
    if r.timeout:
        return 'hang: no end within the limits (twice)'
    t = r.stderr
    pats = [r'(BUG_ON: \S+)', r'(BUG[^\n]*)', r'(SUMMARY: [^\n]*)', r'(runtime error: [^\n]*)',
            r'(ERROR: \w+Sanitizer: [^\n]*)', r'(WARNING: ThreadSanitizer: [^\n]*)']
    got = []
    for p in pats:
        m = re.search(p, t)
        if m:
            s = re.sub(r'0x[0-9a-f]+|==\d+==|pid=\d+|\(pc [^)]*\)', '', m.group(1))
            got.append(s.replace(REPO + '/', ''))
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) (?:%s/|\S*/)?(\S+?:\d+)' % re.escape(REPO), t)[:4]
    s = ' | '.join(got[:2]) if got else 'process ended with status %s' % r.rc
    if fr:
        s += ' @ ' + ' < '.join('%s' % f[0] for f in fr)
    return s[:400]


def died(r):
    return not r.done or r.rc != 0


class Violation:
    def __init__(self, key, msg, replay=None):
        self.key, self.msg, self.replay = key, msg, replay


class Tally(dict):
    """counters that merge across workers"""
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def merge(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


class Result:
    """what one work unit observed (picklable)"""
    def __init__(self):
        self.evals = 0
        self.sigs = set()          # signatures of distinct, non-trivial observations
        self.tally = Tally()
        self.samples = []
        self.viol = []             # (key, msg, replay-dict)

    def sig(self, *parts):
        self.sigs.add(hashlib.md5(repr(parts).encode()).digest()[:8])

    def violation(self, key, msg, replay=None):
        if len(self.viol) < 20:
            self.viol.append((key, msg, replay))

    def merge(self, o):
        self.evals += o.evals
        self.sigs |= o.sigs
        self.tally.merge(o.tally)
        if len(self.samples) < 4:
            self.samples += o.samples[:4 - len(self.samples)]
        self.viol += o.viol


def load_known():
    try:
        return json.load(open(KNOWN))['findings']
    except FileNotFoundError:
        return []


def _call(fn, args):
    try:
        return fn(*args)
    except Exception:
        r = Result()
        r.tally.add('harness_errors')
        r.harness = traceback.format_exc()
        return r


class Check:
    def __init__(self, pid, tier, level='exploration'):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.res = Result()
        self.assumptions = []
        self.harness = []

    def quick(self):
        return self.tier == 'quick'

    def pick(self, q, t):
        return q if self.quick() else t

    def run_units(self, fn, units, stop_after=3, budget=None):
        """fn(*unit) -> Result, in worker processes. Units are fixed by the seed alone; the wall-clock budget only
        protects against machines far slower than the one the counts were chosen on."""
        budget = budget or self.pick(500, 6 * 3600)
        n = 0
        with ProcessPoolExecutor(JOBS) as ex:
            pend = {}
            it = iter(units)
            stop = False
            while True:
                while not stop and len(pend) < JOBS * 2:
                    try:
                        u = next(it)
                    except StopIteration:
                        stop = True
                        break
                    pend[ex.submit(_call, fn, u)] = u
                if not pend:
                    break
                for f in as_completed(list(pend)):
                    pend.pop(f)
                    r = f.result()
                    if hasattr(r, 'harness'):
                        self.harness.append(r.harness)
                    self.res.merge(r)
                    n += 1
                    break
                if len({v[0] for v in self.unknown()}) >= stop_after or len(self.harness) >= 3:
                    stop = True
                if time.time() - self.t0 > budget:
                    if not stop:
                        self.res.tally.add('units_cut_by_budget')
                    stop = True
        self.res.tally.add('work_units', n)

    def known_for(self, key):
        for k in load_known():
            if k.get('status') == 'open' and k['property'] == self.pid and re.search(k['match'], key):
                return k
        return None

    def unknown(self):
        return [v for v in self.res.viol if not self.known_for(v[0])]

    def finish(self, rule):
        """evidence, verdict lines and exit status"""
        viol, seen = [], set()
        for key, msg, rep in self.res.viol:
            k = self.known_for(key)
            if k:
                if k['id'] not in seen:
                    seen.add(k['id'])
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                continue
            viol.append((key, msg, rep))
        if self.harness and not viol:
            sys.stderr.write(self.harness[0])
            print('HARNESS-ERROR in %s' % self.pid)
            sys.exit(3)
        if not viol and not self.res.evals:
            viol.append(('nothing-observed', 'not a single observation of the property could be made: ' +
                         json.dumps(self.res.tally), None))
        cov = {'evaluations': self.res.evals, 'distinct_nontrivial': len(self.res.sigs), 'rule': rule,
               'samples': self.res.samples[:4] or ['(none)'], 'observed': dict(sorted(self.res.tally.items()))}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs; observed %s' % (
            self.pid, self.tier, self.seed, self.res.evals, len(self.res.sigs), time.time() - self.t0,
            json.dumps(dict(sorted(self.res.tally.items())))))
        if not viol:
            sys.exit(0)
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        done = set()
        for i, (key, msg, rep) in enumerate(viol):
            if key in done or len(done) >= 5:
                continue
            done.add(key)
            path = os.path.join(rd, '%s-%d.json' % (self.pid, len(done)))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key, 'message': msg, 'seed': self.seed, 'replay': rep}, f, indent=1, default=lambda o: o.decode('latin1') if isinstance(o, bytes) else repr(o))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  [%s] %s' % (key, msg[:1500]))
        sys.exit(1)
