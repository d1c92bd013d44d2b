"""Machinery shared by all checks: build drivers, run TLC, validate traces, report."""
import os, sys, re, json, resource, time, hashlib, subprocess, shutil, threading, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TLA = '/opt/veriftools/tla'
JARS = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
CXX = 'clang++'
CXXFLAGS = ['-std=c++14', '-O0', '-g0', '-w', '-D_DEBUG', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,bool,enum',
            '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern']


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


class Rejected(Exception):
    def __init__(self, what, path=None):
        super().__init__(what)
        self.what, self.path = what, path


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


_lock = threading.Lock()
_rat = None


def rat_dir():
    """Directory with the compiled module override."""
    global _rat
    with _lock:
        if _rat:
            return _rat
        src = os.path.join(VERIF, 'tools', 'Rat.java')
        d = os.path.join(BUILD, 'rat-' + sha(open(src, 'rb').read()))
        if not os.path.exists(os.path.join(d, 'Rat.class')):
            tmp = d + '.tmp%d' % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            r = subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', tmp, src],
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError('javac failed: ' + r.stderr)
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        _rat = d
        return d


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = sha(tree_hash(os.path.join(REPO, 'include'), ('.h', '.hpp', '.ipp')),
                         tree_hash(os.path.join(REPO, 'src'), ('.cpp', '.h')),
                         tree_hash(os.path.join(REPO, 'examples'), ('.cpp', '.h')))
    return _repo_hash


REPO_SRCS = ['PerTypeStorage.cpp', 'OpaqueTickCounter.cpp', 'TimerCalibrator.cpp', 'reg_ode_solvers.cpp']


def _cc(src, key, extra=()):
    """Compile one source file to an object, cached by content."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.tmp%d_%d' % (os.getpid(), threading.get_ident())
        cmd = [CXX] + CXXFLAGS + list(extra) + ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'examples', 'odexec'),
                                    '-I', os.path.join(VERIF, 'drivers'), '-c', src, '-o', tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('compilation failed: %s\n%s' % (' '.join(cmd), r.stderr[-6000:]))
        os.rename(tmp, obj)
    return obj


_build_locks = {}


def build_driver(name):
    """Compile drivers/<name>.cpp against the current /repo tree; returns the binary."""
    with _lock:
        lk = _build_locks.setdefault(name, threading.Lock())
    with lk:
        return _build_driver(name)


def _build_driver(name):
    src = os.path.join(VERIF, 'drivers', name + '.cpp')
    drv = tree_hash(os.path.join(VERIF, 'drivers'), ('.h',))
    base = sha(repo_hash(), CXX, ' '.join(CXXFLAGS))
    f = re.search(r'^// flags: (.*)$', open(src).read(), re.M)
    srcs = [(src, sha(base, drv, open(src, 'rb').read()), tuple(f.group(1).split()) if f else ())]
    m = re.search(r'^// link: (.*)$', open(src).read(), re.M)
    for n in (m.group(1).split() if m else []):
        p = os.path.join(VERIF, 'drivers', n + '.cpp')
        srcs.append((p, sha(base, drv, open(p, 'rb').read())))
    for s in REPO_SRCS:
        p = os.path.join(REPO, 'src', s)
        if os.path.exists(p):
            srcs.append((p, sha(base, open(p, 'rb').read())))
    key = sha(*[x[1] for x in srcs])
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    exe = os.path.join(BUILD, 'bin', name + '-' + key)
    if os.path.exists(exe):
        return exe
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda sk: _cc(*sk), srcs))
    tmp = exe + '.tmp%d' % os.getpid()
    r = subprocess.run([CXX, '-fsanitize=address,bool,enum', '-o', tmp] + objs + ['-pthread'], capture_output=True, text=True)
    if r.returncode:
        raise CheckError('link failed: ' + r.stderr[-4000:])
    os.rename(tmp, exe)
    return exe


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def run_tlc(spec, cfg, env=None, workers=1, extra=(), timeout=600, heap='3g'):
    """Run TLC on spec/<spec>.tla with configuration spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=os.path.join(BUILD))
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-cp', JARS + ':' + rat_dir(), 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [spec + '.tla']
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        rc = -99
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.rc, res.out, res.wall = rc, out, time.time() - t0
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    res.timeout = rc == -99
    res.ok = rc == 0 and 'Model checking completed. No error has been found.' in out
    return res


def model_check(spec, cfg, workers=4, timeout=600, env=None, expect_violation=None):
    """Exhaustive check of a design model; any error is an error of the check, not of the code."""
    r = run_tlc(spec, cfg, workers=workers, timeout=timeout, env=env, heap='6g')
    if expect_violation:
        if expect_violation not in r.out:
            raise CheckError('%s/%s: expected violation of %s was not found\n%s' % (spec, cfg, expect_violation, r.out[-3000:]))
    elif not r.ok:
        raise CheckError('model check of %s with %s failed (rc=%s)\n%s' % (spec, cfg, r.rc, r.out[-5000:]))
    return r


def generate(spec, cfg, num, depth, seed, timeout=300, marker='SCN '):
    """Behaviours of a specification by TLC simulation: the JSON texts it prints after `marker`."""
    # num = 0: every behaviour (model checking) instead of a random sample
    extra = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)] if num else []
    r = run_tlc(spec, cfg, extra=extra, timeout=timeout)
    if r.rc != 0:
        raise CheckError('generation with %s/%s failed\n%s' % (spec, cfg, r.out[-4000:]))
    res = []
    for ln in r.out.splitlines():
        i = ln.find(marker)
        if i >= 0:
            t = ln[i + len(marker):].rstrip()
            if t.endswith('"') and ln.startswith('"'):
                t = t[:-1]
            t = t.replace('\\"', '"')
            res.append(t)
    if not res:
        raise CheckError('generation with %s/%s printed no behaviour\n%s' % (spec, cfg, r.out[-3000:]))
    return res, r


# ---------------------------------------------------------------- traces

MAX_TRACE = 30 << 20


def _limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 * MAX_TRACE, 4 * MAX_TRACE))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(exe, out, args, timeout=120, stdin=None, cwd=None):
    """Run a driver that writes the trace file `out`; a crash or hang becomes an event of the trace."""
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    for f in (out,):
        if os.path.exists(f):
            os.remove(f)
    scratch = cwd or tempfile.mkdtemp(prefix='run-', dir=BUILD)
    try:
        with open(out + '.log', 'w') as lg:
            try:
                r = subprocess.run([exe, out] + [str(a) for a in args], stdout=lg, stderr=subprocess.STDOUT,
                                   env=e, timeout=timeout, cwd=scratch, stdin=subprocess.DEVNULL, preexec_fn=_limits)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
    finally:
        if not cwd:
            shutil.rmtree(scratch, ignore_errors=True)
    if rc != 0:
        data = open(out, errors='replace').read(MAX_TRACE) if os.path.exists(out) else ''
        if data and not data.endswith('\n'):
            data = data[:data.rfind('\n') + 1]
        data += json.dumps(dict(e='abort', rc=str(rc))) + '\n'
        with open(out, 'w') as f:
            f.write(data)
    return rc


def trace_lines(path):
    with open(path) as f:
        return [l for l in f if l.strip()]


def validate(spec, cfg, path, timeout=600, extra_env=None):
    """Does TLC accept the trace?  Returns (accepted, reached, total, result)."""
    env = {'TRACE': path}
    env.update(extra_env or {})
    r = run_tlc(spec, cfg, env=env, timeout=timeout)
    total = len(trace_lines(path))
    m = re.findall(r'"REACHED", (-?\d+)', r.out)
    reached = int(m[-1]) if m else None
    if r.ok:
        return True, total, total, r
    if r.timeout:
        raise CheckError('TLC timed out on %s' % path)
    if reached is None:
        # evaluation error or invariant violation while reading the trace: take the last state printed
        ls = re.findall(r'/\\ l = (\d+)', r.out)
        if not ls:
            raise CheckError('TLC failed on %s with %s:\n%s' % (path, spec, r.out[-5000:]))
        reached = int(ls[-1]) - 1
    return False, reached, total, r


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = self.scenarios = 0
        self.samples, self.notes, self.actions = [], [], {}
        self.lock = threading.Lock()
        self.dir = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.violations = []
        self.models = []
        self.gen_behaviours = 0

    # -- pieces
    def model(self, spec, cfg, **kw):
        r = model_check(spec, cfg, **kw)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append(dict(spec=spec, cfg=cfg, states=r.distinct, generated=r.generated, wall_s=round(r.wall, 1)))
        log('  model %s/%s: %d distinct states, %d generated, %.1fs' % (spec, cfg, r.distinct, r.generated, r.wall))
        return r

    def gen(self, spec, cfg, num, depth, seed=None, name='scn', **kw):
        res, r = generate(spec, cfg, num, depth, SEED if seed is None else seed, **kw)
        p = os.path.join(self.dir, name + '.scn')
        with open(p, 'w') as f:
            for t in res:
                f.write(t + '\n')
        with self.lock:
            self.gen_behaviours += len(res)
        log('  generated %d behaviours with %s/%s, %.1fs' % (len(res), spec, cfg, r.wall))
        return p

    def trace(self, name, driver, args, spec, cfg=None, timeout=120, tlc_timeout=600, env=None):
        """Run the driver and validate its trace; on rejection repeat before reporting."""
        exe = build_driver(driver)
        cfg = cfg or spec + '.cfg'
        path = os.path.join(self.dir, name + '.ndjson')
        rc = run_driver(exe, path, args, timeout)
        lines = trace_lines(path)
        if not lines:
            raise CheckError('driver %s %s wrote no trace' % (driver, args))
        ok, reached, total, r = validate(spec, cfg, path, tlc_timeout, env)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.events += total
        if ok:
            scn = sum(1 for l in lines if '"e":"scenario"' in l)
            with self.lock:
                self.traces += max(1, scn)
                if len(self.samples) < 6:
                    self.samples.append(dict(trace=name, events=total, first=[json.loads(l) for l in lines[:3]]))
                for l in lines:
                    m = re.match(r'\{"e":"([^"]*)"', l)
                    if m:
                        self.actions[m.group(1)] = self.actions.get(m.group(1), 0) + 1
            log('  trace %s: %d events, %d scenarios accepted, %.1fs' % (name, total, scn, r.wall))
            return True
        if rc == 'timeout':
            self.report(name, path, reached, spec, cfg, r, driver, args)
            return False
        # repeat
        again = os.path.join(self.dir, name + '.again.ndjson')
        run_driver(exe, again, args, timeout)
        ok2, reached2, total2, r2 = validate(spec, cfg, again, tlc_timeout, env)
        if ok2:
            again3 = os.path.join(self.dir, name + '.again3.ndjson')
            run_driver(exe, again3, args, timeout)
            ok3, reached2, total2, r2 = validate(spec, cfg, again3, tlc_timeout, env)
            if ok3:
                with self.lock:
                    self.notes.append('trace %s was rejected once at event %d and accepted twice when repeated' % (name, reached + 1))
                log('  NOTE: trace %s rejected once, accepted twice when repeated' % name)
                return True
            again, r = again3, r2
            reached = reached2
        else:
            reached, r = reached2, r2
        self.report(name, again, reached, spec, cfg, r, driver, args)
        return False

    def report(self, name, path, reached, spec, cfg, r, driver, args):
        lines = trace_lines(path)
        # cut out the scenario that contains the rejected event
        bad = min(reached, len(lines) - 1)
        start = bad
        while start > 0 and '"e":"scenario"' not in lines[start]:
            start -= 1
        d = os.path.join(VERIF, 'replays', '%s-%s-%d' % (self.prop, name, os.getpid()))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'trace.ndjson'), 'w') as f:
            f.writelines(lines[start:bad + 1])
        with open(os.path.join(d, 'tlc.out'), 'w') as f:
            f.write(r.out)
        with open(os.path.join(d, 'info.txt'), 'w') as f:
            f.write('property %s\nspecification spec/%s.tla, configuration %s\n' % (self.prop, spec, cfg))
            f.write('driver drivers/%s.cpp with arguments %s\n' % (driver, ' '.join(map(str, args))))
            f.write('the specification accepts the trace up to this event and rejects it:\n%s\n' % lines[bad].strip())
            if os.path.exists(path + '.log'):
                f.write('\noutput of the driver:\n' + open(path + '.log', errors='replace').read()[-6000:])
        with self.lock:
            self.violations.append((d, lines[bad].strip()))
        log('  REJECTED trace %s at event %d of %d: %s' % (name, bad + 1, len(lines), lines[bad].strip()[:1500]))

    def parallel(self, jobs, n=6):
        """Run callables in parallel; the first CheckError is raised after all have ended."""
        errs = []

        def go(j):
            try:
                j()
            except CheckError as x:
                errs.append(x)
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(go, jobs))
        if errs and not self.violations:
            raise errs[0]
        for x in errs:
            log('  NOTE:', str(x)[:2000])

    def finish(self, level='model_checking', assumptions=()):
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events,
                                behaviours_generated_by_tlc=self.gen_behaviours,
                                models=self.models, event_counts=self.actions,
                                samples=self.samples, notes=self.notes),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for d, _ in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)
        return 1 if self.violations else 0
