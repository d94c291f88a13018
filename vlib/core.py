"""Shared machinery: building variants of the toolchain from /repo's working
tree, running things under limits, case pools, verdicts and evidence."""
import fcntl
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NCPU = max(1, min(8, os.cpu_count() or 1))

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- building
SRC_PARTS = ['Makefile', 'src', 'include', 'libsrc', 'examples']


def _source_files():
    out = []
    for part in SRC_PARTS:
        p = os.path.join(REPO, part)
        if os.path.isfile(p):
            out.append(part)
            continue
        for root, dirs, files in os.walk(p):
            rel = os.path.relpath(root, REPO)
            dirs[:] = sorted(d for d in dirs
                             if not (rel == 'libsrc' and d in ('obj', 'tests')) and
                             not (rel == 'src/wcc' and d == 'www'))
            for f in sorted(files):
                if f.endswith(('.c', '.h', '.inc')) or f == 'Makefile':
                    out.append(os.path.join(rel, f))
    return sorted(out)


_hash = None


def source_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in _source_files():
            h.update(f.encode() + b'\0')
            with open(os.path.join(REPO, f), 'rb') as fp:
                h.update(fp.read())
            h.update(b'\0')
        _hash = h.hexdigest()[:16]
    return _hash


SAN = '-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment'
MODULE_ENV = {k: v for k, v in os.environ.items()
              if not k.startswith(('MAKE', 'MFLAGS', 'VP_'))}
MODULE_ENV['LC_ALL'] = 'C.UTF-8'
MODULE_ENV['CC'] = 'gcc'


def _make(d, *args, what=''):
    r = subprocess.run(['make', '-s', '-j%d' % NCPU, *args], cwd=d, env=MODULE_ENV,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        raise BuildFailed('make %s failed in variant %s:\n%s' % (
            ' '.join(args), what, r.stdout.decode('utf-8', 'replace')[-3000:]))


class BuildFailed(HarnessError):
    pass


def build(variant):
    """Builds (or finds) a variant of the toolchain; returns its directory."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, variant + '-' + source_hash())
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, '.done')):
            return d
        for old in os.listdir(BUILD):
            if old.startswith(variant + '-') and len(old) == len(variant) + 17:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.makedirs(d)
        for f in _source_files():
            dst = os.path.join(d, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
        opt = 'OPTIMIZE=-O1 -w'
        if variant == 'x64':
            _make(d, opt, 'exes', what=variant)
            _make(d, opt, 'libs', what=variant)
        elif variant == 'asan':
            # xcc tool chain instrumented; target libraries from the plain build
            x = build('x64')
            _make(d, 'OPTIMIZE=' + SAN, 'LDFLAGS=-fsanitize=address,undefined', 'exes', what=variant)
            shutil.copytree(os.path.join(x, 'lib'), os.path.join(d, 'lib'))
        elif variant == 'wcc':
            _make(d, opt, 'wcc', what=variant)
        elif variant == 'wccasan':
            x = build('wcc')
            # 'make wcc' also makes the libraries with the instrumented compiler
            env = dict(os.environ)
            os.environ['ASAN_OPTIONS'] = 'detect_leaks=0'
            MODULE_ENV['ASAN_OPTIONS'] = 'detect_leaks=0'
            try:
                _make(d, 'OPTIMIZE=' + SAN, 'LDFLAGS=-fsanitize=address,undefined', 'wcc', what=variant)
            finally:
                MODULE_ENV.pop('ASAN_OPTIONS', None)
                os.environ.clear()
                os.environ.update(env)
        elif variant in ('riscv64', 'aarch64'):
            a = 'ARCHTYPE=' + variant
            _make(d, a, 'PLATFORM=posix', opt, 'exes', what=variant)
            _make(d, a, 'PLATFORM=posix', opt, 'libs', what=variant)
        elif variant in ('asan-riscv64', 'asan-aarch64'):
            _make(d, 'ARCHTYPE=' + variant[5:], 'PLATFORM=posix', 'OPTIMIZE=' + SAN, 'LDFLAGS=-fsanitize=address,undefined', 'exes', what=variant)
        elif variant == 'gen2':
            _make(d, opt, 'exes', what=variant)
            _make(d, opt, 'libs', what=variant)
            _make(d, opt, 'HOST=', 'TARGET=gen2', 'self-hosting', what=variant)
        else:
            raise HarnessError('unknown variant ' + variant)
        open(os.path.join(d, '.done'), 'w').close()
    return d


def build_tool(name, sources, flags=('-O2', '-w')):
    """Builds a helper of our own (emulators etc.) from /verif sources."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(VERIF, s) for s in sources]
    h = hashlib.sha256(repr(flags).encode())
    for s in srcs:
        h.update(open(s, 'rb').read())
    out = os.path.join(BUILD, 'tool-%s-%s' % (name, h.hexdigest()[:12]))
    with open(os.path.join(BUILD, 'tool-%s.lock' % name), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp'
            cs = [s for s in srcs if s.endswith('.c')]
            r = subprocess.run(['gcc', *flags, '-o', tmp, *cs, '-lm'], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise HarnessError('cannot build %s: %s' % (name, r.stdout.decode()[-2000:]))
            os.rename(tmp, out)
    return out


# ---------------------------------------------------------------- running
class Res:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def sig(self):
        return -self.rc if self.rc is not None and self.rc < 0 else 0

    def brief(self):
        if self.timeout:
            return 'timeout'
        s = 'exit %d' % self.rc if self.rc >= 0 else 'signal %d' % -self.rc
        return s


BASE_ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
            'HOME': '/tmp', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}


def default_signals():
    """Undo what the caller may have ignored or blocked (nohup, background jobs)."""
    for s in range(1, 32):
        if s not in (signal.SIGKILL, signal.SIGSTOP):
            signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


def _limits(mem, fsize):
    def f():
        default_signals()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setpgid(0, 0)
    return f


def run(cmd, timeout=20, input=None, cwd=None, env=None, mem=None, fsize=256 << 20,
        merge=False, maxout=None):
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e,
                         stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         preexec_fn=_limits(mem, fsize))
    try:
        out, err = p.communicate(input, timeout=timeout)
        return Res(p.returncode, out, err or b'')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.kill()
        try:
            out, err = p.communicate(timeout=5)
        except Exception:
            out, err = b'', b''
        return Res(-9, out, err or b'', True)


def run2(cmd, timeout=20, **kw):
    """Like run, but a timeout is confirmed by a second, longer run."""
    r = run(cmd, timeout=timeout, **kw)
    if r.timeout:
        r = run(cmd, timeout=timeout * 3, **kw)
    return r


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH):
        SCRATCH = tempfile.mkdtemp(prefix='xccverif-')
    return SCRATCH


def drop_scratch():
    global SCRATCH
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


# ---------------------------------------------------------------- cases
class Violation:
    """what: one line; files: {name: bytes|str} that let a reader replay it."""

    def __init__(self, what, files=None, key=None):
        self.what, self.files, self.key = what, files or {}, key or what


class CaseResult:
    def __init__(self):
        self.violations = []
        self.evals = 0            # oracle decisions made
        self.events = 0           # events observed
        self.distinct = set()     # signatures of distinct non-trivial cases
        self.sample = None
        self.inconclusive = 0
        self.counts = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, what, files=None, key=None):
        self.violations.append(Violation(what, files, key))


def _case_entry(a):
    fn, arg = a
    wd = tempfile.mkdtemp(prefix='c', dir=SCRATCH_PARENT)
    try:
        return ('ok', fn(arg, wd))
    except Exception:
        return ('err', traceback.format_exc() + '\ncase: %r' % (arg,))
    finally:
        shutil.rmtree(wd, ignore_errors=True)


SCRATCH_PARENT = None


def pmap(fn, args, stop_after=6, procs=None):
    """Runs fn(arg, workdir) over args in processes; yields results in order.
    Stops early once a few violations were collected."""
    global SCRATCH_PARENT
    SCRATCH_PARENT = scratch()
    args = list(args)
    out = []
    bad = 0
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs or NCPU) as pool:
        for st, r in pool.imap_unordered(_case_entry, [(fn, a) for a in args], chunksize=1):
            if st == 'err':
                pool.terminate()
                raise HarnessError(r)
            out.append(r)
            bad += len(r.violations)
            if bad >= stop_after:
                pool.terminate()
                break
    return out


# ---------------------------------------------------------------- verdicts
def load_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f.get('status') == 'known']


class Check:
    def __init__(self, prop, level='exploration', rule='', assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier, self.seed = TIER, SEED
        self.evals = self.events = self.inconclusive = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known_hit = {}

    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def rng(self, *salt):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, '/'.join(map(str, salt))))

    def add(self, r):
        self.evals += r.evals
        self.events += r.events
        self.inconclusive += r.inconclusive
        self.distinct |= r.distinct
        for k, v in r.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        if r.sample is not None and len(self.samples) < 4:
            self.samples.append(r.sample)
        for v in r.violations:
            self.violation(v)

    def violation(self, v):
        for f in load_findings():
            if f['property'] == self.prop and f['key'] == v.key:
                self.known_hit[f['key']] = f
                return
        self.violations.append(v)

    def run_cases(self, fn, args, **kw):
        for r in pmap(fn, args, **kw):
            self.add(r)

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct),
               'rule': self.rule, 'samples': self.samples[:4],
               'observed_events': self.events, 'inconclusive': self.inconclusive}
        cov.update({'n_' + k: v for k, v in sorted(self.counts.items())})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + '.tmp', p)

    def finish(self, min_evals=1):
        self.write_evidence()
        for k, f in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        code = 0
        base = os.path.join(VERIF, '.replay', self.prop)
        shutil.rmtree(base, ignore_errors=True)
        if self.violations:
            code = 1
            for i, v in enumerate(self.violations[:6]):
                d = os.path.join(base, '%02d' % i)
                os.makedirs(d)
                with open(os.path.join(d, 'what.txt'), 'w') as f:
                    f.write('property %s seed %d tier %s\n%s\n' % (self.prop, self.seed, self.tier, v.what))
                for name, data in v.files.items():
                    if isinstance(data, str):
                        data = data.encode('utf-8', 'surrogateescape')
                    os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
                    with open(os.path.join(d, name), 'wb') as f:
                        f.write(data)
                if i < 4:
                    print('  ' + v.what[:600].replace('\n', '\n  '))
                    print('VIOLATION property=%s replay=%s' % (self.prop, d))
        elif self.evals < min_evals:
            print('check observed too little: %d evaluations' % self.evals, file=sys.stderr)
            code = 2
        print('%s %s: %d evaluations, %d distinct, %d events, %d inconclusive, %d violations, %.1f s' % (
            self.prop, self.tier, self.evals, len(self.distinct), self.events, self.inconclusive,
            len(self.violations), time.time() - self.t0))
        drop_scratch()
        return code
