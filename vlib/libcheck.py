"""Library checks: one harness source, built with xcc (library under test) and with the host compiler (reference)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
from . import core

H = os.path.join(core.VERIF, 'harness')


class Both:
    def __init__(self, src, xflags=(), gflags=()):
        self.src = os.path.join(H, src)
        self.x = core.build('x64')
        d = core.scratch()
        self.tested = os.path.join(d, 'tested-' + src[:-2])
        self.cmd = [self.tested]
        r = core.run([os.path.join(self.x, 'xcc'), *xflags, '-o', self.tested, self.src], cwd=d, env={'TMPDIR': d})
        if r.rc != 0:
            raise core.BuildFailed('xcc cannot build harness %s: %s' % (src, r.err.decode('utf-8', 'replace')[-1500:]))
        self.ref = core.build_tool('ref-' + src[:-2], ['harness/' + src], flags=('-O1', '-w', '-fno-builtin', '-D_GNU_SOURCE', *gflags))


class EmuBoth:
    """The harness built for another architecture and run by its emulator."""
    def __init__(self, src, tg):
        d = core.scratch()
        self.tested = os.path.join(d, 'tested-%s-%s' % (tg.name, src[:-2]))
        r = core.run([tg.xcc, '-o', self.tested, os.path.join(H, src)], cwd=d, env={'TMPDIR': d})
        if r.rc != 0:
            raise core.BuildFailed('xcc cannot build harness %s: %s' % (src, r.err.decode('utf-8', 'replace')[-1500:]))
        self.cmd = [tg.emu, self.tested]
        self.ref = core.build_tool('ref-' + src[:-2], ['harness/' + src], flags=('-O1', '-w', '-fno-builtin', '-D_GNU_SOURCE'))


def compare(res, both, wd, data, descr, seed, what, two=False, timeout=60, args=(), equal=None):
    """Feeds the same cases to both programs; every case gives one line (two: a leading one holding printf's own output)."""
    a = core.run2([*both.cmd, *args], input=data, cwd=wd, timeout=timeout)
    b = core.run([both.ref, *args], input=data, cwd=wd, timeout=timeout)
    if b.rc != 0 or b.timeout:
        raise core.HarnessError('reference run of %s failed: %s' % (what, b.brief()))
    files = {'input.txt': data, 'expected.txt': b.out, 'got.txt': a.out}
    if a.timeout:
        res.bad('%s seed=%s: does not end' % (what, seed), files)
        return False

    def split(o):
        if not two:
            return o.split(b'\n')
        return o.split(b'\n')
    xa, xb = split(a.out), split(b.out)
    res.evals += len(descr)
    res.events += len(xa)
    if a.rc != 0 or (xa != xb and equal is None) or equal is not None:
        if a.rc != 0 or len(xa) != len(xb) or equal is None:
            i = next((i for i, (p, q) in enumerate(zip(xa, xb)) if p != q), min(len(xa), len(xb)))
            n = len(descr)
            k = case_of(xb, i) if two else i
            res.bad('%s seed=%s: %s: %s, expected %s%s' % (
                what, seed, descr[min(k, n - 1)], show(xa, i), show(xb, i), '' if a.rc == 0 else ' (%s)' % a.brief()), files)
            return False
        for i, (p, q) in enumerate(zip(xa, xb)):
            if p != q and not equal(i, p, q):
                res.bad('%s seed=%s: %s: %s, expected %s' % (what, seed, descr[min(i, len(descr) - 1)], show(xa, i), show(xb, i)), files)
                return False
    if res.sample is None and descr:
        res.sample = {'case': descr[0][:200], 'lines': len(xa)}
    return True


def case_of(lines, i):
    """Index of the case that wrote line i when printf's own output is interleaved."""
    k = -1
    for j in range(min(i + 1, len(lines))):
        f = lines[j].split(b' ')
        if len(f) == 5 and f[0].lstrip(b'-').isdigit() and f[3].isdigit():
            k = k + 1 if j < i else k + 1
    return max(k, 0)


def show(x, i):
    if i >= len(x):
        return '<nothing>'
    f = x[i].split(b' ')
    if len(f) == 5:
        try:
            return 'returns %s, %r' % (f[0].decode(), bytes.fromhex(f[4].decode()))
        except ValueError:
            pass
    return x[i][:300].decode('latin-1')


def prefixed_lib(d):
    """The library under test as an archive whose symbols carry the prefix x_."""
    x = core.build('x64')
    out = os.path.join(d, 'libx.a')
    od = os.path.join(d, 'libx')
    os.makedirs(od, exist_ok=True)
    r = core.run(['ar', 'x', os.path.join(x, 'lib', 'libc.a')], cwd=od)
    if r.rc != 0:
        raise core.BuildFailed('cannot read libc.a: %s' % r.err.decode()[-300:])
    objs = []
    for f in sorted(os.listdir(od)):
        o = core.run(['objcopy', '--prefix-symbols=x_', f, 'x-' + f], cwd=od)
        if o.rc == 0:
            objs.append('x-' + f)
    r = core.run(['ar', 'rcs', out] + objs, cwd=od)
    if r.rc != 0:
        raise core.HarnessError('ar: ' + r.err.decode()[-300:])
    return out


def inprocess(src, flags=()):
    """A host program linked with the prefixed library."""
    d = core.scratch()
    lib = prefixed_lib(d)
    out = os.path.join(d, 'inproc-' + src[:-2])
    r = core.run(['gcc', '-O1', '-w', '-g', '-fno-builtin', '-no-pie', *flags, '-o', out, os.path.join(H, src), lib, '-lm'], cwd=d, timeout=120)
    if r.rc != 0:
        raise core.BuildFailed('cannot link harness %s with the library: %s' % (src, r.err.decode('utf-8', 'replace')[-1500:]))
    return out


def run_inprocess(res, exe, wd, seed, count, timeout=120, args=()):
    """Runs a harness that prints BAD lines and a final DONE line with its counts."""
    s = '%016x' % int(hashlib.sha256(str(seed).encode()).hexdigest()[:15], 16)
    r = core.run2([exe, s, str(count), *args], cwd=wd, timeout=timeout)
    out = r.out.decode('latin-1').split('\n')
    what = os.path.basename(exe)[7:]
    for l in out:
        if l.startswith('BAD '):
            res.bad('%s seed=%s: %s' % (what, seed, l[4:]), {'out.txt': r.out, 'how.txt': '%s %s %d\n' % (what, s, count)})
    done = [l for l in out if l.startswith('DONE ')]
    if r.timeout:
        res.bad('%s seed=%s: does not end' % (what, seed), {'out.txt': r.out, 'how.txt': '%s %s %d\n' % (what, s, count)})
    elif r.rc != 0 or not done:
        res.bad('%s seed=%s: %s after %s' % (what, seed, r.brief(), r.out[-300:].decode('latin-1')),
                {'out.txt': r.out, 'err.txt': r.err, 'how.txt': '%s %s %d\n' % (what, s, count)})
    else:
        f = done[0].split()
        res.evals += int(f[1])
        for kv in f[2:]:
            k, v = kv.split('=')
            if v.isdigit() and int(v) > 0:
                res.events += int(v)
                res.distinct.add(k)
                res.count(k, int(v))
        if res.sample is None:
            res.sample = {'harness': what, 'seed': s, 'done': done[0][:200]}
