"""Tool chains under test: how to build a program and how to run it."""
import os
import re
from . import core


class X64:
    name = 'x64'
    long_size = 8

    def __init__(self, opts=(), san=False):
        self.opts = list(opts)
        self.dir = core.build('asan' if san else 'x64')
        self.xcc = os.path.join(self.dir, 'xcc')

    def compile(self, wd, sources, out='a.out', opts=(), timeout=20, **kw):
        return core.run2([self.xcc, *self.opts, *opts, '-o', out, *sources], cwd=wd, timeout=timeout,
                         env={'TMPDIR': wd}, **kw)

    def run(self, wd, out='a.out', args=(), timeout=20, **kw):
        return core.run2([os.path.join(wd, out), *args], cwd=wd, timeout=timeout, **kw)


class Emu:
    """A cross compiler (posix riscv64 or aarch64) whose programs run in an emulator that monitors the calling convention."""
    long_size = 8
    TOOLS = {'riscv64': ('rv64', 'harness/rv64.c'), 'aarch64': ('a64', 'harness/a64.c')}

    def __init__(self, arch, opts=()):
        self.name = arch
        self.opts = list(opts)
        self.dir = core.build(arch)
        self.xcc = os.path.join(self.dir, 'xcc')
        t = self.TOOLS[arch]
        self.emu = core.build_tool(t[0], [t[1], 'harness/emu.h'], flags=('-O2', '-w', '-frounding-math', '-ffp-contract=off'))

    compile = X64.compile

    def run(self, wd, out='a.out', args=(), timeout=60, **kw):
        return core.run2([self.emu, os.path.join(wd, out), *args], cwd=wd, timeout=timeout, **kw)


def write(wd, name, text):
    with open(os.path.join(wd, name), 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogateescape'))


def first_error(err):
    """The diagnostics that are not warnings."""
    t = err.decode('utf-8', 'replace').strip()
    out, skip = [], False
    for l in t.split('\n'):
        if 'warning:' in l:
            skip = True
            continue
        if re.match(r'\S+\(\d+\):', l) or 'ssert' in l or 'rror' in l:
            skip = False
        if not skip:
            out.append(l)
    return (' / '.join(out[:4]) or t[-300:])[:400]


def decide(res, tg, wd, prog, tag='', opts=(), note=''):
    """Compiles prog.source for tg, runs it and compares its log with the model's.
    prog: .source, .expected (list of str lines), .labels, .ops (signatures)."""
    write(wd, 'p.c', prog.source)
    files = {'p.c': prog.source, 'expected.txt': '\n'.join(prog.expected) + '\n'}
    more = getattr(prog, 'files', {})
    for n, t in more.items():
        write(wd, n, t)
        files[n] = t
    r = tg.compile(wd, ['p.c', *more], opts=opts)
    what = '%s %s%s' % (tg.name, ' '.join(list(tg.opts) + list(opts)), note)
    if r.timeout:
        res.inconclusive += 1
        return False
    if r.rc != 0:
        files['diagnostic.txt'] = r.err
        res.bad('%s: valid program not compiled (%s): %s' % (
            what, r.brief(), first_error(r.err)), files, key=tag or None)
        return False
    x = tg.run(wd)
    if x.timeout:
        files['got.txt'] = x.out
        res.bad('%s: program does not end' % what, files, key=tag or None)
        return False
    got = x.out.decode('latin-1').split('\n')
    if got and got[-1] == '':
        got.pop()
    res.events += len(got)
    res.evals += len(prog.expected)
    rc = getattr(prog, 'exit', 0)
    if x.rc != rc or got != prog.expected:
        files['got.txt'] = x.out
        files['stderr.txt'] = x.err
        for i, e in enumerate(prog.expected):
            g = got[i] if i < len(got) else '<nothing>'
            if g != e:
                lab = prog.labels[i] if i < len(prog.labels) else ''
                res.bad('%s: output line %d: expected %s, got %s: %s' % (what, i, e, g, lab[:250]), files, key=tag or None)
                break
        else:
            res.bad('%s: %s, expected exit %d; %d lines, expected %d' % (
                what, x.brief(), rc, len(got), len(prog.expected)), files, key=tag or None)
        return False
    res.distinct |= prog.ops
    if res.sample is None:
        res.sample = {'target': tg.name, 'lines': len(got), 'ops': len(prog.ops),
                      'example': [prog.labels[0][:120] if prog.labels else '', prog.expected[0] if prog.expected else '']}
    return True
