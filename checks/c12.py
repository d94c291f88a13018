"""C12: the instrumented tools on mutated, truncated and random inputs."""
import base64
import json
import os
import random
import re
from vlib import archcheck, core, lexprog, mutate, scopeprog, typeprog
from vlib.flow import FlowProg

RULE = ('one evaluation = one run of an instrumented tool (preprocessor, compiler, assembler, linker, wasm compiler) on one mutated or hostile input, watched for '
        'sanitizer reports, failed assertions, signals, hangs and failures without a diagnostic; distinct = tools x outcomes x diagnostics seen')
TECHNIQUE = 'runtime monitoring: AddressSanitizer and UBSan builds of every tool under mutation-based stress'
MIN_EVALS = 2000
SAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000:detect_stack_use_after_return=0:symbolize=1',
       'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=98'}
_d = _w = _pool = _archs = None
_objs = None


def signature(x):
    """A stable name for what went wrong, or None."""
    e = x.err.decode('latin-1')
    if x.timeout:
        return 'does not end'
    m = re.search(r"(\S+?):(\d+): (\w+): Assertion `(.*?)' failed", e) or re.search(r"(\S+?):(\d+): .*?(\w+)\(.*?\): Assertion `(.*?)' failed", e)
    if m:
        return 'assertion in %s: %s' % (m.group(3), m.group(4))
    if 'runtime error:' in e:
        m = re.search(r'(\S+?):(\d+):\d+: runtime error: (.*)', e)
        return 'undefined behaviour in %s: %s' % (os.path.basename(m.group(1)), re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(3)))
    e = re.sub(r'==\d+==WARNING: AddressSanitizer failed to allocate.*\n|==\d+==(Hint|WARNING).*\n', '', e)   # a huge request is refused: the tool has to say so
    if 'AddressSanitizer' in e:
        k = re.search(r'AddressSanitizer:? ([\w-]+)', e)
        f = [g for g in re.findall(r'#\d+ 0x\w+ in (\w+) (?:\S*/)?(?:src|libsrc)/', e)]
        return '%s in %s' % (k.group(1) if k else 'report', f[0] if f else '?')
    if x.rc < 0 or x.rc >= 128:
        return 'signal %s' % x.rc
    if x.rc != 0 and not e.strip() and not x.out.strip():
        return 'fails without a diagnostic (exit %d)' % x.rc
    return None


def runone(res, tool, cmd, wd, files, inp=None, key=''):
    x = core.run(cmd, timeout=10, input=inp, cwd=wd, env=dict(SAN, TMPDIR=wd), maxout=None)
    if x.timeout:
        x = core.run(cmd, timeout=30, input=inp, cwd=wd, env=dict(SAN, TMPDIR=wd))
    res.evals += 1
    res.events += 1
    s = signature(x)
    msg = re.sub(r"[`'\"].*|\d+", '', x.err.decode('latin-1').split('\n')[0].split(': ', 1)[-1])[:40] if x.rc else 'accepted'
    res.distinct.add(tool + ' ' + msg)
    if s:
        res.bad('%s: %s' % (tool, s), dict(files, **{'cmd.txt': ' '.join(cmd), 'err.txt': x.err[:20000]}), key='%s: %s' % (tool, s))
    return x


def pick(r):
    n = r.choice([1, 1, 1, 2, 3])
    return ''.join(r.choice(_pool) for _ in range(n))


def ccase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    cc1, cpp, as_ = (os.path.join(_d, t) for t in ('cc1', 'cpp', 'as'))
    for _ in range(8):
        src = mutate.mutate(r, pick(r), mutate.CFRAG + (mutate.PPFRAG if r.random() < .3 else []), _pool)
        if r.random() < .5:
            src = b'struct S { int a, b; char c; }; struct S s; int x, y, *p, a[3][4]; typedef int T; int f(int, ...);\n' + src
        open(os.path.join(wd, 'in.c'), 'wb').write(src)
        x = runone(res, 'cpp', [cpp, '-Iinc', 'in.c'], wd, {'in.c': src})
        pre = x.out if x.rc == 0 else src
        open(os.path.join(wd, 'in.i'), 'wb').write(pre)
        x = runone(res, 'cc1', [cc1] + r.choice([[], [], ['--apply-ssa'], ['-fcommon']]) + ['in.i'], wd, {'in.i': pre})
        if x.rc == 0:
            open(os.path.join(wd, 'in.s'), 'wb').write(x.out)
            runone(res, 'as', [as_, '-o', 'out.o', 'in.s'], wd, {'in.s': x.out})
        if _w and r.random() < .25:
            runone(res, 'wcc', [os.path.join(_w, 'wcc'), '-c', '-o', 'o.wasm', 'in.c'], wd, {'in.c': src})
    res.sample = {'input': src.decode('latin-1')[:200]}
    return res


def valid(seed):
    """-> kind, {file: text}: well-formed programs, which get further into the tools than damaged ones do."""
    r = random.Random(seed)
    k = r.randrange(10)
    if k < 6:
        kind, p = archcheck.make(seed)
    elif k < 7:
        kind, p = 'asm', FlowProg(r, nfuncs=r.randrange(1, 5), deep=r.random() < .2, asm=True)
    elif k < 8:
        kind, p = 'lex', lexprog.LexProg(r, n=30)
    elif k < 9:
        kind, p = 'scope', scopeprog.ScopeProg(r, nfuncs=r.randrange(1, 6), big=r.random() < .3)
    else:
        kind, p = 'type', typeprog.TypeProg(r, n=r.choice([5, 15]))
    return kind, dict(getattr(p, 'files', None) or {}, **{'in.c': p.source})


def validcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    kind, files = valid(seed + '/p')
    for f, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(wd, f)) or wd, exist_ok=True)
        open(os.path.join(wd, f), 'wb').write(t.encode('utf-8', 'surrogateescape') if isinstance(t, str) else t)
    dirs = [_d, _d] + _archs
    for d in dict.fromkeys([_d, r.choice(dirs), r.choice(dirs)]):
        ss = []
        for f in files:
            if not f.endswith('.c'):
                continue
            x = runone(res, 'cpp', [os.path.join(d, 'cpp'), '-Iinc', '-I.', '-I' + os.path.join(_d, 'include'), f], wd, files)
            if x.rc:
                continue
            open(os.path.join(wd, f + '.i'), 'wb').write(x.out)
            x = runone(res, 'cc1', [os.path.join(d, 'cc1')] + r.choice([[], ['--apply-ssa'], ['--apply-ssa'], ['-fcommon']]) + [f + '.i'], wd, files)
            if x.rc == 0:
                open(os.path.join(wd, f + '.s'), 'wb').write(x.out)
                x = runone(res, 'as', [os.path.join(d, 'as'), '-o', f + '.o', f + '.s'], wd, files)
                ss += [f + '.o'] if x.rc == 0 else []
            res.distinct.add('valid %s %s' % (kind, os.path.basename(d).split('-')[-2]))
        if ss and d == _d:
            runone(res, 'ld', [os.path.join(d, 'ld'), '-o', 'out'] + ss + [os.path.join(_d, 'lib', x) for x in ('crt0.a', 'libc.a')], wd, files)
    if _w and r.random() < .25:
        runone(res, 'wcc', [os.path.join(_w, 'wcc'), '-c', '-o', 'o.wasm', 'in.c'], wd, files)
    res.sample = {'kind': kind, 'input': files['in.c'][:200]}
    return res


def ppcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    cpp = os.path.join(_d, 'cpp')
    for _ in range(10):
        base = ''.join(r.choice(_pp) + '\n' for _ in range(r.randint(1, 12)))
        src = mutate.mutate(r, base, mutate.PPFRAG, _pp)
        open(os.path.join(wd, 'in.c'), 'wb').write(src)
        runone(res, 'cpp', [cpp, '-Iinc', '-DM=1', 'in.c'], wd, {'in.c': src})
    return res


_pp = ['#define A 1', '#define B(x) x + A', '#define C(x, y) x##y', '#define S(x) #x', '#define V(...) f(__VA_ARGS__)', '#define W(a, ...) a __VA_ARGS__', 'A B(2) C(a, b) S(q "z") V(1, 2) W(1)', '#if A > 0 && defined(B)', '#else', '#elif A', '#endif',
       '#ifdef Q', '#ifndef Q', '#undef A', '#include "in2.h"', 'int x = B(B(3));', '/* c */ // d', '#line 77 "z.c"', '#pragma once', '#define R R', '#define P(x) Q(x)', '#define Q(x) P(x)', 'P(1)(2)', 'B\n(3)', '#define E()', 'E() E ()', '"str\\n" \'c\' L"w"', '__LINE__ __FILE__',
       '#define G(x, y...) x y', 'G(1, 2, 3)', '# 12 "in.c"', '#error no', '#warning w', 'C(C(a, b), c) S(S(1))', '1.5e+3 0x1p-2 .5f']


def ascase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    as_ = os.path.join(_d, 'as')
    for _ in range(10):
        base = r.choice(_asm)
        ls = base.split('\n')
        i = r.randrange(len(ls))
        base = '\n'.join(ls[i:i + r.randint(1, 40)])
        src = mutate.mutate(r, base, mutate.AFRAG, _asm)
        open(os.path.join(wd, 'in.s'), 'wb').write(src)
        runone(res, 'as', [as_, '-o', 'out.o', 'in.s'], wd, {'in.s': src})
    return res


def ldcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    ld = os.path.join(_d, 'ld')
    for _ in range(10):
        fs = []
        for i in range(r.randint(1, 3)):
            b, ext = r.choice(_objs)
            if i == 0 or r.random() < .5:
                b = mutate.binary_mut(r, b) if r.random() < .9 else mutate.bytes_mut(r, b)
            fn = 'i%d%s' % (i, ext)
            open(os.path.join(wd, fn), 'wb').write(b)
            fs.append(fn)
        lib = [os.path.join(_d, 'lib', x) for x in ('crt0.a', 'libc.a')] if r.random() < .3 else []
        runone(res, 'ld', [ld, '-e', 'main', '-o', 'out'] + fs + lib + (['-Map', 'm.txt'] if r.random() < .2 else []), wd, {f: open(os.path.join(wd, f), 'rb').read() for f in fs})
    return res


def prepare():
    """Assembly and objects to start from (snapshots)."""
    global _asm, _objs
    _asm = json.load(open(os.path.join(core.VERIF, 'data', 'asm_corpus.json')))
    _objs = [(base64.b64decode(o), e) for o, e in json.load(open(os.path.join(core.VERIF, 'data', 'obj_corpus.json')))]


def check(ck):
    global _d, _w, _pool, _archs
    _d = core.build('asan')
    _archs = [core.build('asan-riscv64'), core.build('asan-aarch64')]
    _w = core.build('wccasan')
    _pool = mutate.corpus()
    prepare()
    P = '%s/%d' % (ck.prop, ck.seed)
    ck.run_cases(ccase, ['%s/c/%d' % (P, i) for i in range(ck.n(500, 20000))], stop_after=ck.n(20, 300))
    ck.run_cases(validcase, ['%s/v/%d' % (P, i) for i in range(ck.n(250, 8000))], stop_after=ck.n(20, 300))
    ck.run_cases(ppcase, ['%s/p/%d' % (P, i) for i in range(ck.n(250, 8000))], stop_after=ck.n(20, 300))
    ck.run_cases(ascase, ['%s/a/%d' % (P, i) for i in range(ck.n(250, 8000))], stop_after=ck.n(20, 300))
    ck.run_cases(ldcase, ['%s/l/%d' % (P, i) for i in range(ck.n(250, 8000))], stop_after=ck.n(20, 300))
