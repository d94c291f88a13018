"""C30: accesses to volatile objects; every access traps, and the trace is compared with the one of the abstract machine (gcc -O0)."""
import os
import random
from vlib import core, target, wasmwatch
from vlib.volprog import Prog

RULE = ('one evaluation = one access to a volatile object (or value derived from one) recorded by the page trap in a program compiled by '
        'xcc and compared with the recorded access of the same program compiled by gcc -O0; distinct = (statement kind, type, form of the lvalue)')
TECHNIQUE = 'runtime monitoring: page-protection traps and single-stepping record every access to watched objects; a device model changes them'
MIN_EVALS = 3000
OPTS = [(), ('-O0',), ('-O1',), ('-O2',), ('--apply-ssa',), ('-O2', '--apply-ssa')]
_tg = None


def run(wd, exe):
    x = core.run2([os.path.join(wd, exe)], cwd=wd, timeout=60)
    return x, x.out.decode('latin-1').split('\n')[:-1]


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = Prog(r)
    src = prog.source()
    rt = prog.runtime()
    target.write(wd, 'a.c', src)
    target.write(wd, 'rt.c', rt)
    files = {'a.c': src, 'rt.c': rt}
    x = core.run2(['gcc', '-O0', '-w', '-no-pie', '-o', 'ref', 'rt.c', 'a.c'], cwd=wd, timeout=60)
    if x.rc != 0:
        raise core.HarnessError('reference not built: ' + x.err.decode()[-400:])
    core.run2(['gcc', '-O0', '-w', '-c', '-o', 'rt.o', 'rt.c'], cwd=wd, timeout=60)
    x, ref = run(wd, 'ref')
    if x.rc != 0 or x.timeout:
        raise core.HarnessError('reference program failed: ' + x.brief())
    for o in r.sample(OPTS, 2):
        x = core.run2([_tg.xcc, *o, '-c', '-o', 'a.o', 'a.c'], cwd=wd, env={'TMPDIR': wd})
        if x.rc != 0 or x.timeout:
            res.bad('a.c (seed %s) not compiled: %s %s' % (seed, x.brief(), target.first_error(x.err)), files)
            return res
        x = core.run2(['gcc', '-w', '-no-pie', '-o', 'x', 'rt.o', 'a.o'], cwd=wd, timeout=60)
        if x.rc != 0:
            res.bad('a.o (seed %s) not linked: %s' % (seed, x.err.decode()[-300:]), files)
            return res
        x, got = run(wd, 'x')
        res.events += len(got)
        res.evals += len(ref)
        if got != ref:
            files['expected.txt'] = '\n'.join(ref) + '\n'
            files['got.txt'] = x.out
            part = '?'
            for i in range(max(len(ref), len(got))):
                e, g = ref[i] if i < len(ref) else '<nothing>', got[i] if i < len(got) else '<nothing>'
                if e.startswith('--'):
                    part = e[3:]
                if e != g:
                    break
            res.bad('xcc %s (seed %s): access %d (part %s): expected "%s", got "%s" %s' % (' '.join(o), seed, i, part, e[:60], g[:60], x.brief() if x.rc else ''), files)
            return res
    res.distinct = set(prog.kinds)
    res.sample = {'accesses': sum(1 for l in ref if l[0] in 'RW'), 'lines': len(ref), 'objects': len(prog.objs)}
    return res


def wasmcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = Prog(r, abs_=True)
    src, rt = prog.source(), prog.runtime()
    files = {'a.c': src, 'rt.c': rt}
    for n, t in files.items():
        target.write(wd, n, t)
    x = core.run2(['gcc', '-O0', '-w', '-no-pie', '-o', 'ref', 'rt.c', 'a.c'], cwd=wd, timeout=60)
    if x.rc != 0:
        raise core.HarnessError('reference not built: ' + x.err.decode()[-400:])
    x, ref = run(wd, 'ref')
    if x.rc != 0 or x.timeout:
        raise core.HarnessError('reference program failed: ' + x.brief())
    ref = [wasmwatch.native(l) for l in ref]
    x = core.run2([os.path.join(_wcc, 'wcc'), '-D__wasm', '-nostdlib', '--entry-point=run', '-o', 'a.wasm', 'a.c'], cwd=wd, env={'TMPDIR': wd})
    if x.rc != 0 or x.timeout:
        res.bad('a.c (seed %s) not compiled by wcc: %s %s' % (seed, x.brief(), target.first_error(x.err)), files)
        return res
    with open(os.path.join(wd, 'a.wasm'), 'rb') as f:
        m = f.read()
    with open(os.path.join(wd, 'w.wasm'), 'wb') as f:
        f.write(wasmwatch.instrument(m))
    target.write(wd, 'run.js', wasmwatch.runner(prog.objs))
    x = core.run2(['node', 'run.js', 'w.wasm'], cwd=wd, timeout=60)
    got = x.out.decode('latin-1').split('\n')[:-1]
    if got[-2:-1] == ['EXCEPTION float unrepresentable in integer range']:
        got = got[:-2]    # undefined: a conversion of a double of any value
        ref = ref[:len(got)]
    res.events += len(got)
    res.evals += len(ref)
    if got != ref:
        files['expected.txt'], files['got.txt'] = '\n'.join(ref) + '\n', x.out
        part = '?'
        for i in range(max(len(ref), len(got))):
            e, g = ref[i] if i < len(ref) else '<nothing>', got[i] if i < len(got) else '<nothing>'
            if e.startswith('--'):
                part = e[3:]
            if e != g:
                break
        res.bad('wcc (seed %s): access %d (part %s): expected "%s", got "%s" %s' % (seed, i, part, e[:60], g[:60], x.brief() + x.err.decode('latin-1')[-200:] if x.rc else ''), files)
        return res
    res.distinct = set(('wasm',) + k for k in prog.kinds)
    return res


def check(ck):
    global _tg, _wcc
    _tg = target.X64()
    _wcc = core.build('wcc')
    ck.run_cases(wasmcase, ['%s/w%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(250, 4000))])
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(700, 10000))])
