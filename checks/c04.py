"""C04: objects; model = byte-level memory kept by vlib.objprog."""
import os
import random
from vlib import core, target
from vlib.objprog import ObjProg
from vlib.pathprog import PathProg

RULE = ('one evaluation = one value read from an object of a generated program, compared with the byte-level memory '
        'model; distinct = kinds of statements, member/element accesses and initialiser forms seen')
MIN_EVALS = 5000
_tg = None


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = ObjProg(r, nfuncs=r.randrange(1, 5), nstmts=r.choice([10, 25, 40]))
    target.decide(res, _tg, wd, prog, note=' seed=%s' % seed)
    return res


def pathcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = PathProg(r)
    a, rt = prog.sources()
    files = {'a.c': a, 'rt.c': rt}
    for n, t in files.items():
        target.write(wd, n, t)
    outs = []
    for cc, args in (('gcc', ['gcc', '-O0', '-w', '-fwrapv', '-fno-strict-aliasing', '-c', '-o']), ('xcc', [os.path.join(_tg.dir, 'xcc'), '-c', '-o'])):
        x = core.run2(args + [cc + '.o', 'a.c'], cwd=wd, env={'TMPDIR': wd})
        if x.rc != 0 or x.timeout:
            if cc == 'gcc':
                raise core.HarnessError('rejected by gcc: ' + x.err.decode()[-300:])
            res.bad('a.c (seed %s) not compiled: %s %s' % (seed, x.brief(), target.first_error(x.err)), files)
            return res
        x = core.run2(['gcc', '-O0', '-w', '-no-pie', '-o', cc + '.exe', 'rt.c', cc + '.o'], cwd=wd, timeout=60)
        if x.rc != 0:
            if cc == 'gcc':
                raise core.HarnessError('rejected by gcc: ' + x.err.decode()[-300:])
            res.bad('a.c (seed %s): object not linked: %s' % (seed, x.brief()), files)
            return res
        x = core.run2([os.path.join(wd, cc + '.exe')], cwd=wd)
        if cc == 'gcc' and (x.rc != 0 or x.timeout):
            raise core.HarnessError('reference program failed: ' + x.brief())
        outs.append((x.rc, x.out.decode('latin-1').split('\n')))
    (_, ref), (rc, got) = outs
    res.evals += len(ref) - 1
    res.events += len(got) - 1
    if rc != 0 or got != ref:
        i = next((i for i in range(len(ref)) if i >= len(got) or got[i] != ref[i]), len(ref))
        files['expected.txt'], files['got.txt'] = '\n'.join(ref), '\n'.join(got)
        res.bad('path program (seed %s): rc %s, line %d: expected "%s", got "%s"' % (
            seed, rc, i, ref[i] if i < len(ref) else '', got[i] if i < len(got) else ''), files)
        return res
    res.distinct = set(('path',) + (k,) for k in prog.kinds)
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(pathcase, ['%s/p%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(600, 10000))])
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(2500, 40000))])
