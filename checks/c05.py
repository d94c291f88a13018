"""C05: calls; log of all arguments and results against an interpretation, with register and stack monitors."""
import os
import random
import subprocess
from vlib import core, target
from vlib.callprog import generate

RULE = ('one evaluation = one parameter, variadic argument, result or surviving local logged by a generated program split over two '
        'translation units (xcc+xcc with structs; xcc calling gcc and gcc calling xcc for scalars), or the verdict of the '
        'callee-saved-register guard or the stack-alignment thunks; distinct = (compiler pair, signature shape)')
TECHNIQUE = 'runtime monitoring: assembly monitors of registers and stack alignment on every call, log checked against a model'
MIN_EVALS = 5000
_tg = None
MODES = ['xx', 'xx', 'xg', 'gx']


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    mode = r.choice(MODES)
    prog = generate(r, mode == 'xx')
    a, b, m, s = prog.sources()
    target.write(wd, 'a.c', a)
    target.write(wd, 'b.c', b)
    target.write(wd, 'm.c', m)
    target.write(wd, 't.s', s)
    opts = ['--apply-ssa'] if r.random() < .25 else []
    files = {'a.c': a, 'b.c': b, 'm.c': m, 't.s': s, 'expected.txt': '\n'.join(prog.expected) + '\n'}
    gccsrc = ['m.c', 't.s']
    for c, f in zip(mode, 'ab'):
        if c == 'x':
            x = core.run2([_tg.xcc, *opts, '-c', '-o', f + '.o', f + '.c'], cwd=wd, env={'TMPDIR': wd})
            if x.rc != 0 or x.timeout:
                res.bad('%s.c (seed %s) not compiled: %s %s' % (f, seed, x.brief(), target.first_error(x.err)), files)
                return res
            gccsrc.append(f + '.o')
        else:
            gccsrc.append(f + '.c')
    x = core.run2(['gcc', '-O1', '-w', '-no-pie', '-o', 'x', *gccsrc], cwd=wd, timeout=60)
    if x.rc != 0:
        res.bad('objects of mode %s (seed %s) not linked: %s' % (mode, seed, x.err.decode()[-300:]), files)
        return res
    x = core.run2([os.path.join(wd, 'x')], cwd=wd)
    got = x.out.decode('latin-1').split('\n')[:-1]
    res.events += len(got)
    res.evals += len(prog.expected)
    if x.rc != 0 or got != prog.expected:
        files['got.txt'] = x.out
        for i, e in enumerate(prog.expected):
            g = got[i] if i < len(got) else '<nothing>'
            if g != e:
                res.bad('mode %s %s (seed %s): line %d: expected %s, got %s: %s' % (mode, opts, seed, i, e, g, prog.labels[i]), files)
                return res
        res.bad('mode %s (seed %s): %s' % (mode, seed, x.brief()), files)
        return res
    res.distinct |= {(mode, o) for o in prog.ops}
    res.sample = {'mode': mode, 'signature': prog.sig(prog.fns[-1], False)[:120], 'lines': len(got)}
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(1200, 20000))])
