"""C07: constant expressions; model = vlib.cexpr in exact arithmetic."""
import random
from vlib import core, target
from vlib.constprog import ConstProg

RULE = ('one evaluation = one observation (a logged value, size, selected branch) of a generated program that depends on a constant '
        'expression in some context, compared with the value an independent evaluator predicts, or one translation unit a constant '
        'makes invalid and that must be rejected; distinct = operator x operand types and contexts seen')
MIN_EVALS = 5000
_tg = None


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = ConstProg(r, n=r.choice([10, 20, 30]))
    if target.decide(res, _tg, wd, prog, note=' seed=%s' % seed):
        for i, src in enumerate(prog.bad[:3]):
            target.write(wd, 'bad.c', src)
            c = core.run2([_tg.xcc, '-c', '-o', 'bad.o', 'bad.c'], cwd=wd, env={'TMPDIR': wd})
            if c.timeout:
                res.inconclusive += 1
                continue
            res.evals += 1
            res.count('rejected_by_constant')
            if c.rc == 0:
                res.bad('seed=%s: accepted although a constant makes it invalid: %s' % (seed, src.strip()[-300:]), {'bad.c': src})
            elif c.rc < 0 or b'bad.c(' not in c.err:
                res.bad('seed=%s: invalid by a constant, gives %s and: %s' % (seed, c.brief(), c.err.decode('utf-8', 'replace')[:300]),
                        {'bad.c': src, 'stderr.txt': c.err})
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(3000, 60000))])
