"""C06: static data; model = byte images with pointers kept by vlib.staticprog."""
import random
from vlib import core, target
from vlib.staticprog import StaticProg

RULE = ('one evaluation = one static object (its bytes, a pointer in it, its alignment, its size) or layout fact of a generated '
        'program, dumped by the program at start and compared with the image the initialiser denotes; distinct = kinds of objects, '
        'initialiser forms and constant-expression conversions seen')
MIN_EVALS = 5000
_tg = None


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = StaticProg(r, nobj=r.choice([6, 14, 25]))
    target.decide(res, _tg, wd, prog, note=' seed=%s' % seed)
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(2500, 40000))])
