"""C03: control flow; model = jump code run by vlib.flow."""
import random
from vlib import core, target
from vlib.flow import FlowProg

RULE = ('one evaluation = one trace event of a generated, xcc-compiled program compared with the trace the abstract '
        'machine of vlib.flow produces; distinct = statement kinds in their nesting context')
MIN_EVALS = 5000
_tg = None


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = FlowProg(r, nfuncs=r.randrange(1, 6), deep=r.random() < .2, asm=True)
    target.decide(res, _tg, wd, prog, note=' seed=%s' % seed)
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(2500, 40000))])
