"""C08: the same programs at every optimisation setting, against the model."""
import random
from vlib import core, target
from vlib.exprprog import Prog
from vlib.flow import FlowProg
from vlib.objprog import ObjProg

RULE = ('one evaluation = one logged value of a generated program, compiled at one optimisation setting, compared with '
        'the model; distinct = (setting, construct) pairs seen')
MIN_EVALS = 5000
OPTS = [('-O0',), ('-O1',), ('-O2',), ('--apply-ssa',), ('-O2', '--apply-ssa')]
_tg = None


def make(seed):
    r = random.Random(seed)
    k = r.randrange(4)
    if k == 3:
        return ObjProg(r, nfuncs=r.randrange(1, 4), nstmts=r.choice([10, 25]))
    if k == 2:
        return FlowProg(r, nfuncs=r.randrange(1, 5), deep=r.random() < .2, asm=True)
    return Prog(r, floats=k == 1, nfuncs=r.choice([2, 4]), nstmts=r.choice([8, 20]))


def case(seed, wd):
    res = core.CaseResult()
    prog = make(seed)
    for o in OPTS:
        if not target.decide(res, _tg, wd, prog, opts=o, note=' seed=%s' % seed):
            break
    res.distinct = {(len(o), o[-1], s) for o in OPTS for s in res.distinct}
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(1000, 15000))])
