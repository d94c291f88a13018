"""C01: integer expressions, model = vlib.cexpr evaluated in exact arithmetic."""
import random
from vlib import core, target
from vlib.exprprog import Prog

RULE = ('one evaluation = one logged value of a generated, xcc-compiled program compared with the value an '
        'independent evaluator of the C rules predicts; distinct = operator x operand types (x placement) seen')
MIN_EVALS = 5000
_tg = None
FLOATS = False


def case(arg, wd):
    seed, kw = arg
    res = core.CaseResult()
    prog = Prog(random.Random(seed), floats=kw['floats'], nfuncs=kw['nf'], nstmts=kw['ns'])
    target.decide(res, _tg, wd, prog, note=' seed=%s' % seed)
    return res


def go(ck, floats):
    global _tg
    _tg = target.X64()
    n = ck.n(5000, 60000)
    args = []
    for i in range(n):
        shape = i % 4
        args.append(('%s/%d/%d' % (ck.prop, ck.seed, i),
                     {'floats': floats, 'nf': (5, 3, 2, 8)[shape], 'ns': (14, 25, 40, 6)[shape]}))
    ck.run_cases(case, args)


def check(ck):
    go(ck, False)
