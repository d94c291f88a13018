"""C22: the generated programs of C01-C07 for an ILP32 target, compiled by wcc and run by node's WASI."""
import random
from vlib import core, target
from vlib.cexpr import ILP32
from vlib.exprprog import Prog
from vlib.flow import FlowProg
from vlib.objprog import ObjProg
from vlib.staticprog import StaticProg
from vlib.constprog import ConstProg
from vlib import callprog
from vlib.wasm import Wasm

RULE = ('one evaluation = one value a generated program, compiled by wcc and run under WASI in node, logs, compared with the '
        'model of the C program for 32-bit long and pointers; distinct = constructs seen')
TECHNIQUE = 'runtime monitoring: generated workloads run by an independent engine, log checked online against a model'
MIN_EVALS = 5000
_tg = None


def make(seed):
    r = random.Random(seed)
    k = r.randrange(11)
    if k >= 9:
        p = callprog.generate(r, r.random() < .8, tg=ILP32)
        p.cross()
        return 'call', p
    if k < 2:
        return 'int', Prog(r, ILP32, nfuncs=r.choice([2, 4]), nstmts=r.choice([8, 20]))
    if k < 4:
        return 'flo', Prog(r, ILP32, floats=True, nfuncs=r.choice([2, 4]), nstmts=r.choice([8, 20]))
    if k < 5:
        return 'flow', FlowProg(r, nfuncs=r.randrange(1, 5), goto=False, wasm=True, deep=r.random() < .2)
    if k < 7:
        return 'obj', ObjProg(r, ILP32, nfuncs=r.randrange(1, 4), nstmts=r.choice([10, 25]))
    if k < 8:
        return 'static', StaticProg(r, ILP32, nobj=r.choice([6, 14, 25]))
    return 'const', ConstProg(r, ILP32, n=r.choice([10, 20]), goto=False)


def case(seed, wd):
    res = core.CaseResult()
    kind, prog = make(seed)
    target.decide(res, _tg, wd, prog, note=' %s seed=%s' % (kind, seed))
    res.distinct = {(kind, s) for s in res.distinct}
    res.count(kind)
    return res


def check(ck):
    global _tg
    _tg = Wasm()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(2500, 40000))])
