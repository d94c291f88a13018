"""C27: scopes, linkage, name spaces and types; models = name resolution on the model's own entities (vlib.scopeprog)
and types as values (vlib.typeprog)."""
import random
from vlib import core, target
from vlib.scopeprog import ScopeProg
from vlib.typeprog import TypeProg

RULE = ('one evaluation = one line printed by a compiled program: the value or size of what a name denotes, compared with the entity the model resolved the name to, or the '
        'branch, size or distance a type leads to; distinct = kinds of declaration, use and nesting, and shapes of types')
TECHNIQUE = 'runtime monitoring: generated programs reusing few names for many declarations, and random types; output compared with a model of scope, linkage and typing'
MIN_EVALS = 20000
_tg = None


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    if seed.endswith('t'):
        target.decide(res, _tg, wd, TypeProg(r, n=r.choice([5, 15, 40])), note=' types seed=%s' % seed)
        return res
    prog = ScopeProg(r, nfuncs=r.randrange(1, 6), big=r.random() < .3)
    if prog.expected is None:
        return res
    target.decide(res, _tg, wd, prog, note=' seed=%s' % seed)
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d%s' % (ck.prop, ck.seed, i, 't' if i % 2 else '') for i in range(ck.n(4000, 60000))])
