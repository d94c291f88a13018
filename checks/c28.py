"""C28: spelling and layout of source text; model = the value each spelling denotes (vlib.lexprog)."""
import random
from vlib import core, target
from vlib.lexprog import LexProg

RULE = ('one evaluation = one line printed by a compiled program: the value, size, signedness or bytes of a literal, or the value behind a name, against the value its '
        'spelling denotes; distinct = spellings classes (base, suffix, magnitude, escapes, lengths, kinds of names, operators)')
TECHNIQUE = 'runtime monitoring: generated programs of literals and names in random spelling and layout, output compared with the model of the lexical grammar'
MIN_EVALS = 20000
_tg = None


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    prog = LexProg(r, n=r.choice([10, 30, 60]))
    target.decide(res, _tg, wd, prog, note=' seed=%s %s' % (seed, prog.lay.style))
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(2000, 30000))])
