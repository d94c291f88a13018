"""The generated programs of C01-C07 for a cross target, run by an emulator that also watches the calling convention."""
import random
from . import core, libcheck, target
from .cexpr import LP64
from .exprprog import Prog
from .flow import FlowProg
from .objprog import ObjProg
from .staticprog import StaticProg
from .constprog import ConstProg
from .bigprog import BigProg
from . import callprog

KINDS = ['int'] * 3 + ['flo'] * 3 + ['flow'] * 2 + ['obj'] * 3 + ['static', 'const'] + ['call'] * 4 + ['big'] * 2


def make(seed, vastructs=True):
    r = random.Random(seed)
    k = r.choice(KINDS)
    if k in ('int', 'flo'):
        return k, Prog(r, LP64, floats=k == 'flo', nfuncs=r.choice([2, 4]), nstmts=r.choice([8, 20]))
    if k == 'big':
        return k, BigProg(r, nf=r.randrange(1, 4))
    if k == 'call':
        p = callprog.generate(r, r.random() < .6, vastructs)
        p.cross()
        return k, p
    if k == 'flow':
        return k, FlowProg(r, nfuncs=r.randrange(1, 5), deep=r.random() < .2)
    if k == 'obj':
        return k, ObjProg(r, LP64, nfuncs=r.randrange(1, 4), nstmts=r.choice([10, 25]))
    if k == 'static':
        return k, StaticProg(r, LP64, nobj=r.choice([6, 14, 25]))
    return k, ConstProg(r, LP64, n=r.choice([10, 20]))


_printf = {}


def prepare(tg):
    _printf[tg.name] = libcheck.EmuBoth('printf.c', tg)


def case(tg, seed, wd):
    res = core.CaseResult()
    if random.Random(seed + '/l').random() < .04:
        from checks import c16
        c16._b = _printf[tg.name]
        res = c16.case(seed, wd)
        res.count('printf')
        return res
    kind, prog = make(seed)
    ssa = random.Random(seed + '/o').random() < .2
    target.decide(res, tg, wd, prog, opts=['--apply-ssa'] if ssa else [], note=' %s seed=%s' % (kind, seed))
    res.distinct = {(kind, s) for s in res.distinct}
    res.count(kind)
    return res
