"""C20: stdlib conversions, sorting, searching, random numbers, environment, temporary files."""
from vlib import core, libcheck

RULE = ('one evaluation = one library call (or sequence of 20 random numbers, or one sort) whose value, end pointer, errno, result array and memory '
        'effects are compared with the host library or the definition, on text and arrays ending at an inaccessible page; distinct = kinds of calls made')
TECHNIQUE = 'runtime monitoring: guard pages and comparison hooks around every call, differential oracle'
MIN_EVALS = 50000
_exe = None


def case(seed, wd):
    res = core.CaseResult()
    libcheck.run_inprocess(res, _exe, wd, seed, _n)
    return res


def check(ck):
    global _exe, _n
    _exe = libcheck.inprocess('stdlib.c')
    _n = ck.n(30000, 150000)
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(24, 300))])
