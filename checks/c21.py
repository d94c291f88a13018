"""C21: math.h against the host long double functions and exact definitions."""
from vlib import core, libcheck

RULE = ('one evaluation = one call of a math function on a random or special argument; exact functions are compared bit for bit, the others with the '
        'long double value of the host within a stated number of units in the last place, with signs, symmetry and range; distinct = functions called')
TECHNIQUE = 'runtime monitoring: per-call error monitor against a higher-precision oracle'
MIN_EVALS = 50000
_exe = None


def case(seed, wd):
    res = core.CaseResult()
    libcheck.run_inprocess(res, _exe, wd, seed, _n)
    return res


def check(ck):
    global _exe, _n
    _exe = libcheck.inprocess('math.c')
    _n = ck.n(200000, 2000000)
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(24, 300))])
