"""C18: string.h, strings.h and ctype.h in guarded buffers, against the host library."""
from vlib import core, libcheck

RULE = ('one evaluation = one call of a library function on buffers that end (or begin) at an inaccessible page, whose result and all '
        'bytes of both buffers are compared with the host library on an identical copy; distinct = functions called')
TECHNIQUE = 'runtime monitoring: guard pages and shadow copies around every call, differential oracle'
MIN_EVALS = 100000
_exe = None


def case(seed, wd):
    res = core.CaseResult()
    libcheck.run_inprocess(res, _exe, wd, seed, _n)
    return res


def check(ck):
    global _exe, _n
    _exe = libcheck.inprocess('string.c')
    _n = ck.n(100000, 400000)
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(24, 400))])
