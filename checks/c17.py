"""C17: heap histories with a shadow map."""
from vlib import core, libcheck

RULE = ('one evaluation = one step of a heap history (malloc, calloc, realloc, free, an impossible request, or a step while the system refuses '
        'memory); after it the shadow map decides alignment, disjointness, unchanged contents, zero fill, prefix, reuse; distinct = kinds of steps')
TECHNIQUE = 'runtime monitoring: shadow map of live blocks over random heap histories with injected out-of-memory'
MIN_EVALS = 50000
_exe = None


def case(seed, wd):
    res = core.CaseResult()
    libcheck.run_inprocess(res, _exe, wd, seed, _n)
    return res


def check(ck):
    global _exe, _n
    _exe = libcheck.inprocess('heap.c')
    _n = ck.n(30000, 300000)
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(24, 300))])
