"""C19: stream histories against a model of C streams, with shortened transfers and injected errors; flushing at exit."""
import os
from vlib import core, libcheck

RULE = ('one evaluation = one stream operation of a random history (files, temporary files, memory streams, pipes) whose result, position, end-of-file '
        'state and resulting bytes are compared with a model of C streams; distinct = kinds of operations and faults')
TECHNIQUE = 'runtime monitoring: stream model run in lockstep, wrapped read/write that shorten and fail transfers'
MIN_EVALS = 50000
_exe = _exit = None


def case(seed, wd):
    res = core.CaseResult()
    libcheck.run_inprocess(res, _exe, wd, seed, _n)
    return res


def exitcase(seed, wd):
    """Output still buffered when the program ends in every normal way."""
    res = core.CaseResult()
    import random
    rng = random.Random(seed)
    for _ in range(12):
        nf = rng.randint(0, 9)
        how = rng.choice(['return', 'exit', 'nested', 'atexit'])
        lines = [''.join(rng.choice('abc xyz\n') for _ in range(rng.choice([0, 1, 5, 127, 128, 129, 300, 2000]))) for _ in range(nf + 2)]
        inp = ''.join(rng.choice('0123\n') for _ in range(rng.choice([0, 1, 255, 256, 257, 700]))).encode()
        for i in range(nf):
            p = os.path.join(wd, 'o%d' % i)
            if os.path.exists(p):
                os.unlink(p)
        for i, l in enumerate(lines):
            with open(os.path.join(wd, 'l%d' % i), 'w') as f:
                f.write(l)
        r = core.run2([_exit, how, str(nf)], cwd=wd, input=inp)
        want_out = lines[nf].encode() + inp
        what = 'ending by %s with %d open files seed=%s: ' % (how, nf, seed)
        if r.rc != 7 or r.timeout:
            res.bad(what + r.brief())
        if r.out != want_out + (b'bye' if how == 'atexit' else b''):
            res.bad(what + 'standard output has %d bytes, expected %d' % (len(r.out), len(want_out)), {'got': r.out, 'expected': want_out})
        if r.err != lines[nf + 1].encode():
            res.bad(what + 'standard error has %d bytes, expected %d' % (len(r.err), len(lines[nf + 1])), {'got': r.err, 'expected': lines[nf + 1]})
        for i in range(nf):
            got = open(os.path.join(wd, 'o%d' % i)).read() if os.path.exists(os.path.join(wd, 'o%d' % i)) else None
            if got != lines[i]:
                res.bad(what + 'file %d has %s, expected %d bytes' % (i, 'no content' if got is None else '%d bytes' % len(got), len(lines[i])))
        res.evals += nf + 3
        res.events += nf + 3
        res.distinct.add('exit_' + how)
    return res


def check(ck):
    global _exe, _n, _exit
    _exe = libcheck.inprocess('stdio.c', flags=('-Wl,--wrap=x_read,--wrap=x_write',))
    _n = ck.n(30000, 200000)
    both = libcheck.Both('atexit_io.c')
    _exit = both.tested
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(24, 300))])
    ck.run_cases(exitcase, ['%s/e%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(16, 200))])
