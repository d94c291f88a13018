"""C25: the aarch64 tool chain: generated programs in an emulator of AArch64 with a calling-convention monitor."""
from vlib import archcheck, target

RULE = ('one evaluation = one value a generated program, compiled, assembled and linked for aarch64, logs when an emulator that '
        'watches memory accesses, instruction encodings and the calling convention runs it, compared with the model of the C '
        'program; distinct = constructs seen')
TECHNIQUE = 'runtime monitoring: emulator with memory, encoding and calling-convention monitors; log checked online against a model'
MIN_EVALS = 5000
_tg = None


def case(seed, wd):
    return archcheck.case(_tg, seed, wd)


def check(ck):
    global _tg
    _tg = target.Emu('aarch64')
    archcheck.prepare(_tg)
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(1500, 30000))])
