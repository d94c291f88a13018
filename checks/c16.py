"""C16: the printf family, against the host's printf on the same calls."""
import math
import os
import random
import struct
from vlib import core, target, libcheck
from vlib.cexpr import INTERESTING, FINTERESTING

RULE = ('one evaluation = one call of a printf-family function of the library, made by an xcc-compiled program, whose return value, '
        'characters, terminator and untouched surroundings are compared with those of the same call in the host C library; '
        'distinct = conversion x flags x width/precision class x length modifier x function')
MIN_EVALS = 5000
_b = None


def rint(r):
    k = r.randrange(5)
    v = r.choice(INTERESTING) if k < 2 else r.getrandbits(r.choice([8, 16, 31, 32, 33, 63, 64])) if k < 4 else r.randrange(300)
    if r.random() < .4:
        v = -v
    return v & 0xffffffffffffffff


def rflo(r):
    k = r.randrange(12)
    if k < 3:
        v = r.choice(FINTERESTING)
    elif k < 6:
        v = r.randrange(-10 ** 6, 10 ** 6) / r.choice([1, 2, 4, 8, 10, 100, 1000, 3, 7])
    elif k < 8:
        v = math.ldexp(r.random(), r.randrange(-1074, 1025))
    elif k < 10:
        # near decimal ties and powers of ten
        v = r.choice([1, .5, .25, .125, 9.5, 99.5, 999.5, 9.9999995, 0.00099995]) * 10.0 ** r.randrange(-12, 16)
        if r.random() < .5:
            v = float(round(v)) + .5
    elif k == 10:
        v = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
    else:
        v = r.choice([math.inf, math.nan, 0.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308])
    if r.random() < .3:
        v = -v
    if v != v:
        v = math.nan
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    lines, descr = [], []
    for _ in range(400):
        fmt, ints, flos, strs, sig = b'', [], [], [b'', b'', b''], []
        nconv = r.choice([1, 1, 1, 2, 3])
        for _ in range(nconv):
            if r.random() < .3:
                fmt += bytes(r.choice([b'x', b' ', b'abc', b'%%', b'\n', b'\xc3\xa9', b'100%% ', b'0', b'-', b'.5d']))
            c = r.choice('dddduuxxXXpssccffffggg')
            need = 2 if len(ints) < 2 else len(ints)
            stars = 0
            fl = ''
            for ch in '+-0':
                if r.random() < .3 and not (c in 'sc' and ch != '-') and not (c == 'p' and ch != '-'):
                    fl += ch
            fl = ''.join(r.sample(fl, len(fl)))
            free = 3 - len(ints) - (0 if c in 'fg' else 1)
            if free < 0:
                continue
            w = ''
            k = r.randrange(10)
            if k < 5:
                w = str(r.choice([1, 2, 3, 5, 8, 10, 17, 20, 31, 40, 100]))
            elif k == 5 and free > 0:
                w = '*'
                free -= 1
                ints.append(r.choice([0, 1, 7, 12, 30, -1, -9, -25]) & 0xffffffff)
            p = ''
            k = r.randrange(10)
            if c not in 'cp' and k < 5:
                p = '.' + r.choice(['', '0', '1', '2', '3', '5', '6', '8', '10', '15', '17', '20', '25', '40'])
                if c in 'fg' and r.random() < .05:
                    p = '.' + r.choice(['100', '320', '1080'])
            elif c not in 'cp' and k == 5 and free > 0:
                p = '.*'
                ints.append(r.choice([0, 1, 2, 5, 9, 20, -1, -5]) & 0xffffffff)
            l = ''
            if c in 'duxX':
                l = r.choice(['', '', 'l', 'll', 'z'])
            elif c == 'f':
                l = r.choice(['', '', 'l'])
            if c in 'fg':
                flos.append(rflo(r))
            elif c == 's':
                n = r.choice([0, 1, 2, 3, 5, 10, 31, 60, 200])
                if p == '.*':
                    pass
                strs[len(ints)] = bytes(r.choice([r.randrange(1, 256), r.randrange(32, 127)]) for _ in range(n))
                ints.append(0xffffffffffffff50 | len(ints))
            elif c == 'c':
                ints.append(r.choice([r.randrange(256), r.randrange(32, 127), 0]))
            elif c == 'p':
                ints.append(rint(r) & 0x7fffffffffff | 1)
            else:
                v = rint(r)
                if v >> 4 == 0xffffffffffffff5:
                    v = 5
                ints.append(v)
            fmt += ('%' + fl + w + p + l + c).encode()
            sig.append((c, ''.join(sorted(fl)), 'w' if w and w != '*' else w, 'p' if len(p) > 1 and p != '.*' else p, l))
        if r.random() < .3:
            fmt += r.choice([b'\n', b'end', b'%%'])
        f = r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 6])
        size = r.choice([0, 1, 2, 5, 9, 16, 32, 63, 64, 65, 200, 6000, 6000, 6000, 6000])
        if f == 6 and any(s[0] == 'c' for s in sig):
            f = 0
        while len(ints) < 3:
            ints.append(r.getrandbits(64) | 1 << 63 if r.random() < .5 else 0)
            if ints[-1] >> 4 == 0xffffffffffffff5:
                ints[-1] = 0
        while len(flos) < 3:
            flos.append(rflo(r))
        lines.append('%x %x %x %x %x %x %x %x %s %s %s %s\n' % (f, size, *ints, *flos, fmt.hex(), *[s.hex() for s in strs]))
        descr.append('%s(size %d, "%s", ints %s, doubles %s, strings %s)' % (
            ['snprintf', 'sprintf', 'vsnprintf', 'vsprintf', 'fprintf', 'vfprintf', 'printf'][f], size,
            fmt.decode('latin-1').encode('unicode_escape').decode(), ['%x' % x for x in ints],
            [struct.unpack('<d', struct.pack('<Q', x))[0] for x in flos[:3]], strs))
        for s in sig:
            res.distinct.add(s + (f,))
    libcheck.compare(res, _b, wd, ''.join(lines).encode(), descr, seed, 'printf.c', two=True)
    return res


def check(ck):
    global _b
    _b = libcheck.Both('printf.c')
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(400, 8000))])
