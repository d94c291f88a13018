"""Random straight-line C code whose every intermediate value is known.

The generator evaluates what it emits while it emits it, with an executable
model of C11 arithmetic (two's complement, given type sizes).  Expressions
whose evaluation would be undefined are never emitted, and the value every
emitted expression must have is known exactly: this is the oracle.
"""
import math
import struct


class T:
    def __init__(self, name, size, signed, rank, flo=False):
        self.name, self.size, self.signed, self.rank, self.flo = name, size, signed, rank, flo
        self.bits = size * 8
        # xcc gives _Bool the size of int (the size is implementation-defined)
        self.store = 4 if name == '_Bool' else size

    def __repr__(self):
        return self.name

    @property
    def min(self):
        return -(1 << (self.bits - 1)) if self.signed else 0

    @property
    def max(self):
        if self.name == '_Bool':
            return 1
        return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1

    def fits(self, v):
        return self.min <= v <= self.max


class Target:
    def __init__(self, name, long_size):
        self.name = name
        self.long_size = long_size
        self.BOOL = T('_Bool', 1, False, 0)
        self.CHAR = T('char', 1, True, 1)
        self.SCHAR = T('signed char', 1, True, 1)
        self.UCHAR = T('unsigned char', 1, False, 1)
        self.SHORT = T('short', 2, True, 2)
        self.USHORT = T('unsigned short', 2, False, 2)
        self.INT = T('int', 4, True, 3)
        self.UINT = T('unsigned int', 4, False, 3)
        self.LONG = T('long', long_size, True, 4)
        self.ULONG = T('unsigned long', long_size, False, 4)
        self.LLONG = T('long long', 8, True, 5)
        self.ULLONG = T('unsigned long long', 8, False, 5)
        self.FLOAT = T('float', 4, True, 10, True)
        self.DOUBLE = T('double', 8, True, 11, True)
        self.ints = [self.BOOL, self.CHAR, self.SCHAR, self.UCHAR, self.SHORT, self.USHORT,
                     self.INT, self.UINT, self.LONG, self.ULONG, self.LLONG, self.ULLONG]
        self.flos = [self.FLOAT, self.DOUBLE]

    def unsigned_of(self, t):
        return {self.INT: self.UINT, self.LONG: self.ULONG, self.LLONG: self.ULLONG,
                self.SHORT: self.USHORT, self.CHAR: self.UCHAR, self.SCHAR: self.UCHAR}.get(t, t)

    def promote(self, t):
        if t.flo:
            return t
        return self.INT if t.rank < 3 else t

    def usual(self, a, b):
        if a.flo or b.flo:
            return a if a.rank >= b.rank else b
        a, b = self.promote(a), self.promote(b)
        if a is b:
            return a
        if a.signed == b.signed:
            return a if a.rank >= b.rank else b
        u, s = (a, b) if not a.signed else (b, a)
        if u.rank >= s.rank:
            return u
        if s.size > u.size:
            return s
        return self.unsigned_of(s)


LP64 = Target('lp64', 8)
ILP32 = Target('ilp32', 4)


def f32(x):
    if math.isnan(x) or math.isinf(x):
        return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


class Undefined(Exception):
    pass


def convert(v, frm, to):
    """Value conversion; raises Undefined when C leaves it undefined."""
    if to.name == '_Bool':
        return 1 if v != 0 else 0
    if to.flo:
        if frm.flo:
            return f32(v) if to.size == 4 else v
        if to.size == 4:
            return int_to_f32(v)
        return float(v)
    if frm.flo:
        if math.isnan(v) or math.isinf(v):
            raise Undefined
        i = int(v)
        if not to.fits(i):
            raise Undefined
        return i
    v &= (1 << to.bits) - 1
    if to.signed and v >> (to.bits - 1):
        v -= 1 << to.bits
    return v


def int_to_f32(v):
    # correctly rounded int -> float32 (no double rounding)
    if v == 0:
        return 0.0
    s = -1 if v < 0 else 1
    a = abs(v)
    n = a.bit_length()
    if n > 24:
        sh = n - 24
        q, r = a >> sh, a & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        a = q << sh
    return s * float(a)


def fdiv(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    if math.isnan(a) or math.isnan(b):
        return math.nan
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1, b)


def bits_of(v, t):
    """What the program's out() prints for a value of type t."""
    if t.flo:
        if math.isnan(v):
            return 'nan'
        return '%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]
    return '%016x' % (v & 0xffffffffffffffff)


class Var:
    def __init__(self, src, t, value, width=None, const=False):
        self.src, self.t, self.value, self.width, self.const = src, t, value, width, const

    def store(self, v, frm):
        v = convert(v, frm, self.t)
        if self.width is not None and self.t.name != '_Bool':
            v &= (1 << self.width) - 1
            if self.t.signed and v >> (self.width - 1):
                v -= 1 << self.width
        self.value = v
        return v


INTERESTING = [0, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 255, 256, 257,
               511, 512, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537,
               0xfffff, 0x100000, 0x7fffff, 0x800000, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff,
               0x100000000, 0x1ffffffff, 0x7fffffffff, 0x123456789abcdef, 0x7fffffffffffffff,
               0x8000000000000000, 0xffffffffffffffff, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555]
FINTERESTING = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, 10.0, 0.1, -0.1, 100.25, 1e10, -1e10, 1e20,
                127.0, 128.0, 255.5, 256.0, 32767.0, 32768.0, 65535.0, 65536.0, 2147483647.0,
                2147483648.0, 4294967295.0, 4294967296.0, -2147483648.0, 9007199254740993.0,
                9.2e18, 9223372036854775808.0, 1.2e19, 1e-10, 1e-300, 1e300, 3.4028234663852886e38,
                1.17549435e-38, 5e-324, 1.0000001192092896, 16777216.0, 16777217.0]


class Gen:
    """One function body (or constant expression context)."""

    def __init__(self, rng, tg=LP64, floats=False, consts_only=False, calls=True, fcalls=(), sidefx=True,
                 no_nan=True):
        self.r, self.tg, self.floats, self.consts_only = rng, tg, floats, consts_only
        self.calls = calls
        self.sidefx = sidefx
        self.vars = []
        self.used = set()
        self.modified = set()
        self.ops = set()
        self.types = list(tg.ints) + (tg.flos * 6 if floats else [])
        self.prec = {}              # parenthesised text -> precedence of the operator inside
        self.funcs = list(fcalls)   # (name, argtypes, rettype, pyfunc)

    # -- values
    def rand_int(self, t):
        r = self.r
        k = r.randrange(10)
        if k < 4:
            v = r.choice(INTERESTING)
            if r.random() < .3:
                v = -v
        elif k < 6:
            v = (1 << r.randrange(64)) + r.choice([-1, 0, 1])
            if r.random() < .3:
                v = -v
        elif k < 8:
            v = r.randrange(-20, 40)
        else:
            v = r.getrandbits(r.choice([8, 16, 32, 64]))
        if t.name == '_Bool':
            return r.randrange(2)
        return convert(v, self.tg.LLONG, t)

    def rand_flo(self, t):
        r = self.r
        k = r.randrange(8)
        if k < 4:
            v = r.choice(FINTERESTING)
            if r.random() < .2:
                v = -v
        elif k < 6:
            v = float(r.randrange(-1000, 1000)) / r.choice([1, 2, 4, 8, 10, 3])
        else:
            v = math.ldexp(r.random() - .5, r.randrange(-40, 60))
        if t.size == 4:
            v = f32(v)
            if math.isinf(v):
                v = f32(r.choice([1.5, -2.25, 3.4028234663852886e38, 1e-20]))
        return v

    def rand_val(self, t):
        return self.rand_flo(t) if t.flo else self.rand_int(t)

    # -- literals
    def int_literal(self, v, t):
        """Source text of type t with value v (as a constant expression)."""
        r, tg = self.r, self.tg
        if t in (tg.INT, tg.UINT, tg.LONG, tg.ULONG, tg.LLONG, tg.ULLONG):
            suf = {tg.INT: '', tg.UINT: r.choice('uU'), tg.LONG: r.choice('lL'),
                   tg.ULONG: r.choice(['ul', 'UL', 'lu', 'LU']), tg.LLONG: r.choice(['ll', 'LL']),
                   tg.ULLONG: r.choice(['ull', 'ULL', 'LLU'])}[t]
            if v < 0:
                if v == t.min:
                    return '(%s-1)' % self.int_literal(v + 1, t)
                return '(-%s)' % self.int_literal(-v, t)
            # non-decimal literals may get an unsigned type only when the value does not fit
            k = r.randrange(6)
            if t.signed and k in (0, 1, 2, 3) or k < 3:
                return '%d%s' % (v, suf)
            if k == 3 or k == 5:
                return '%s%x%s' % (r.choice(['0x', '0X']), v, suf)
            if k == 4:
                return ('0%o%s' % (v, suf)) if v else '0' + suf
            return '%d%s' % (v, suf)
        base = self.tg.LLONG if t.rank >= 4 else self.tg.INT
        if t.name == 'char' and 32 < v < 127 and r.random() < .5 and chr(v) not in "\\'":
            return "'%s'" % chr(v) if r.random() < .0 else '(char)%d' % v
        return '((%s)%s)' % (t.name, self.int_literal(v, base))

    def flo_literal(self, v, t):
        r = self.r
        if math.isnan(v) or math.isinf(v):
            raise Undefined
        neg = math.copysign(1, v) < 0
        a = abs(v)
        k = r.randrange(4)
        if t.size == 4:
            if k == 0:
                s = float.hex(a)
            else:
                s = '%.9g' % a
            if 'p' not in s and '.' not in s and 'e' not in s:
                s += '.0'
            s += r.choice('fF')
        else:
            if k == 0:
                s = float.hex(a)
            else:
                s = repr(a)
            if 'p' not in s and '.' not in s and 'e' not in s:
                s += '.0'
        return '(-%s)' % s if neg else s

    def literal(self, v, t):
        return self.flo_literal(v, t) if t.flo else self.int_literal(v, t)

    # -- leaves
    def leaf(self, want=None):
        r = self.r
        cands = [v for v in self.vars if v.src not in self.modified]
        if want is not None:
            c2 = [v for v in cands if v.t is want]
            if c2 and r.random() < .8:
                cands = c2
        if self.consts_only or not cands or r.random() < .22:
            t = want or r.choice(self.types)
            v = self.rand_val(t)
            return self.literal(v, t), t, v
        v = r.choice(cands)
        self.used.add(v.src)
        t = v.t
        if v.width is not None:
            # bit-field: value keeps declared type for our purposes after promotion to int
            wide = t.size > 4 or t.name.endswith('long')    # whether these are promoted is disputed
            if t.name != '_Bool' and (v.width < 32 or (v.width == 32 and t.signed)):
                t = t if wide else self.tg.INT
            if wide:
                return '((%s)%s)' % (t.name, v.src), t, v.value
        return v.src, t, v.value

    # -- expressions
    def expr(self, depth, want=None):
        for _ in range(12):
            mu, mm, mo = set(self.used), set(self.modified), set(self.ops)
            st = [(v, v.value) for v in self.vars]
            try:
                return self.expr1(depth, want)
            except Undefined:
                self.used, self.modified, self.ops = mu, mm, mo
                for v, x in st:
                    v.value = x
        return self.leaf(want)

    def expr1(self, depth, want=None):
        r, tg = self.r, self.tg
        if depth <= 0 or r.random() < .08:
            return self.leaf(want)
        k = r.randrange(100)
        if k < 12:
            return self.cast(depth)
        if k < 24:
            return self.unary(depth)
        if k < 68:
            return self.binary(depth)
        if k < 72:
            return self.chain(depth)
        if k < 80:
            return self.ternary(depth)
        if k < 86:
            return self.logical(depth)
        if k < 90 and not self.consts_only:
            a, _, _ = self.expr(depth - 1)
            b, t, v = self.expr(depth - 1)
            # the type of a comma expression whose last operand is a bit-field is disputed
            bare = any(x.width is not None and x.src == b for x in self.vars)
            return '((void)(%s), %s%s)' % (a, '+' if bare else '', b), t, v
        if k < 95 and self.sidefx and not self.consts_only:
            return self.incdec()
        if k < 100 and self.calls and self.funcs and not self.consts_only:
            return self.call(depth)
        return self.binary(depth)

    PREC = {'*': 13, '/': 13, '%': 13, '+': 12, '-': 12, '<<': 11, '>>': 11, '<': 10, '<=': 10, '>': 10, '>=': 10,
            '==': 9, '!=': 9, '&': 8, '^': 7, '|': 6, '&&': 5, '||': 4, '?:': 3}

    def bare(self, s, least):
        """Drops the parentheses where precedence makes them redundant, mostly."""
        if self.prec.get(s, 0) >= least and self.r.random() < .6:
            return s[1:-1]
        return s

    def par(self, s, prec):
        s = '(%s)' % s
        self.prec[s] = prec
        return s

    def cast(self, depth):
        r = self.r
        t = r.choice(self.types)
        s, ft, v = self.expr(depth - 1)
        nv = convert(v, ft, t)
        self.ops.add(('cast', ft.name, t.name))
        return self.par('(%s)%s' % (t.name, self.bare(s, 14)), 14), t, nv

    def unary(self, depth):
        r, tg = self.r, self.tg
        op = r.choice(['-', '+', '~', '!', '-', '~'])
        s, t, v = self.expr(depth - 1)
        if t.flo and op == '~':
            op = '-'
        self.ops.add((op, t.name))
        if op == '!':
            if isinstance(v, float) and math.isnan(v):
                raise Undefined
            return self.par('!%s' % self.bare(s, 14), 14), tg.INT, int(v == 0)
        pt = tg.promote(t)
        v = convert(v, t, pt)
        if t.flo:
            return self.par('%s %s' % (op, self.bare(s, 14)), 14), t, (-v if op == '-' else v)
        if op == '-':
            v = self.wrap(-v, pt)
        elif op == '~':
            v = convert(~v, tg.LLONG, pt)
        return self.par('%s %s' % (op, self.bare(s, 14)), 14), pt, v

    def wrap(self, v, t):
        if t.signed:
            if not t.fits(v):
                raise Undefined
            return v
        return v & ((1 << t.bits) - 1)

    def binop(self, op, a, b):
        """a, b = (src, type, value) -> (type, value)"""
        tg = self.tg
        (sa, ta, va), (sb, tb, vb) = a, b
        if op in ('<<', '>>'):
            if ta.flo or tb.flo:
                raise Undefined
            t = tg.promote(ta)
            va = convert(va, ta, t)
            if vb < 0 or vb >= t.bits:
                raise Undefined
            if op == '<<':
                if t.signed and (va < 0 or not t.fits(va << vb)):
                    raise Undefined
                return t, self.wrap(va << vb, t)
            return t, va >> vb
        t = tg.usual(ta, tb)
        va, vb = convert(va, ta, t), convert(vb, tb, t)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            res = {'==': va == vb, '!=': va != vb, '<': va < vb, '<=': va <= vb, '>': va > vb,
                   '>=': va >= vb}[op]
            return tg.INT, int(res)
        if t.flo:
            if op in ('%', '&', '|', '^'):
                raise Undefined
            if op == '/':
                v = fdiv(va, vb)
            else:
                try:
                    v = va + vb if op == '+' else va - vb if op == '-' else va * vb
                except OverflowError:
                    v = math.inf
            if t.size == 4:
                v = f32(v)
            if math.isnan(v):
                raise Undefined
            return t, v
        if op == '+':
            v = self.wrap(va + vb, t)
        elif op == '-':
            v = self.wrap(va - vb, t)
        elif op == '*':
            v = self.wrap(va * vb, t)
        elif op in ('/', '%'):
            if vb == 0:
                raise Undefined
            q = abs(va) // abs(vb)
            if (va < 0) != (vb < 0):
                q = -q
            if t.signed and not t.fits(q):
                raise Undefined
            v = q if op == '/' else va - q * vb
        elif op == '&':
            v = va & vb
        elif op == '|':
            v = va | vb
        elif op == '^':
            v = va ^ vb
        else:
            raise AssertionError(op)
        return t, v

    BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '<=', '>', '>=',
           '+', '-', '*', '/', '%', '<<', '>>', '*', '/', '%']

    def binary(self, depth):
        r, tg = self.r, self.tg
        op = r.choice(self.BIN)
        if self.floats and r.random() < .4:
            op = r.choice(['+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!='])
        a = self.expr(depth - 1)
        b = None
        if op in ('<<', '>>') and r.random() < .8:
            bits = tg.promote(a[1]).bits if not a[1].flo else 32
            n = r.choice([0, 1, 2, 3, 7, 8, 15, 16, 24, 31, bits - 1, bits // 2, r.randrange(bits)])
            if r.random() < .6 or self.consts_only:
                b = (self.literal(n, tg.INT), tg.INT, n)
            else:
                s, t, v = self.expr(depth - 2)
                if t.flo:
                    raise Undefined
                pt = tg.promote(t)
                m = convert(v, t, pt) & (bits - 1)
                b = ('(%s & %d)' % (s, bits - 1), pt, m)
        elif op in ('/', '%', '*') and r.random() < .5 and not a[1].flo:
            n = 1 << r.randrange(12)
            if r.random() < .3:
                n = r.choice([3, 5, 7, 10, 100, 1000, 255, 65535])
            if r.random() < .25:
                n = 1 << r.randrange(62)
            t = r.choice([tg.INT, tg.UINT, tg.LONG, tg.ULONG, tg.LLONG, tg.ULLONG])
            if not t.fits(n):
                n = 2
            if t.signed and r.random() < .3:
                n = -n
            b = (self.literal(n, t), t, n)
        elif r.random() < .25 and not a[1].flo:
            n = self.rand_int(tg.INT)
            b = (self.literal(n, tg.INT), tg.INT, n)
        if b is None:
            b = self.expr(depth - 1)
        if r.random() < .12:
            a, b = b, a
        t, v = self.binop(op, a, b)
        self.ops.add((op, a[1].name, b[1].name))
        p = self.PREC[op]
        return self.par('%s %s %s' % (self.bare(a[0], p), op, self.bare(b[0], p + 1)), p), t, v

    def chain(self, depth):
        """A value followed by constants: what rewriting of adjacent operations with constants has to get right."""
        r, tg = self.r, self.tg
        x = self.leaf() if r.random() < .7 else self.expr(depth - 1)
        group = r.choice([['+', '-'], ['+', '-'], ['+', '-'], ['<<', '>>'], ['&', '|', '^'], ['*', '/', '%'], ['*', '+', '-'], ['>>', '&', '<<']])
        if x[1].flo:
            group = ['+', '-', '*', '/'] if r.random() < .5 else ['+', '-']
        for _ in range(r.choice([2, 2, 2, 3, 4])):
            op = r.choice(group)
            n = r.choice([0, 1, 2, 3, 5, 7, 8, 9, 31, 100, 255, 4096, r.randrange(1 << 20), r.randrange(1 << 31)])
            if op in ('<<', '>>'):
                n %= 32 if r.random() < .9 else 63
            elif op in ('/', '%', '*'):
                n = n % 1000 + 1
                n = -n if r.random() < .3 else n
            elif r.random() < .4:
                n = -n
            t = tg.INT if r.random() < .8 else r.choice([tg.UINT, tg.LONG, tg.ULONG])
            n = convert(n, tg.LLONG, t)
            c = (self.literal(n, t), t, n)
            a, b = (c, x) if op in ('+', '*', '&', '|', '^') and r.random() < .1 else (x, c)
            t, v = self.binop(op, a, b)
            p = self.PREC[op]
            x = self.par('%s %s %s' % (self.bare(a[0], p), op, self.bare(b[0], p + 1)), p), t, v
            self.ops.add(('chain', op, n < 0))
        return x

    def ternary(self, depth):
        tg = self.tg
        c, ct, cv = self.expr(depth - 1)
        # evaluate both arms for type; only one takes effect: keep arms free of side effects
        sf, self.sidefx = self.sidefx, False
        cf, self.calls = self.calls, False
        try:
            a = self.expr(depth - 1)
            b = self.expr(depth - 1)
        finally:
            self.sidefx, self.calls = sf, cf
        t = tg.usual(a[1], b[1])
        v = convert(a[2], a[1], t) if cv != 0 else convert(b[2], b[1], t)
        self.ops.add(('?:', a[1].name, b[1].name))
        return self.par('%s ? %s : %s' % (self.bare(c, 4), self.bare(a[0], 3), self.bare(b[0], 3)), 3), t, v

    def logical(self, depth):
        op = self.r.choice(['&&', '||'])
        a = self.expr(depth - 1)
        sf, self.sidefx = self.sidefx, False
        try:
            b = self.expr(depth - 1)
        finally:
            self.sidefx = sf
        v = (a[2] != 0 and b[2] != 0) if op == '&&' else (a[2] != 0 or b[2] != 0)
        self.ops.add((op, a[1].name, b[1].name))
        p = self.PREC[op]
        return self.par('%s %s %s' % (self.bare(a[0], p), op, self.bare(b[0], p + 1)), p), self.tg.INT, int(v)

    def incdec(self):
        r = self.r
        c = [v for v in self.vars if v.src not in self.used and v.src not in self.modified and
             not v.const and v.t.name != '_Bool']
        if not c:
            raise Undefined
        v = r.choice(c)
        d = r.choice([1, -1])
        old = v.value
        if v.t.flo:
            new = v.value + d
            if v.t.size == 4:
                new = f32(new)
        else:
            pt = self.tg.promote(v.t)
            new = self.wrap(convert(old, v.t, pt) + d, pt)
        pre = r.random() < .5
        new2 = v.store(new, v.t if v.t.flo else pt)
        self.modified.add(v.src)
        self.ops.add(('++' if d > 0 else '--', pre, v.t.name, v.width is not None))
        o = '++' if d > 0 else '--'
        t = v.t
        s = '(%s%s)' % (o, v.src) if pre else '(%s%s)' % (v.src, o)
        if v.width is not None:
            # type of a bit-field expression: avoid relying on it beyond its value
            s, t = '((%s)%s)' % (t.name, s), t
        return s, t, (new2 if pre else old)

    def call(self, depth):
        r = self.r
        name, at, rt, fn = r.choice(self.funcs)
        args = []
        vals = []
        for t in at:
            s, ft, v = self.expr(depth - 1)
            vals.append(convert(v, ft, t))
            args.append(s)
        v = fn(*vals)
        self.ops.add(('call', name))
        return '%s(%s)' % (name, ', '.join(args)), rt, v

    # -- statements
    def begin(self):
        self.used, self.modified = set(), set()

    def assign(self, depth):
        """One assignment statement to a random variable."""
        r, tg = self.r, self.tg
        c = [v for v in self.vars if not v.const]
        v = r.choice(c)
        for _ in range(20):
            self.begin()
            self.modified.add(v.src)   # never also read or changed by the right-hand side
            st = [(x, x.value) for x in self.vars]
            mo = set(self.ops)
            try:
                if r.random() < .45:
                    self.modified.discard(v.src)
                    self.used.add(v.src)  # may be read, not modified
                    s, t, val = self.expr(depth)
                    if v.src in self.modified:
                        raise Undefined
                    v.store(val, t)
                    self.ops.add(('=', v.t.name, t.name))
                    return '%s = %s;' % (v.src, s)
                op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
                if op in ('<<', '>>') and not v.t.flo:
                    n = r.randrange(tg.promote(v.t).bits)
                    s, t, val = self.literal(n, tg.INT), tg.INT, n
                    if r.random() < .4:
                        e = self.expr(depth - 1)
                        if e[1].flo:
                            raise Undefined
                        m = tg.promote(v.t).bits - 1
                        s, t, val = '(%s & %d)' % (e[0], m), tg.promote(e[1]), convert(e[2], e[1], tg.promote(e[1])) & m
                else:
                    s, t, val = self.expr(depth)
                lt = v.t
                if v.width is not None:
                    if lt.size > 4 or lt.name.endswith('long'):
                        raise Undefined
                    if lt.name != '_Bool' and v.width < 32:
                        lt = tg.INT
                rt, val2 = self.binop(op, (v.src, lt, v.value), (s, t, val))
                v.store(val2, rt)
                self.ops.add((op + '=', v.t.name, t.name))
                return '%s %s= %s;' % (v.src, op, s)
            except Undefined:
                self.ops = mo
                for x, y in st:
                    x.value = y
        return ';'
