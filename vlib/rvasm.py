"""RV64GC: generator of assembly source, expander of compressed instructions and normal form of instruction streams."""
import random

MASK = 2 ** 64 - 1


def sx(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


# ---------------------------------------------------------------- decoding

def bits(v, *parts):
    """bits(v, (hi, lo, at), ...): fields of v moved to bit 'at'."""
    r = 0
    for hi, lo, at in parts:
        r |= (v >> lo & ((1 << hi - lo + 1) - 1)) << at
    return r


def I(imm, rs1, f3, rd, op):
    return (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def S(imm, rs2, rs1, f3, op):
    return bits(imm, (11, 5, 25), (4, 0, 7)) | rs2 << 20 | rs1 << 15 | f3 << 12 | op


def R(f7, rs2, rs1, f3, rd, op):
    return f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def B(imm, rs2, rs1, f3):
    return bits(imm, (12, 12, 31), (10, 5, 25), (4, 1, 8), (11, 11, 7)) | rs2 << 20 | rs1 << 15 | f3 << 12 | 0x63


def J(imm, rd):
    return bits(imm, (20, 20, 31), (10, 1, 21), (11, 11, 20), (19, 12, 12)) | rd << 7 | 0x6f


def expand(h):
    """The 32-bit instruction a 16-bit one stands for; None when the encoding is reserved or outside RV64GC."""
    op, f = h & 3, h >> 13
    rd = h >> 7 & 31
    r2 = h >> 2 & 31
    c1, c2 = (h >> 7 & 7) + 8, (h >> 2 & 7) + 8
    if op == 0:
        if f == 0:
            imm = bits(h, (12, 11, 4), (10, 7, 6), (6, 6, 2), (5, 5, 3))
            return I(imm, 2, 0, c2, 0x13) if imm else None
        w = bits(h, (12, 10, 3), (6, 6, 2), (5, 5, 6))
        d = bits(h, (12, 10, 3), (6, 5, 6))
        return {1: I(d, c1, 3, c2, 0x07), 2: I(w, c1, 2, c2, 0x03), 3: I(d, c1, 3, c2, 0x03),
                5: S(d, c2, c1, 3, 0x27), 6: S(w, c2, c1, 2, 0x23), 7: S(d, c2, c1, 3, 0x23)}.get(f)
    imm6 = sx(bits(h, (12, 12, 5), (6, 2, 0)), 6)
    if op == 1:
        if f == 0:
            return I(imm6, rd, 0, rd, 0x13)
        if f == 1:
            return I(imm6, rd, 0, rd, 0x1b) if rd else None
        if f == 2:
            return I(imm6, 0, 0, rd, 0x13)
        if f == 3:
            if imm6 == 0:
                return None
            if rd == 2:
                return I(sx(bits(h, (12, 12, 9), (6, 6, 4), (5, 5, 6), (4, 3, 7), (2, 2, 5)), 10), 2, 0, 2, 0x13)
            return (imm6 & 0xfffff) << 12 | rd << 7 | 0x37
        if f == 4:
            k = h >> 10 & 3
            if k == 0:
                return I(imm6 & 63, c1, 5, c1, 0x13)
            if k == 1:
                return I(0x400 | imm6 & 63, c1, 5, c1, 0x13)
            if k == 2:
                return I(imm6, c1, 7, c1, 0x13)
            return {0: R(0x20, c2, c1, 0, c1, 0x33), 1: R(0, c2, c1, 4, c1, 0x33), 2: R(0, c2, c1, 6, c1, 0x33), 3: R(0, c2, c1, 7, c1, 0x33),
                    4: R(0x20, c2, c1, 0, c1, 0x3b), 5: R(0, c2, c1, 0, c1, 0x3b)}.get(h >> 10 & 4 | h >> 5 & 3)
        if f == 5:
            return J(sx(bits(h, (12, 12, 11), (11, 11, 4), (10, 9, 8), (8, 8, 10), (7, 7, 6), (6, 6, 7), (5, 3, 1), (2, 2, 5)), 12), 0)
        return B(sx(bits(h, (12, 12, 8), (11, 10, 3), (6, 5, 6), (4, 3, 1), (2, 2, 5)), 9), 0, c1, f - 6)
    if op == 2:
        if f == 0:
            return I(imm6 & 63, rd, 1, rd, 0x13)
        ld = bits(h, (12, 12, 5), (6, 5, 3), (4, 2, 6))
        if f == 1:
            return I(ld, 2, 3, rd, 0x07)
        if f == 2:
            return I(bits(h, (12, 12, 5), (6, 4, 2), (3, 2, 6)), 2, 2, rd, 0x03) if rd else None
        if f == 3:
            return I(ld, 2, 3, rd, 0x03) if rd else None
        if f == 4:
            if not h >> 12 & 1:
                if r2 == 0:
                    return I(0, rd, 0, 0, 0x67) if rd else None
                return R(0, r2, 0, 0, rd, 0x33)
            if r2 == 0:
                return I(0, rd, 0, 1, 0x67) if rd else 0x00100073
            return R(0, r2, rd, 0, rd, 0x33)
        sd = bits(h, (12, 10, 3), (9, 7, 6))
        return {5: S(sd, r2, 2, 3, 0x27), 6: S(bits(h, (12, 9, 2), (8, 7, 6)), r2, 2, 2, 0x23), 7: S(sd, r2, 2, 3, 0x23)}.get(f)
    return None


def words(code, addr):
    """(address, length, 32-bit instruction or None, raw)."""
    out, i = [], 0
    while i < len(code):
        h = int.from_bytes(code[i:i + 2], 'little')
        if h & 3 == 3:
            w = int.from_bytes(code[i:i + 4], 'little')
            out.append((addr + i, 4, w if i + 4 <= len(code) else None, w))
            i += 4
        else:
            out.append((addr + i, 2, expand(h), h))
            i += 2
    return out


def normal(code, addr, where, read=None):
    """The stream as operations that do not depend on the choice between equivalent encodings; where: address -> symbolic name."""
    ws = words(code, addr)
    out = []
    const = None            # (rd, value) being built

    def flush():
        nonlocal const
        if const is not None:
            if const[0]:
                out.append('const x%d %#x' % const)
            const = None
    i = 0
    while i < len(ws):
        a, n, w, raw = ws[i]
        i += 1
        if w is None:
            flush()
            out.append('ILLEGAL %x' % raw)
            continue
        op, rd, f3, rs1, rs2, f7 = w & 127, w >> 7 & 31, w >> 12 & 7, w >> 15 & 31, w >> 20 & 31, w >> 25
        imm = sx(w >> 20, 12)
        # constants
        if op == 0x37:
            flush()
            const = (rd, sx(w & 0xfffff000, 32) & MASK)
            continue
        if op == 0x13 and f3 == 0 and rs1 == 0:
            flush()
            const = (rd, imm & MASK)
            continue
        if const is not None and op in (0x13, 0x1b) and rd == rs1 == const[0] and rd:
            v = const[1]
            if op == 0x13 and f3 == 0:
                const = (rd, v + imm & MASK)
                continue
            if op == 0x1b and f3 == 0:
                const = (rd, sx(v + imm, 32) & MASK)
                continue
            if op == 0x13 and f3 == 1:
                const = (rd, v << (w >> 20 & 63) & MASK)
                continue
            if op == 0x13 and f3 == 5 and w >> 26 == 0:
                const = (rd, v >> (w >> 20 & 63))
                continue
        flush()
        if op == 0x17:      # auipc and its user
            t = a + sx(w & 0xfffff000, 32)
            if i < len(ws) and ws[i][2] is not None:
                w2 = ws[i][2]
                o2, d2, g3, s2, im2 = w2 & 127, w2 >> 7 & 31, w2 >> 12 & 7, w2 >> 15 & 31, sx(w2 >> 20, 12)
                if s2 == rd and o2 == 0x13 and g3 == 0 and d2 == rd:
                    i += 1
                    out.append('la x%d %s' % (rd, where(t + im2)))
                    continue
                if s2 == rd and o2 == 0x67 and g3 == 0:
                    i += 1
                    out.append('call x%d %s' % (d2, where(t + im2)))
                    continue
            out.append('auipc x%d %x' % (rd, t))
            continue
        if op == 0x6f:
            t = a + sx(bits(w, (31, 31, 20), (30, 21, 1), (20, 20, 11), (19, 12, 12)), 21)
            out.append('jal x%d %s' % (rd, where(t)))
            continue
        if op == 0x63:
            t = a + sx(bits(w, (31, 31, 12), (30, 25, 5), (11, 8, 1), (7, 7, 11)), 13)
            # inverted branch over a jump
            while i < len(ws) and ws[i][2] is not None and ws[i][2] & 0xfff == 0x6f and t == ws[i][0] + ws[i][1]:
                w2 = ws[i][2]
                t = ws[i][0] + sx(bits(w2, (31, 31, 20), (30, 21, 1), (20, 20, 11), (19, 12, 12)), 21)
                i += 1
                f3 ^= 1
            if f3 < 2 and rs1 < rs2:
                rs1, rs2 = rs2, rs1
            out.append('b%d x%d x%d %s' % (f3, rs1, rs2, where(t)))
            continue
        pure = op in (0x13, 0x1b, 0x33, 0x3b)
        if pure and rd == 0:
            continue            # no effect (hints)
        if op == 0x13 and f3 == 0 and imm == 0 or op == 0x33 and f3 == 0 and f7 == 0 and 0 in (rs1, rs2):
            s = rs1 if op == 0x13 else rs1 or rs2
            if s == 0:
                out.append('const x%d 0x0' % rd)
            elif s != rd:
                out.append('mv x%d x%d' % (rd, s))
            continue
        if (op, f7, f3) in ((0x33, 0, 0), (0x3b, 0, 0), (0x33, 0, 4), (0x33, 0, 6), (0x33, 0, 7)) and rs1 > rs2:
            w = R(f7, rs1, rs2, f3, rd, op)
        out.append('%08x' % w)
    flush()
    return out


# ---------------------------------------------------------------- generation

ABI = ['zero', 'ra', 'sp', 'gp', 'tp', 't0', 't1', 't2', 's0', 's1'] + ['a%d' % i for i in range(8)] + ['s%d' % i for i in range(2, 12)] + ['t3', 't4', 't5', 't6']
FABI = ['ft%d' % i for i in range(8)] + ['fs0', 'fs1'] + ['fa%d' % i for i in range(8)] + ['fs%d' % i for i in range(2, 12)] + ['ft8', 'ft9', 'ft10', 'ft11']
R3 = 'add addw sub subw mul mulw div divu divw divuw rem remu remw remuw and or xor sll sllw srl srlw sra sraw slt sltu'.split()
R2 = 'mv neg not sext.b sext.h sext.w zext.b zext.h zext.w seqz snez sltz sgtz'.split()
RI = 'addi addiw andi ori xori slti sltiu'.split()
SH = ['slli', 'srli', 'srai']
SHW = ['slliw', 'srliw', 'sraiw']
LOADS = 'lb lh lw ld lbu lhu lwu'.split()
STORES = 'sb sh sw sd'.split()
BR = 'beq bne blt bge bltu bgeu'.split()
F3 = ['%s.%s' % (a, b) for a in 'fadd fsub fmul fdiv fsgnj fsgnjn fsgnjx'.split() for b in 'sd']
F2 = ['%s.%s' % (a, b) for a in 'fsqrt fmv fneg'.split() for b in 'sd'] + ['fcvt.d.s', 'fcvt.s.d']
FC = ['%s.%s' % (a, b) for a in 'feq flt fle'.split() for b in 'sd']
FI = ['fcvt.%s.%s' % (a, b) for a in 'sd' for b in ('w', 'wu', 'l', 'lu')]
IF = ['fcvt.%s.%s' % (b, a) for a in 'sd' for b in ('w', 'wu', 'l', 'lu')]
EDGE6 = [0, 1, -1, 31, 32, -32, -33, 15, 16, -16]
EDGE12 = EDGE6 + [2047, 2046, -2048, -2047, 63, 64, 127, 128, 124, 248, 252, 255, 256, 496, 504, 508, 512, -512, -528, 1024]


class Gen:
    arch = 'riscv64'

    def __init__(self, r):
        self.r = r
        self.focus = r.random() < .3

    def x(self):
        r = self.r
        k = r.randrange(10)
        n = r.randrange(8, 16) if k < 5 else r.choice([0, 1, 2, 5]) if k < 7 else r.randrange(32)
        return r.choice(['x%d' % n, ABI[n], ABI[n]] + (['fp'] if n == 8 else []))

    def f(self):
        r = self.r
        n = r.randrange(8, 16) if r.random() < .5 else r.randrange(32)
        return r.choice(['f%d' % n, FABI[n]])

    def num(self, v):
        r = self.r
        if r.random() < .15:
            return '0x%x' % v if v >= 0 else '-0x%x' % -v
        return '%d' % v

    def imm(self):
        r = self.r
        return r.choice(EDGE12) if r.random() < .6 else r.randrange(-2048, 2048)

    def off(self, n):
        r = self.r
        k = r.randrange(4)
        return r.choice(EDGE12) if k == 0 else r.randrange(0, 2048 // n) * n if k == 1 else r.randrange(0, 64) * n if k == 2 else r.randrange(-2048, 2048)

    def mem(self, n):
        r = self.r
        b = r.choice(['sp', 'x2', self.x(), self.x(), self.x()])
        if r.random() < .1:
            return '(%s)' % b
        return '%s(%s)' % (self.num(self.off(n)), b)

    def const(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            v = r.choice(EDGE12)
        elif k == 1:
            v = r.choice([2 ** 11, -2 ** 11 - 1, 2 ** 12, 2 ** 12 - 1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63,
                          0x7ffff800, 0x7ffff7ff, 0x80000800, 0x1f000, 0x1f800, 0x20000, -0x20000, -0x21000, 0x7fffffff800])
        elif k == 2:
            v = 1 << r.randrange(63)
        elif k == 3:
            v = (1 << r.randrange(63)) - r.choice([1, 2, 2048, 2049])
        elif k == 4:
            v = r.getrandbits(64) - 2 ** 63
        elif k == 5:
            v = r.getrandbits(r.randrange(1, 64))
        elif k == 6:
            v = -r.getrandbits(r.randrange(1, 63))
        else:
            v = r.getrandbits(20) << 12 | r.choice([0, 0, 0x7ff, 0x800, 0xfff, 0xfe0, 0x1f, 0x20])
            v = sx(v, 32)
        return v

    def insn(self, labels, data):
        """(shape, text)"""
        r = self.r
        x, f = self.x, self.f
        k = r.randrange(30)
        if k < 6:
            m = r.choice(R3)
            a, b, c = x(), x(), x()
            if r.random() < .5:
                b = a
            elif r.random() < .3:
                c = a
            return m, '%s %s, %s, %s' % (m, a, b, c)
        if k < 8:
            m = r.choice(R2)
            a = x()
            return m, '%s %s, %s' % (m, a, a if r.random() < .2 else x())
        if k < 11:
            m = r.choice(RI)
            a = x()
            return m, '%s %s, %s, %s' % (m, a, a if r.random() < .5 else x(), self.num(self.imm()))
        if k == 11:
            a = r.choice(['sp', 'sp', x()])
            return 'addi sp', 'addi %s, sp, %s' % (a, self.num(r.randrange(-40, 70) * 16))
        if k < 14:
            m = r.choice(SH + SHW)
            a = x()
            n = 32 if m in SHW else 64
            return m, '%s %s, %s, %s' % (m, a, a if r.random() < .6 else x(), self.num(r.choice([0, 1, 31, n - 1, r.randrange(n)])))
        if k < 16:
            m = r.choice(LOADS)
            return m, '%s %s, %s' % (m, x(), self.mem({'b': 1, 'h': 2, 'w': 4, 'd': 8}[m[1]]))
        if k < 18:
            m = r.choice(STORES)
            return m, '%s %s, %s' % (m, x(), self.mem({'b': 1, 'h': 2, 'w': 4, 'd': 8}[m[1]]))
        if k < 20:
            return 'li', 'li %s, %s' % (x(), self.num(self.const()))
        if k == 20:
            m = r.choice(['ret', 'ecall', 'jr', 'jalr'])
            return m, m if m[0] in 're' else '%s %s' % (m, x())
        if k == 21:
            m = r.choice(['fld', 'flw', 'fsd', 'fsw'])
            return m, '%s %s, %s' % (m, f(), self.mem(8 if m[2] == 'd' else 4))
        if k == 22:
            m = r.choice(F3)
            return m, '%s %s, %s, %s' % (m, f(), f(), f())
        if k == 23:
            m = r.choice(F2 + FC + ['fmv.x.d', 'fmv.x.w'])
            if m in F2:
                return m, '%s %s, %s' % (m, f(), f())
            if m in FC:
                return m, '%s %s, %s, %s' % (m, x(), f(), f())
            return m, '%s %s, %s' % (m, x(), f())
        if k == 24:
            m = r.choice(FI + IF)
            if m in FI:
                return m, '%s %s, %s' % (m, f(), x())
            rm = r.choice(['', ', rtz', ', rtz', ', rne', ', rdn', ', rup', ', rmm'])
            return m + rm, '%s %s, %s%s' % (m, x(), f(), rm)
        if k == 25:
            s = r.choice(data + labels)
            add = r.choice(['', '', '+8', '-4', '+2047', '+4096']) if s in data else ''
            return 'la' + bool(add) * '+', 'la %s, %s%s' % (x(), s, add)
        if k == 26:
            s = r.choice(labels + ['extf', 'extg'])
            return 'call', 'call %s' % s
        if k == 27:
            return 'j', 'j %s' % r.choice(labels)
        m = r.choice(BR)
        b = r.choice(['zero', 'x0', x()])
        return m, '%s %s, %s, %s' % (m, x(), b, r.choice(labels))

    def gap(self):
        r = self.r
        return r.choice([2, 4, 60, 62, 64, 120, 122, 124, 126, 128, 230, 240, 250, 252, 254, 256, 258, 500, 1000, 1020, 2000, 2030, 2040, 2042, 2044, 2046, 2048, 2050, 2052, 4000, 4080, 4084, 4086,
                         4088, 4090, 4092, 4094, 4096, 4098, 8000, 70000])

    def bad(self):
        """An instruction without an encoding (most of the time: the reference decides)."""
        r = self.r
        x, f = self.x, self.f
        k = r.randrange(8)
        big = r.choice([2048, -2049, 4095, 4096, 5000, -4096, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 40, 65536])
        if k == 0:
            return '%s %s, %s, %d' % (r.choice(RI), x(), x(), big)
        if k == 1:
            a = x()
            return '%s %s, %s, %d' % (r.choice(SH + SHW), a, r.choice([a, x()]), r.choice([32, 33, 63, 64, 65, 128, -1, -32, 2 ** 32]))
        if k == 2:
            return '%s %s, %d(%s)' % (r.choice(LOADS + STORES), x(), big, x())
        if k == 3:
            return '%s %s, %d(%s)' % (r.choice(['fld', 'flw', 'fsd', 'fsw']), f(), big, x())
        if k == 4:
            return '%s %s, %s, %s' % (r.choice(R3), x(), x(), r.choice(['5', f()]))
        if k == 5:
            return '%s %s, %s, %s' % (r.choice(F3), f(), f(), x())
        if k == 6:
            return r.choice(['mv %s, 5', 'jr %s, %s' % ('%s', x()), 'li %s', 'neg %s', 'fcvt.d.w %s, a0']) % x()
        return '%s %s, %s' % (r.choice(F2), x(), f())
