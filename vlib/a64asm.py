"""AArch64: generator of assembly source and normal form (one word per instruction, targets by name)."""
from .rvasm import sx, bits


def normal(code, addr, where, read):
    out = []
    page = {}
    i = 0
    while i + 4 <= len(code):
        w = int.from_bytes(code[i:i + 4], 'little')
        a = addr + i
        i += 4
        if w >> 26 in (5, 37):
            out.append('%s %s' % ('bl' if w >> 31 else 'b', where(a + sx(w, 26) * 4)))
        elif w >> 24 == 0x54:
            out.append('b.%x %s' % (w & 31, where(a + sx(w >> 5, 19) * 4)))
        elif w >> 24 & 0x9f == 0x90:
            t = (a & ~0xfff) + (sx(bits(w, (23, 5, 2), (30, 29, 0)), 21) << 12)
            page[w & 31] = t
            out.append('adrp x%d %x' % (w & 31, t))
            continue
        elif w >> 22 == 0x3e5 and w >> 5 & 31 in page and read(page[w >> 5 & 31] + (w >> 10 & 0xfff) * 8) is not None:
            # through the global offset table, whose order is the linker's choice
            out.append('got x%d x%d %s' % (w & 31, w >> 5 & 31, where(read(page[w >> 5 & 31] + (w >> 10 & 0xfff) * 8))))
        elif w >> 23 & 0xff in (0x25, 0xa5) and w >> 29 & 3 in (0, 2) and w & 31 != 31 and (w >> 31 or not w >> 22 & 1):
            v = (w >> 5 & 0xffff) << 16 * (w >> 21 & 3)
            m = 2 ** (64 if w >> 31 else 32) - 1
            out.append('const r%d %x' % (w & 31, v if w >> 30 & 1 else ~v & m))
        elif w >> 21 & 0x7f9 == 0x1c1 and w >> 10 & 3 == 2 and w >> 30 == 0:
            out.append('%08x' % (w & ~0x1000))      # bytes are not scaled
        else:
            out.append('%08x' % w)
        page.clear()
    if i != len(code):
        out.append('TRUNCATED ' + code[i:].hex())
    return out


CONDS = 'eq ne hs lo mi pl vs vc hi ls ge lt gt le'.split()


class Gen:
    arch = 'aarch64'

    def __init__(self, r):
        self.r = r

    def g(self, s, zr=True, sp=False):
        r = self.r
        k = r.randrange(12)
        if sp and s == 'x' and r.random() < .3:
            return 'sp'
        if zr and k == 0:
            return s + 'zr'
        if k == 1 and s == 'x':
            return r.choice(['fp', 'lr'])
        return '%s%d' % (s, r.randrange(31))

    def v(self, s):
        return '%s%d' % (s, self.r.randrange(32))

    def num(self, v):
        return '#0x%x' % v if v >= 0 and self.r.random() < .15 else '#%d' % v

    def base(self):
        return self.r.choice(['sp', self.g('x', zr=False), self.g('x', zr=False)])

    def mem(self, n, data, pair=False):
        r = self.r
        b = self.base()
        k = r.randrange(10)
        if pair:
            o = r.choice([0, n, -n, 63 * n, -64 * n, r.randrange(-64, 64) * n])
            return ['[%s]' % b, '[%s, %s]' % (b, self.num(o)), '[%s, %s]!' % (b, self.num(o)), '[%s], %s' % (b, self.num(o))][k % 4 if o else 1]
        if k < 1:
            return '[%s]' % b
        if k < 4:
            o = r.choice([0, n, 4095 * n, r.randrange(4096) * n])
            return '[%s, %s]' % (b, self.num(o))
        if k < 5:
            return '[%s, %s]' % (b, self.num(r.choice([-1, -256, 255, 1, 3, -n, r.randrange(-256, 256)])))
        o = self.num(r.choice([-256, 255, 0, 16, -16, r.randrange(-256, 256)]))
        if k == 5:
            return '[%s, %s]!' % (b, o)
        if k == 6:
            return '[%s], %s' % (b, o)
        sh = n.bit_length() - 1
        if k == 7:
            return '[%s, %s]' % (b, self.g('x'))
        if k == 8:
            return '[%s, %s, %s]' % (b, self.g('x'), r.choice(['lsl #%d' % sh, 'sxtx', 'sxtx #%d' % sh]))
        return '[%s, %s, %s]' % (b, self.g('w'), r.choice(['sxtw', 'uxtw', 'sxtw #%d' % sh, 'uxtw #%d' % sh]))

    def insn(self, labels, data):
        r = self.r
        s = r.choice('wxx')
        g = self.g
        n = 64 if s == 'x' else 32
        k = r.randrange(30)
        if k < 3:
            m = r.choice(['add', 'sub'])
            j = r.randrange(5)
            if j == 0:
                return m, '%s %s, %s, %s' % (m, g(s), g(s), g(s))
            if j == 1:
                sp = s == 'x'
                return m + ' imm', '%s %s, %s, %s' % (m, g(s, zr=False, sp=sp), g(s, zr=False, sp=sp), self.num(r.choice([0, 1, 4095, 2048, -1, -4095, r.randrange(4096), -r.randrange(4096)])))
            if j == 2:
                e = r.choice(['lsl', 'lsr', 'asr'])
                return m + ' shift', '%s %s, %s, %s, %s #%d' % (m, g(s), g(s), g(s), e, r.choice([0, 1, 3, n - 1, r.randrange(n)]))
            if j == 3:
                e = r.choice(['uxtb', 'uxth', 'uxtw', 'sxtb', 'sxth', 'sxtw'] + (['uxtx', 'sxtx'] if s == 'x' else []))
                i = r.choice(['', '', ' #%d' % r.randrange(5)])
                # the extended register is written as one of the operation's size here: an encoding has no room for its name
                return m + ' extend', '%s %s, %s, %s, %s%s' % (m, g(s, zr=False), g(s, zr=False), g(s), e, i)
            return m + ' sp', '%s %s, %s, %s' % (m, r.choice(['sp', g('x', zr=False)]), 'sp', g('x'))
        if k < 5:
            m = r.choice('mul sdiv udiv and orr eor eon lsl lsr asr'.split())
            return m, '%s %s, %s, %s' % (m, g(s), g(s), g(s))
        if k == 5:
            m = r.choice(['madd', 'msub'])
            return m, '%s %s, %s, %s, %s' % (m, g(s), g(s), g(s), g(s))
        if k < 8:
            m = r.choice(['lsl', 'lsr', 'asr'])
            return m + ' imm', '%s %s, %s, #%d' % (m, g(s), g(s), r.choice([0, 1, n - 1, n // 2, r.randrange(n)]))
        if k == 8:
            m = r.choice(['cmp', 'cmn'])
            return m, '%s %s, %s' % (m, g(s), g(s))
        if k == 9:
            m = r.choice(['cmp', 'cmn'])
            return m + ' imm', '%s %s, %s' % (m, g(s, zr=False), self.num(r.choice([0, 1, 4095, r.randrange(4096)])))
        if k == 10:
            m = r.choice(['sxtb', 'sxth', 'sxtw', 'uxtb', 'uxth'])
            d = 'x' if m == 'sxtw' else s if m[0] == 's' else 'w'
            return m, '%s %s, %s' % (m, g(d), g('w'))
        if k < 13:
            v = r.choice([0, 1, -1, 65535, -65536, -65535, 32768, r.getrandbits(16), -r.getrandbits(16)])
            return 'mov imm', 'mov %s, %s' % (g(s, zr=False), self.num(v))
        if k == 13:
            return 'movk', 'movk %s, %s, lsl #%d' % (g(s, zr=False), self.num(r.choice([0, 65535, 0x8000, r.getrandbits(16)])), r.randrange(n // 16) * 16)
        if k == 14:
            if r.random() < .4:
                a, b = r.choice([('sp', g('x', zr=False)), (g('x', zr=False), 'sp'), ('sp', 'sp')])
                return 'mov sp', 'mov %s, %s' % (a, b)
            return 'mov', 'mov %s, %s' % (g(s), g(s))
        if k < 18:
            m = r.choice('ldr ldr ldrb ldrh ldrsb ldrsh ldrsw str str strb strh'.split())
            sz = {'b': 1, 'h': 2, 'w': 4}.get(m[-1], 8 if s == 'x' else 4) if m not in ('ldr', 'str') else 8 if s == 'x' else 4
            d = 'x' if m == 'ldrsw' else s if m in ('ldr', 'str', 'ldrsb', 'ldrsh') else 'w'
            o = self.mem(sz, data)
            return m + ' ' + ''.join(c for c in o if c in '[],!') + ('#' if '#' in o else '') + ''.join(t for t in ('lsl', 'sxtw', 'uxtw', 'sxtx') if t in o), '%s %s, %s' % (m, g(d), o)
        if k == 18:
            m = r.choice(['ldr', 'str'])
            t = r.choice('sd')
            o = self.mem(8 if t == 'd' else 4, data)
            return m + ' fp ' + ''.join(c for c in o if c in '[],!'), '%s %s, %s' % (m, self.v(t), o)
        if k == 19:
            m = r.choice(['ldp', 'stp'])
            t = r.choice(['w', 'x', 'x', 's', 'd'])
            a, b = r.sample(range(31 if t in 'wx' else 32), 2)
            o = self.mem(8 if t in 'xd' else 4, data, pair=True)
            return m + t + ''.join(c for c in o if c in '[],!'), '%s %s%d, %s%d, %s' % (m, t, a, t, b, o)
        if k == 20:
            return 'cset', 'cset %s, %s' % (g(s), r.choice(CONDS))
        if k == 21:
            m = r.choice(['br', 'blr', 'ret', 'svc'])
            return m, m if m == 'ret' else 'svc #%d' % r.choice([0, 1, 65535]) if m == 'svc' else '%s %s' % (m, g('x', zr=False))
        if k == 22:
            t = r.choice('sd')
            m = r.choice(['fadd', 'fsub', 'fmul', 'fdiv'])
            return m, '%s %s, %s, %s' % (m, self.v(t), self.v(t), self.v(t))
        if k == 23:
            t = r.choice('sd')
            m = r.choice(['fmov', 'fcmp', 'fneg', 'fsqrt'])
            return m + t, '%s %s, %s' % (m, self.v(t), self.v(t))
        if k == 24:
            t = r.choice('sd')
            m = r.choice(['scvtf', 'ucvtf', 'fcvtzs', 'fcvtzu', 'fcvt'])
            if m == 'fcvt':
                return m + t, 'fcvt %s, %s' % (self.v(t), self.v('s' if t == 'd' else 'd'))
            a, b = (self.v(t), g(s)) if m[1] == 'c' and m[0] != 'f' else (g(s), self.v(t))
            return m + t + s, '%s %s, %s' % (m, a, b)
        if k == 25:
            y = r.choice(data)
            add = r.choice(['', '', '+8', '+4088'])
            x = g('x', zr=False)
            return 'adrp', 'adrp %s, %s%s\n add %s, %s, :lo12:%s%s' % (x, y, add, x, x, y, add)
        if k == 26:
            y = r.choice(['extf', 'extg'] + data)
            x = g('x', zr=False)
            return 'got', 'adrp %s, :got:%s\n ldr %s, [%s, #:got_lo12:%s]' % (x, y, x, x, y)
        if k == 27:
            return 'bl', 'bl %s' % r.choice(labels + ['extf', 'extg'])
        if k == 28:
            return 'b', 'b %s' % r.choice(labels)
        m = r.choice(CONDS)
        return 'b' + m, 'b%s %s' % (m, r.choice(labels))

    def gap(self):
        r = self.r
        return r.choice([4, 8, 64, 256, 4096, 32764, 32768, 70000, 1 << 17])

    def bad(self):
        r = self.r
        g = self.g
        s = r.choice('wx')
        k = r.randrange(12)
        big = r.choice([4096, -4096, 4097, 5000, -5000, 65536, -65537, 2 ** 31, 2 ** 32, 2 ** 40])
        if k == 0:
            return '%s %s, %s, #%d' % (r.choice(['add', 'sub']), g(s, zr=False), g(s, zr=False), big)
        if k == 1:
            return '%s %s, %s, #%d' % (r.choice(['lsl', 'lsr', 'asr']), g(s), g(s), r.choice([32, 33, 63, 64, 65, -1, 128, 5000]))
        if k == 2:
            return 'mov %s, #%d' % (g(s, zr=False), r.choice([big, 65537, 0x12345, 0x123456789, -65538, -0x12345, -2 ** 40 - 5]))
        if k == 3:
            return 'movk %s, #%d, lsl #%d' % (g(s, zr=False), r.choice([65536, -1, 5]), r.choice([0, 16, 32, 48, 8, 64]))
        if k == 4:
            m = r.choice('ldr ldrb ldrh ldrsb ldrsh str strb strh'.split())
            return '%s %s, [%s, #%d]%s' % (m, g('w'), self.base(), r.choice([257, 4097, -257, 8191, 16384, 32768, 65536, 2 ** 32]), r.choice(['', '', '!']))
        if k == 5:
            m = r.choice('ldr ldrb ldrh str strb strh'.split())
            return '%s %s, [%s, %s, %s #%d]' % (m, g('w'), self.base(), g(r.choice('wx')), r.choice(['lsl', 'sxtw', 'uxtw', 'sxtx']), r.choice([0, 1, 2, 3, 4, 5]))
        if k == 6:
            m = r.choice(['ldp', 'stp'])
            return '%s %s, %s, [%s, #%d]' % (m, 'x1', 'x2', self.base(), r.choice([4, 512, -520, 1, 1024]))
        if k == 7:
            return '%s %s, #%d' % (r.choice(['cmp', 'cmn']), g(s, zr=False), r.choice([4096, 5000, -5000, 2 ** 32]))
        if k == 8:
            return '%s %s, %s, %s, %s #%d' % (r.choice(['add', 'sub']), g(s), g(s), g(s), r.choice(['lsl', 'lsr', 'asr', 'uxtb', 'sxtw', 'uxtx']), r.choice([5, 32, 63, 64, 8, -1]))
        if k == 9:
            return r.choice(['add %s, %s, w3' % (g('x'), g('x')), 'mul %s, %s, %s' % (g('w'), g('x'), g('w')), 'cset %s, al' % g(s), 'cset %s, nv' % g(s),
                             'mov %s, %s' % (g('w'), g('x')), 'mul sp, x1, x2', 'ldrsw %s, [x1]' % g('w'), 'strb %s, [x1]' % g('x'), 'cmp sp, xzr',
                             'lsl sp, x1, x2', 'and x1, sp, x2', 'add x1, x2, sp', 'ldr x1, [xzr]', 'ldr x1, [w2]', 'mov w1, sp', 'uxtw x1, x2', 'sxtb w1, x2', 'ldr x1, [x2, sp]',
                             'add wzr, w1, #1', 'mov xzr, #5', 'movk xzr, #5, lsl #16', 'add xzr, x1, #1', 'sub x1, xzr, #1', 'cmp xzr, #1', 'add xzr, x1, w2, sxtw', 'uxtb x1, w2', 'uxth x1, w2', 'uxtw x1, w2'])
        if k == 10:
            return 'svc #%d' % r.choice([65536, -1, 2 ** 32])
        return r.choice(['fadd s0, d1, s2', 'fmov d0, s1', 'fcvt d0, d1', 'scvtf w0, d1', 'fcmp d0, #1', 'adrp x0, 5', 'br w0', 'blr xzr', 'b x0', 'ldp x1, w2, [x3]', 'ldp x1, x2, [x3, x4]',
                         'ldr x1, [x2, #8]!, #8', 'ldr d0, [x1, #4097]', 'str s0, [x1, #3]', 'str d0, [x1, #32768]', 'movk x0, #1', 'msub x0, x1, x2', 'fcvtzs d0, x1'])
