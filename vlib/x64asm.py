"""Random assembly sources for the x86-64 assembler, and the layout and
decoding that turn an object into comparable items."""
import os
import re
from vlib import core, elf

R8 = ['al', 'cl', 'dl', 'bl', 'ah', 'ch', 'dh', 'bh', 'spl', 'bpl', 'sil', 'dil'] + ['r%db' % i for i in range(8, 16)]
R16 = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + ['r%dw' % i for i in range(8, 16)]
R32 = ['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + ['r%dd' % i for i in range(8, 16)]
R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REGS = {8: R8, 16: R16, 32: R32, 64: R64}
CC = ['o', 'no', 'b', 'ae', 'e', 'ne', 'be', 'a', 's', 'ns', 'p', 'np', 'l', 'ge', 'le', 'g']
DISPS = [0, 1, -1, 8, -8, 127, 128, -127, -128, -129, 255, 256, 4096, -4096, 0x7fffffff, -0x80000000, 0x12345678, -0x12345678]


class Item:
    def __init__(self, text, kind, shape='', sym=None, must=True, n=0):
        self.text, self.kind, self.shape, self.sym, self.must, self.n = text, kind, shape, sym, must, n


class Gen:
    def __init__(self, r):
        self.r = r

    def num(self, v):
        k = self.r.random()
        if k < .45:
            return '%d' % v
        if k < .9:
            return ('-' if v < 0 else '') + self.r.choice(['0x%x', '0x%X']) % abs(v)
        return ('-' if v < 0 else '') + '0%o' % abs(v)

    def reg(self, s):
        return '%' + self.r.choice(REGS[s])

    def xmm(self):
        return '%%xmm%d' % self.r.randrange(16)

    def disp(self, none=.3):
        r = self.r
        if r.random() < none:
            return ''
        v = r.choice(DISPS) if r.random() < .7 else r.randint(-1 << r.randint(1, 31), (1 << r.randint(1, 31)) - 1)
        return self.num(v)

    def ind(self):
        return '%s(%s)' % (self.disp(), self.reg(64))

    def iind(self):
        r = self.r
        i = r.choice([x for x in R64 if x != 'rsp'])
        s = r.choice(['', '', ',1', ',2', ',4', ',8', ', 4'])
        return '%s(%s,%s%%%s%s)' % (self.disp(.5), self.reg(64), r.choice(['', ' ']), i, s)

    def imm(self, size, im32=True):
        r = self.r
        k = r.random()
        bits = min(size, 32) if im32 else size
        lo = -(1 << (bits - 1))
        hi = (1 << (bits - 1)) - 1
        if size <= 32 and r.random() < .3:
            hi = (1 << bits) - 1
        if k < .5:
            v = r.choice([0, 1, -1, 2, 127, 128, -128, -129, 255, 256, lo, hi, lo + 1, hi - 1, hi >> 1, 32767, 32768, 65535, -32768])
            if not lo <= v <= hi:
                v = hi if v > 0 else lo
        else:
            v = r.randint(-1 << r.randint(0, bits - 1), (1 << r.randint(0, bits - 1)) - 1)
        return '$' + self.num(v)

    def insn(self, labels):
        """One instruction; labels: names that may be referenced."""
        r = self.r
        sz = r.choice([8, 16, 32, 64])
        R = self.reg
        k = r.randrange(31)
        sym = None
        sep = r.choice([', ', ',', ' , ', ',\t'])

        def I(m, *ops, **kw):
            shape = m + ' ' + ','.join(shape_of(o) for o in ops)
            t = m + (r.choice([' ', '\t', '  ']) + sep.join(ops) if ops else '')
            if r.random() < .03:
                t = t.upper() if kw.get('sym') is None and '0x' not in t else t
            if r.random() < .03:
                t += r.choice([' ', '\t', ' /* c */'])
            return Item(r.choice([' ', '\t', '']) + t, 'insn', shape, **kw)

        def lab():
            l = r.choice(labels)
            a = r.choice([0, 0, 1, 4, 8, 100, -1, -8, 0x1000])
            return l + ('' if a == 0 else '%+d' % a), (l, a)

        if k == 0:
            return I('mov', R(sz), R(sz))
        if k == 1:
            return I('mov', self.imm(sz, sz < 64), R(sz))
        if k == 2:
            return I('mov', self.ind(), R(sz))
        if k == 3:
            return I('mov', R(sz), self.ind())
        if k == 4:
            return I('mov', self.iind(), R(sz))
        if k == 5:
            v = self.num(r.choice([0, 8, 0x1234, 0x7fffffff, -8, r.randint(0, 0x7fffffff)]))
            if r.random() < .5:
                return I('mov', v, R(sz))
            return I('mov', R(sz), v)
        if k == 6:
            return I('mov', '%fs' + r.choice([':0', ':' + self.num(r.choice([0, 8, 0x28, 0x1000, -8]))]), R(64))
        if k == 7:
            s = r.choice('bwlq')
            d = self.ind() if r.random() < .7 else self.num(r.choice([0, 0x1234, 0x7fffffff, 8]))
            return I('mov' + s, self.imm({'b': 8, 'w': 16, 'l': 32, 'q': 64}[s]), d)
        if k == 8:
            a, b = r.choice([(8, 16), (8, 32), (8, 64), (16, 32), (16, 64), (32, 64)])
            m = r.choice(['movsx', 'movzx'])
            return I(m, R(a), R(b), must=(a, m) != (32, 'movzx'))
        if k == 9:
            return I('lea', r.choice([self.ind, self.iind])(), R(64))
        if k == 10:
            t, sym = lab()
            return I('lea', t + '(%rip)', R(64), sym=sym)
        if k == 11:
            t, sym = lab()
            return I('mov', t + '(%rip)', R(64), sym=sym)
        if k == 12:
            return I(r.choice(['add', 'sub', 'and', 'or', 'xor', 'cmp', 'test']), R(sz), R(sz))
        if k == 13:
            return I(r.choice(['add', 'sub', 'and', 'or', 'xor', 'cmp']), self.imm(sz), R(sz))
        if k == 14:
            return I(r.choice(['add', 'sub']), self.ind(), R(sz))
        if k == 15:
            return I(r.choice(['add', 'sub']), self.iind(), R(sz))
        if k == 16:
            return I(r.choice(['addq', 'subq']), self.imm(64), self.ind())
        if k == 17:
            return I(r.choice(['mul', 'div', 'idiv', 'neg', 'not', 'inc', 'dec']), R(sz))
        if k == 18:
            return I(r.choice(['inc', 'dec']) + r.choice('bwlq'), self.ind())
        if k == 19:
            return I(r.choice(['shl', 'shr', 'sar']), '%cl', R(sz))
        if k == 20:
            return I(r.choice(['shl', 'shr', 'sar']), '$%d' % r.choice([0, 1, 2, 7, 8, 31, 63, r.randint(0, 63)]), R(sz))
        if k == 21:
            return I(r.choice(['cwtl', 'cltd', 'cqto', 'ret', 'syscall', 'endbr64']))
        if k == 22:
            return I('set' + r.choice(CC), R(8))
        if k == 23:
            return I(r.choice(['push', 'pop']), R(64)) if r.random() < .6 else I('push', self.imm(64)) if r.random() < .8 else I('int', '$%d' % r.choice([0, 3, 128, 255]))
        if k == 24:
            return I(r.choice(['jmp', 'call']), '*' + R(64))
        if k == 25:
            return I('jmp', '*' + r.choice([self.ind, self.iind])())
        if k == 26:
            m = r.choice(['mov', 'mov', 'add', 'sub', 'mul', 'div', 'comi', 'ucomi', 'xorp', 'sqrt', 'cvt', 'cvti', 'cvtt', 'cvtt'])
            p = r.choice('sd')
            if m == 'mov':
                a = r.randrange(3)
                return I('movs' + p, *((self.xmm(), self.xmm()) if a == 0 else (self.ind(), self.xmm()) if a == 1 else (self.xmm(), self.ind())))
            if m == 'xorp':
                return I('xorp' + p, self.xmm(), self.xmm())
            if m == 'sqrt':
                return I('sqrtsd', self.xmm(), self.xmm())
            if m == 'cvt':
                return I(r.choice(['cvtsd2ss', 'cvtss2sd']), self.xmm(), self.xmm())
            if m == 'cvti':
                return I('cvtsi2s' + p, R(r.choice([32, 64])), self.xmm())
            if m == 'cvtt':
                return I('cvtts%s2si' % p, self.xmm(), R(r.choice([32, 64])))
            return I(m + 's' + p, self.xmm(), self.xmm())
        if k in (27, 28):
            t = r.choice(labels)
            return I(r.choice(['jmp', 'call'] + ['j' + c for c in CC]), t, sym=(t, 0))
        t = r.choice([l for l in labels if l[0] == 'u'] or labels)
        return I(r.choice(['jmp'] + ['j' + c for c in CC]), t, sym=(t, 0))


def shape_of(o):
    if o.startswith('$'):
        return 'imm'
    if o.startswith('%xmm'):
        return 'xmm'
    if o.startswith('%fs'):
        return 'seg'
    if o.startswith('%'):
        n = o[1:]
        return 'r' + next(str(s) for s in REGS if n in REGS[s])
    star = '*' if o.startswith('*') else ''
    if '(%rip)' in o:
        return star + 'rip'
    if '(' in o:
        return star + ('iind' if ',' in o else 'ind')
    if star:
        return star + 'reg'
    return 'dir'


# ------------------------------------------------------------- object layout
BASES = {'.text': 0x400000, '.data': 0x10000000, '.rodata': 0x14000000, '.bss': 0x18000000}
EXT = 0x20000000
GOT = 0x30000000


class Layout:
    """Places the sections of an object, resolves its relocations."""

    def __init__(self, path):
        e = self.elf = elf.load(path)
        self.base = {}
        nxt = 0x40000000
        for s in e.sections:
            if s.flags & 2:
                if s.name in BASES:
                    self.base[s.index] = BASES[s.name]
                else:
                    self.base[s.index] = nxt
                    nxt += 0x1000000
        self.addr = {}
        self.syms = {}
        ext = {}
        self.symaddr = []
        for s in e.symbols:
            if s.shndx == 0:
                a = EXT + 0x1000 * int(s.name[1:]) if re.fullmatch(r'x\d+', s.name) else 0
            elif s.shndx == 0xfff2:
                a = None
            elif s.shndx == 0xfff1:
                a = s.value
            else:
                a = self.base.get(s.shndx, 0) + s.value
            self.symaddr.append(a)
            if s.name and s.type not in (3, 4):
                self.addr[s.name] = a
                self.syms[s.name] = s
        self.mem = {s.index: bytearray(s.data) for s in e.sections if s.flags & 2}
        self.relkinds = {}
        for rl in e.relocs:
            if rl.sec not in self.mem:
                continue
            p = self.base[rl.sec] + rl.off
            s = self.symaddr[rl.sym.index]
            if s is None:
                s = 0x50000000
            t = rl.type
            if t in (2, 4):
                n, v = 4, s + rl.add - p
            elif t == 24:
                n, v = 8, s + rl.add - p
            elif t == 1:
                n, v = 8, s + rl.add
            elif t in (10, 11):
                n, v = 4, s + rl.add
            elif t == 12:
                n, v = 2, s + rl.add
            elif t == 14:
                n, v = 1, s + rl.add
            elif t in (9, 41, 42):
                n, v = 4, GOT + s // 16 * 16 + rl.add - p
            else:
                raise elf.BadElf('relocation type %d' % t)
            if rl.off + n > len(self.mem[rl.sec]):
                raise elf.BadElf('relocation outside its section')
            self.mem[rl.sec][rl.off:rl.off + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
            self.relkinds[(rl.sec, rl.off)] = t

    def slice(self, a, b):
        for i, base in self.base.items():
            s = self.elf.sections[i]
            if base <= a and b <= base + s.size and a <= b:
                return bytes(self.mem[i][a - base:b - base]) if s.type != 8 else bytes(b - a)
        return None


SLOT = 64


def disasm(wd, chunks, name):
    """[(address, bytes)] -> list of [(length, text)] per chunk."""
    blob = b''.join(c[:SLOT - 16].ljust(SLOT, b'\x90') for a, c in chunks)
    p = os.path.join(wd, name)
    with open(p, 'wb') as fp:
        fp.write(blob)
    out = core.run(['objdump', '-D', '-b', 'binary', '-m', 'i386:x86-64', '-z', '--no-show-raw-insn', '--insn-width=16', p], timeout=60).out.decode()
    ins = []
    for l in out.split('\n'):
        m = re.match(r'\s*([0-9a-f]+):\s+(.*)$', l)
        if m:
            ins.append((int(m.group(1), 16), m.group(2).strip()))
    ins.append((len(blob), ''))
    res = [[] for _ in chunks]
    for (a, t), (b, _) in zip(ins, ins[1:]):
        i = a // SLOT
        if a - i * SLOT < len(chunks[i][1]):
            res[i].append((b - a, t, a - i * SLOT))
    return res


def canon(text, slot, addr):
    """Text of one instruction with absolute targets; returns (text, target or None)."""
    t = re.sub(r'\s+', ' ', text)
    t = re.sub(r'^rex(\.[WRXB]+)? ', '', t)
    tgt = None
    m = re.search(r'#\s*0x([0-9a-f]+)', t)
    if m:
        tgt = (int(m.group(1), 16) - slot + addr) & (2 ** 64 - 1)
        t = t[:m.start()].strip()
        t = re.sub(r'(-?0x[0-9a-f]+)?\(%rip\)', 'T(%rip)', t)
    else:
        m = re.match(r'(j\w+|call)(,p[nt])? 0x([0-9a-f]+)$', t)
        if m:
            tgt = (int(m.group(3), 16) - slot + addr) & (2 ** 64 - 1)
            t = m.group(1) + ' T'
    t = t.replace('movabs ', 'mov ')
    if t == 'int $0x3':
        t = 'int3'
    t = re.sub(r'\b0x0\(', '(', t)
    t = re.sub(r',%r[ie]z,\d', '', t)
    t = re.sub(r'\((%\w+)\)', r'(\1)', t)
    t = t.replace('ds:', '')
    t = re.sub(r'(%\w+),%(\w+),1\)', r'\1,%\2,1)', t)
    return t, tgt
