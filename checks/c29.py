"""C29: the riscv64 and aarch64 assemblers against LLVM's: objects linked at the same place, decoded and compared region by region."""
import os
import random
import re
from vlib import core, elf, rvasm, a64asm

RULE = ('one evaluation = one source line (instruction, datum or operand without an encoding) of which the object of the assembler under test, after linking, says the same as '
        'that of the reference assembler, or which both reject; distinct = architecture x instruction shape')
TECHNIQUE = 'runtime monitoring: objects written by the running assemblers are linked, decoded into a normal form and compared with a reference assembler'
MIN_EVALS = 20000
LLVM = '/usr/lib/llvm-18/bin/'
MC = {'riscv64': ['-triple=riscv64', '-mattr=+m,+a,+f,+d,-c,-relax', '-target-abi=lp64d'], 'aarch64': ['-triple=aarch64-linux-gnu']}
MOD = {'riscv64': rvasm, 'aarch64': a64asm}
EXT = '.text\n.globl extf, extg\n.balign 16\nextf: .zero 64\nextg: .zero 64\n'
LD = 'SECTIONS { . = 0x400000; .text : { *x.o(.text) *e.o(.text) } . = 0x800000; .data : { *(.data) } .rodata : { *(.rodata) }  . = 0xa00000; .got : { *(.got) } . = 0xc00000; .bss : { *(.bss) } /DISCARD/ : { *(.riscv.attributes) *(.note*) *(.comment) } }\n'
_as = {}


def mc(arch, wd, src, out):
    p = os.path.join(wd, out + '.s')
    open(p, 'w').write(src)
    return core.run([LLVM + 'llvm-mc', *MC[arch], '-filetype=obj', '-o', os.path.join(wd, out), p], cwd=wd, timeout=60)


def xas(arch, wd, src, out):
    p = os.path.join(wd, 'in.s')
    open(p, 'w').write(src)
    o = os.path.join(wd, out)
    if os.path.exists(o):
        os.unlink(o)
    return core.run2([_as[arch], '-o', o, p], cwd=wd, timeout=60)


def link(arch, wd, obj):
    out = os.path.join(wd, obj + '.elf')
    if os.path.exists(out):
        os.unlink(out)
    os.replace(os.path.join(wd, obj), os.path.join(wd, 'x.o'))
    r = core.run(['ld.lld-18', '--no-relax', '-n', '-z', 'norelro', '-T', 'l.ld', '-o', out, 'x.o', 'e.o'], cwd=wd, timeout=60)
    return r, out


class Image:
    def __init__(self, path):
        d = self.data = open(path, 'rb').read()
        import struct
        shoff, = struct.unpack_from('<Q', d, 0x28)
        n, names = struct.unpack_from('<HH', d, 0x3c)
        self.sec = [struct.unpack_from('<IIQQQQIIQQ', d, shoff + 64 * i) for i in range(n)]
        self.sym = {}
        self.alias = {}
        for s in self.sec:
            if s[1] == 2:
                st = self.sec[s[6]]
                for o in range(s[4], s[4] + s[5], 24):
                    nm, info, other, shn, val, size = struct.unpack_from('<IBBHQQ', d, o)
                    e = d.index(b'\0', st[4] + nm)
                    name = d[st[4] + nm:e].decode()
                    if name and shn:
                        self.sym[name] = val
        self.addr = sorted((v, k) for k, v in self.sym.items() if re.match(r'(R|dat)\d+$|ext.$', k))

    def bytes(self, a, b):
        for s in self.sec:
            if s[1] == 1 and s[3] <= a and b <= s[3] + s[5]:
                return self.data[s[4] + a - s[3]:s[4] + b - s[3]]
        return None

    def got(self, a):
        """The word at an address of the global offset table."""
        if 0xa00000 <= a < 0xc00000:
            c = self.bytes(a, a + 8)
            return c and int.from_bytes(c, 'little')
        return None

    def where(self, t):
        lo = None
        for v, k in self.addr:
            if v <= t:
                lo = (v, k) if lo is None or v > lo[0] else lo
        n = lo and lo[1]
        while n in self.alias:
            n = self.alias[n]
        return '%s+%x' % (n, t - lo[0]) if lo and t - lo[0] < 0x10000 else 'addr %x' % t


def gen(r, arch):
    """regions: list of (lines [(shape, text)], gap)"""
    g = MOD[arch].Gen(r)
    n = r.choice([6, 20, 60])
    labels = ['R%d' % i for i in range(n)]
    data = ['dat%d' % i for i in range(6)]
    regs = []
    for i in range(n):
        near = labels[max(0, i - 3):i + 4]
        lines = [g.insn(near if r.random() < .8 else labels, data) for _ in range(r.choice([1, 1, 2, 3, 6, 20]))]
        regs.append((lines, g.gap() if r.random() < (.4 if n == 6 else .08) else 0))
    return g, regs, data


def datasec(r, labels, res):
    out = ['.data', '.balign 16' if False else '.align 16', '.globl dat0', 'dat0: .quad 1, 2']
    out[1] = '.p2align 4'
    for i in range(1, 6):
        d = r.choice(['.quad %d' % r.getrandbits(63), '.quad %s' % r.choice(labels), '.quad %s+%d' % (r.choice(['dat0', 'dat%d' % i, 'extf']), r.randrange(100)), '.quad dat0-%d' % r.randrange(9),
                      '.long %d' % r.getrandbits(32), '.byte 1, 2, 3', '.short 65535\n.byte 255', '.zero %d' % r.randrange(1, 40), '.string "abc"', '.ascii "xy\\n"', '.quad -1', '.p2align 3\n.quad 7'])
        out += ['.globl dat%d' % i, 'dat%d:' % i] + d.split('\n')
    out += ['.globl datend', 'datend:', '.byte 0']
    return out


def render(regs, ds):
    t = ['.text']
    for i, (lines, gap) in enumerate(regs):
        t += ['.globl R%d' % i, 'R%d:' % i] + [x for _, x in lines]
        if gap:
            t += ['.globl G%d' % i, 'G%d:' % i, '.zero %d' % gap]
    t += ['.globl Rend', 'Rend:', '.p2align 4'] + ds
    return '\n'.join(t) + '\n'


def single(arch, text):
    return '.text\n.globl R0\nR0:\n%s\n.globl Rend\nRend:\n.p2align 4\n.data\n.globl dat0\ndat0: .quad 0\n' % text


def accepted(arch, wd, lines, labels, data):
    """Lines the reference takes (one call for all of them)."""
    src = ['.text'] + ['%s: ' % l for l in labels]
    at = {}
    for i, (_, x) in enumerate(lines):
        for y in x.split('\n'):
            src.append(y)
            at[len(src)] = i
    r = mc(arch, wd, '\n'.join(src) + '\n.data\n' + ''.join('%s: .byte 0\n' % d for d in data), 'f.o')
    bad = {at.get(int(m)) for m in re.findall(rb'\.s:(\d+):\d+: error', r.err)}
    return [l for i, l in enumerate(lines) if i not in bad], [lines[i] for i in bad if i is not None]


def decode(arch, img, a, b):
    c = img.bytes(a, b)
    return ['no such place %x-%x' % (a, b)] if c is None else MOD[arch].normal(c, a, img.where, img.got)


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    arch = r.choice(['riscv64', 'aarch64'])
    open(os.path.join(wd, 'l.ld'), 'w').write(LD)
    e = mc(arch, wd, EXT, 'e.o')
    if e.rc:
        raise core.HarnessError('llvm-mc: ' + e.err.decode()[:300])
    if r.random() < .25:
        return probes(res, r, arch, wd, seed)
    g, regs, data = gen(r, arch)
    labels = ['R%d' % i for i in range(len(regs))]
    for i, (lines, gap) in enumerate(regs):
        pass
    flat = [l for lines, _ in regs for l in lines]
    ok, bad = accepted(arch, wd, flat, labels, data)
    bad = set(bad)
    if len(bad) > len(flat) // 8 + 2:
        raise core.HarnessError('%s: the reference rejects %s' % (arch, sorted(bad)[:5]))
    regs = [([l for l in lines if l not in bad], gap) for lines, gap in regs]
    ds = datasec(r, labels, res)
    src = render(regs, ds)
    x = xas(arch, wd, src, 'a.o')
    files = {'in.s': src}
    if x.rc != 0:
        # which lines
        m = re.findall(rb'in\.s\((\d+)\)', x.err)
        what = [src.split('\n')[int(n) - 1] for n in m[:3] if int(n) <= src.count('\n')]
        res.bad('%s: the assembler fails on valid source: %s %s seed=%s' % (arch, what, x.brief(), seed), files)
        return res
    y = mc(arch, wd, src, 'b.o')
    if y.rc != 0:
        raise core.HarnessError('llvm-mc: ' + y.err.decode()[:300])
    img = {}
    for k in 'ab':
        l, p = link(arch, wd, k + '.o')
        if l.rc != 0:
            if k == 'b':
                raise core.HarnessError('lld: ' + l.err.decode()[:300])
            res.bad('%s: the object cannot be linked: %s seed=%s' % (arch, l.err.decode('latin-1')[:300], seed), files)
            return res
        img[k] = Image(p)
    A, B = img['a'], img['b']
    # regions without code (an instruction may need none) make names of the same place
    alias = {}
    for im in (A, B):
        for (v, k), (w, l) in zip(im.addr, im.addr[1:]):
            if v == w:
                alias[l] = k
    for im in (A, B):
        im.alias = alias
    names = []
    for i, (lines, gap) in enumerate(regs):
        names.append(('R%d' % i, i))
        if gap:
            names.append(('G%d' % i, None))
    names.append(('Rend', None))
    for (n, i), (m, _) in zip(names, names[1:]):
        if any(s not in A.sym for s in (n, m)):
            res.bad('%s: symbol %s is missing seed=%s' % (arch, n, seed), files)
            return res
        if i is None:
            if A.sym[m] - A.sym[n] != regs[int(n[1:])][1]:
                res.bad('%s: .zero %d takes %d bytes seed=%s' % (arch, regs[int(n[1:])][1], A.sym[m] - A.sym[n], seed), files)
                return res
            continue
        da, db = decode(arch, A, A.sym[n], A.sym[m]), decode(arch, B, B.sym[n], B.sym[m])
        res.evals += len(regs[i][0])
        res.events += len(da)
        for s, _ in regs[i][0]:
            res.distinct.add('%s %s' % (arch, s))
        if da != db:
            j = next((j for j, (p, q) in enumerate(zip(da, db)) if p != q), min(len(da), len(db)))
            line = regs[i][0][0][1] if len(regs[i][0]) == 1 else regs[i][0][j][1] if len(da) == len(db) == len(regs[i][0]) else '; '.join(t for _, t in regs[i][0])
            res.bad('%s: %r is encoded as %s, reference %s seed=%s' % (arch, line.replace('\n', ';')[:300], da[j:j + 2], db[j:j + 2], seed),
                    dict(files, region='\n'.join(t for _, t in regs[i][0]), got='\n'.join(da), expected='\n'.join(db)))
            return res
    # data: bytes, with pointers by name
    for (n, m) in zip(['dat%d' % i for i in range(6)], ['dat%d' % i for i in range(1, 6)] + ['datend']):
        la, lb = A.sym.get(m, 0) - A.sym.get(n, 0), B.sym[m] - B.sym[n]
        ca, cb = A.bytes(A.sym.get(n, 0), A.sym.get(m, 0)), B.bytes(B.sym[n], B.sym[m])
        res.evals += 1
        i = ds.index('%s:' % n) if '%s:' % n in ds else 3
        what = ds[i + 1] if i != 3 else '.quad 1, 2'
        res.distinct.add('%s data %s' % (arch, re.sub(r'[R\d]\w*', 'N', what)))
        if la == lb and ca != cb and '.quad' in what and len(ca) == 8 and re.search(r'[a-zR]', what[5:]):
            if A.where(int.from_bytes(ca, 'little')) == B.where(int.from_bytes(cb, 'little')):
                continue
        if la != lb or ca != cb:
            res.bad('%s: %r gives %s, reference %s seed=%s' % (arch, what, ca and ca.hex(), cb.hex(), seed), files)
            return res
    if res.sample is None:
        res.sample = {'line': flat[0][1], 'decoded': da[:2]}
    return res


def probes(res, r, arch, wd, seed):
    """Operands at and over the edges, one line at a time: both reject, or both encode the same."""
    g = MOD[arch].Gen(r)
    lines = [('probe', g.bad()) for _ in range(25)]
    good, bad = accepted(arch, wd, lines, ['R0'], ['dat0'])
    bad = set(bad)
    for l in lines:
        x = xas(arch, wd, single(arch, l[1]), 'a.o')
        res.evals += 1
        shape = re.sub(r'-?\b(0x)?\d+\b', 'N', re.sub(r'\b[wxsd]\d+\b|\b[astf]\d+\b', 'R', l[1]))
        res.distinct.add('%s probe %s' % (arch, shape.split(' ')[0]))
        files = {'in.s': single(arch, l[1])}
        if x.rc != 0:
            if x.timeout or x.rc < 0 or b'ssertion' in x.err:
                res.bad('%s: the assembler fails on %r: %s seed=%s' % (arch, l[1], x.brief(), seed), files)
                return res
            res.count('rejected')
            continue
        if l in bad:
            o = open(os.path.join(wd, 'a.o'), 'rb').read()
            rr, p = link(arch, wd, 'a.o')
            d = None
            if rr.rc == 0:
                im = Image(p)
                d = decode(arch, im, im.sym['R0'], im.sym['Rend'])
            res.bad('%s: %r has no encoding but is taken and encoded as %s seed=%s' % (arch, l[1], d, seed), files)
            return res
        y = mc(arch, wd, single(arch, l[1]), 'b.o')
        if y.rc != 0:
            raise core.HarnessError('llvm-mc: ' + y.err.decode()[:300])
        d = {}
        for k in 'ab':
            rr, p = link(arch, wd, k + '.o')
            if rr.rc != 0:
                if k == 'b':
                    raise core.HarnessError('lld: ' + rr.err.decode()[:300])
                res.bad('%s: the object of %r cannot be linked: %s seed=%s' % (arch, l[1], rr.err.decode('latin-1')[:200], seed), files)
                return res
            im = Image(p)
            d[k] = decode(arch, im, im.sym['R0'], im.sym['Rend'])
        if d['a'] != d['b']:
            res.bad('%s: %r is encoded as %s, reference %s seed=%s' % (arch, l[1], d['a'], d['b'], seed), files)
            return res
    return res


def check(ck):
    for a in ('riscv64', 'aarch64'):
        _as[a] = os.path.join(core.build(a), 'as')
    ck.run_cases(case, ['C29/%d/%d' % (ck.seed, i) for i in range(ck.n(2000, 40000))])
