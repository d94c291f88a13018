"""A reader for ELF64 relocatable objects and executables (any little-endian machine)."""
import struct
from collections import namedtuple

Sec = namedtuple('Sec', 'index name type flags addr off size link info align entsize data')
Sym = namedtuple('Sym', 'index name value size bind type other shndx')
Rel = namedtuple('Rel', 'sec off type sym add')
Seg = namedtuple('Seg', 'type flags off vaddr paddr filesz memsz align')


class BadElf(Exception):
    pass


def _str(tab, off):
    if off >= len(tab):
        raise BadElf('string offset %d outside the table' % off)
    e = tab.find(b'\0', off)
    if e < 0:
        raise BadElf('unterminated string table')
    return tab[off:e].decode('utf-8', 'replace')


class Elf:
    def __init__(self, data):
        self.data = data
        if data[:6] != b'\x7fELF\x02\x01' or len(data) < 64:
            raise BadElf('not a little-endian ELF64 file')
        (self.type, self.machine, _, self.entry, self.phoff, self.shoff, self.eflags, self.ehsize, self.phentsize, self.phnum, self.shentsize,
         self.shnum, self.shstrndx) = struct.unpack_from('<HHIQQQIHHHHHH', data, 16)
        raw = []
        if self.shoff:
            if self.shoff + self.shnum * 64 > len(data):
                raise BadElf('section headers outside the file')
            for i in range(self.shnum):
                raw.append(struct.unpack_from('<IIQQQQIIQQ', data, self.shoff + 64 * i))
        self.sections = []
        shstr = b''
        if raw and self.shstrndx < len(raw):
            s = raw[self.shstrndx]
            shstr = data[s[4]:s[4] + s[5]]
        for i, (n, t, fl, addr, off, size, link, info, al, es) in enumerate(raw):
            if t not in (0, 8) and off + size > len(data):
                raise BadElf('section %d outside the file' % i)
            self.sections.append(Sec(i, _str(shstr, n) if shstr else '', t, fl, addr, off, size, link, info, al, es, b'' if t in (0, 8) else data[off:off + size]))
        self.symbols = []
        self.first_global = None
        for s in self.sections:
            if s.type == 2:
                st = self.sections[s.link].data
                for k in range(0, s.size, 24):
                    n, inf, oth, shn, val, size = struct.unpack_from('<IBBHQQ', s.data, k)
                    self.symbols.append(Sym(k // 24, _str(st, n), val, size, inf >> 4, inf & 15, oth, shn))
                self.first_global = s.info
        self.relocs = []
        for s in self.sections:
            if s.type == 4:
                for k in range(0, s.size, 24):
                    off, info, add = struct.unpack_from('<QQq', s.data, k)
                    if (info >> 32) >= len(self.symbols):
                        raise BadElf('relocation names symbol %d of %d' % (info >> 32, len(self.symbols)))
                    self.relocs.append(Rel(s.info, off, info & 0xffffffff, self.symbols[info >> 32], add))
        self.segments = []
        for i in range(self.phnum):
            t, fl, off, va, pa, fs, ms, al = struct.unpack_from('<IIQQQQQQ', data, self.phoff + 56 * i)
            self.segments.append(Seg(t, fl, off, va, pa, fs, ms, al))

    def sec(self, name):
        for s in self.sections:
            if s.name == name:
                return s
        return None


def load(path):
    with open(path, 'rb') as fp:
        return Elf(fp.read())
