"""Programs which reach objects by every way of writing a path: constant addresses, pointers kept at constant addresses, globals, locals.

rt.c (compiled by gcc) maps the region and stores the pointers in it; a.c reads, writes, measures and takes addresses along random paths.
"""

INTS = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long']
BASE = 0x20000000

RT = r'''#include <stdio.h>
#include <sys/mman.h>
#include <string.h>
@DEFS@
static unsigned long h(const void *p, unsigned long n) { unsigned long v = 1469598103934665603ul; for (const unsigned char *q = p; n--; ) v = (v ^ *q++) * 1099511628211ul; return v; }
void sink(int i, long v) { printf("%d %ld\n", i, v); }
void sinka(int i, const void *p) {
  unsigned long v = (unsigned long)p, b = 0x20000000ul;
  printf("%d @%s%ld\n", i, v - b < 65536 ? "" : "?", v - b < 65536 ? (long)(v - b) : 0l);
}
extern void run(void);
int main(void) {
  if (mmap((void *)0x20000000ul, 65536, 3, MAP_FIXED_NOREPLACE | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) == MAP_FAILED) return 99;
  for (int i = 0; i < 65536; ++i) ((unsigned char *)0x20000000ul)[i] = i * 37 + (i >> 8) * 11;
@PTRS@
  run();
  printf("memory %lx\n", h((void *)0x20000000ul, 65536));
  return 0;
}
'''


class PathProg:
    def __init__(self, r):
        self.r = r
        self.kinds = set()
        self.structs = []      # (tag, fields)
        self.ofs = 64
        self.ptrs = []         # statements of rt.c
        self.defs = []         # shared
        self.roots = []        # (text, type)
        self.n = 0
        for i in range(r.randrange(1, 4)):
            self.structs.append(self.struct(i))
        for i in range(r.randrange(3, 8)):
            self.root(i)

    # types: ('i', name), ('a', t, n), ('s', index), ('p', t, lo, hi): the pointer may be moved from lo to hi
    def struct(self, i):
        r, f = self.r, []
        for j in range(r.randrange(1, 5)):
            f.append(('m%d' % j, self.type(2, ptr=True)))
        self.structs_text = None
        return ('S%d' % i, f)

    def type(self, depth, ptr=False):
        r = self.r
        k = r.random()
        if depth == 0 or k < .35:
            return ('i', r.choice(INTS))
        if k < .6:
            return ('a', self.type(depth - 1, ptr), r.randrange(1, 5))
        if k < .8 and self.structs:
            return ('s', r.randrange(len(self.structs)))
        if ptr:
            n = r.randrange(1, 5)
            at = r.randrange(n)
            return ('p', self.type(depth - 1, True), -at, n - 1 - at)
        return ('i', r.choice(INTS))

    def decl(self, t, d=''):
        if t[0] == 'i':
            return t[1] + ' ' + d
        if t[0] == 's':
            return 'struct %s %s' % (self.structs[t[1]][0], d)
        if t[0] == 'a':
            return self.decl(t[1], '%s[%d]' % ('(%s)' % d if d.startswith('*') else d, t[2]))
        return self.decl(t[1], '*' + d)

    def size(self, t):     # upper bound; rt.c relies on the region being large enough only
        if t[0] == 'i' or t[0] == 'p':
            return 8
        if t[0] == 'a':
            return t[2] * self.size(t[1])
        return sum(self.size(x) for _, x in self.structs[t[1]][1]) + 8

    def alloc(self, t, n=1):
        o = self.ofs
        self.ofs = (self.ofs + self.size(t) * n + 8 + 15) // 16 * 16
        return o

    def point(self, t, lv):
        """Let every pointer in the object lv point to fresh storage."""
        if len(self.ptrs) > 120:
            depth = 1
        if t[0] == 'p':
            n = t[3] - t[2] + 1
            o = self.alloc(t[1], n)
            self.ptrs.append('  %s = (%s)%d + %d;' % (lv, self.decl(t[1], '*'), BASE + o, -t[2]))
            for i in range(n):
                self.point(t[1], '((%s)%d)[%d]' % (self.decl(t[1], '*'), BASE + o, i))
        elif t[0] == 'a':
            for i in range(t[2]):
                self.point(t[1], '%s[%d]' % (lv, i))
        elif t[0] == 's':
            for m, x in self.structs[t[1]][1]:
                self.point(x, '%s.%s' % (lv, m))

    def root(self, i):
        r = self.r
        t = self.type(3, ptr=True)
        if t[0] == 'i' and r.random() < .7:
            t = ('p', self.type(2, True), 0, 1)
            t = (t[0], t[1], -r.randrange(2), r.randrange(1, 3))
        how = r.choice(['const', 'const', 'ptr', 'global'])
        if self.ofs > 40000:
            return
        if how == 'const':
            o = self.alloc(t)
            text = '(*(%s)0x%xul)' % (self.decl(t, '*'), BASE + o) if r.random() < .8 else '((%s)0x%xul)[0]' % (self.decl(t, '*'), BASE + o)
            if r.random() < .2:
                n = r.randrange(2, 4)
                o = self.alloc(t, n)
                k = r.randrange(n)
                text = '((%s)0x%xul)[%d]' % (self.decl(t, '*'), BASE + o, k)
            self.defs.append('#define R%d %s' % (i, text))
        elif how == 'ptr':
            o = self.alloc(t)
            self.defs.append('#define R%d (*G%d)' % (i, i))
            self.ptrs.append('  G%d = (%s)%d;' % (i, self.decl(t, '*'), BASE + o))
            self.defs.append('#ifdef RTC\n%s;\n#else\nextern %s;\n#endif' % (self.decl(t, '*G%d' % i), self.decl(t, '*G%d' % i)))
        else:
            self.defs.append('#ifdef RTC\n%s;\n#else\nextern %s;\n#endif' % (self.decl(t, 'R%d' % i), self.decl(t, 'R%d' % i)))
        self.point(t, 'R%d' % i)
        self.roots.append(('R%d' % i, t, how))

    def idx(self, i):
        r = self.r
        k = r.random()
        if k < .55:
            return str(i) if i >= 0 else '(%d)' % i
        if k < .75:
            return '(z + %d)' % i
        if k < .85:
            self.kinds.add('char index')
            return '((signed char)(z + %d))' % i
        if k < .95:
            return '(%d - 1)' % (i + 1)
        return '((long)%d)' % i

    def disguise(self, x, t):
        """Another way of writing the lvalue x."""
        r = self.r
        k = r.randrange(12)
        if k == 0:
            y = '(*&%s)' % x
        elif k == 1:
            y = '(&%s)[0]' % x
        elif k == 2:
            y = '(*(%s)&%s)' % (self.decl(t, '*'), x)
        elif k == 3:
            i = r.randrange(-2, 3)
            y = '(&%s + %s)[%s]' % (x, self.idx(i), self.idx(-i))
        elif k == 4:
            y = '(*(%s)(void *)&%s)' % (self.decl(t, '*'), x)
        elif k == 5:
            y = '(%s)' % x
        elif k == 6:
            y = '(*(%s)((char *)&%s + %s))' % (self.decl(t, '*'), x, self.idx(0))
        elif k == 7 and r.random() < .4:
            y = '(*(%s)(unsigned long)&%s)' % (self.decl(t, '*'), x)
        elif k == 8 and r.random() < .5:
            y = '(*(z ? 0 : &%s))' % x
        elif k == 9 and r.random() < .5:
            y = '(*(z, &%s))' % x
        else:
            return x
        self.kinds.add('as %d' % k)
        return y

    def path(self):
        r = self.r
        x, t, how = r.choice(self.roots)
        shape = how
        while True:
            if r.random() < .25:
                x = self.disguise(x, t)
            if t[0] == 'i' or r.random() < .12:
                break
            if t[0] == 's':
                m, t2 = r.choice(self.structs[t[1]][1])
                k = r.random()
                if k < .6:
                    x = '%s.%s' % (x, m)
                elif k < .85:
                    x = '(&%s)->%s' % (x, m)
                else:
                    x = '(*&%s).%s' % (x, m)
                shape, t = shape + '.', t2
            else:
                lo, hi = (0, t[2] - 1) if t[0] == 'a' else (t[2], t[3])
                i = r.randrange(lo, hi + 1)
                k = r.random()
                if t[1][0] == 's' and k < .3 and i == 0:
                    m, t2 = r.choice(self.structs[t[1][1]][1])
                    x = '%s->%s' % (x, m)
                    shape, t = shape + '>', t2
                    continue
                if t[1][0] == 's' and k < .25:
                    m, t2 = r.choice(self.structs[t[1][1]][1])
                    x = '(%s + %s)->%s' % (x, self.idx(i), m)
                    shape, t = shape + '+>', t2
                    continue
                if k < .6:
                    x = '%s[%s]' % (x, self.idx(i))
                elif k < .8:
                    x = '(*(%s + %s))' % (x, self.idx(i))
                elif k < .88:
                    x = '%s[%s]' % (self.idx(i), x)
                    x = '(%s)' % x
                else:
                    j = r.randrange(-2, 3)
                    x = '(&%s[%s])[%s]' % (x, self.idx(i + j), self.idx(-j))
                shape, t = shape + ('[' if t[0] == 'a' else '*'), t[1]
        self.kinds.add('path ' + shape)
        return x, t

    def stmt(self):
        r = self.r
        x, t = self.path()
        self.n += 1
        n = self.n
        k = r.random()
        self.kinds.add('%s of %s' % (int(k * 10) // 2, t[0]))
        if t[0] == 's' and k < .4:
            tag = self.structs[t[1]][0]
            k = r.random()
            if k < .4:
                return '{ struct %s l = %s; sinka(%d, &%s); %s = l; }' % (tag, x, n, x, x)
            return 'sink(%d, sizeof(%s)); %s = %s;' % (n, x, x, x if '(z,' not in x else x)
        if t[0] == 'a' or t[0] == 's' or k < .2:
            k = r.randrange(6)
            if k == 0:
                return 'sink(%d, sizeof(%s));' % (n, x)
            if k == 1:
                return 'sink(%d, sizeof(*&%s));' % (n, x)
            if k == 2:
                return 'sinka(%d, &%s + %s);' % (n, x, self.idx(r.randrange(-1, 3)))
            if k == 3:
                return 'sink(%d, (char *)(&%s + 1) - (char *)&%s);' % (n, x, x)
            if k == 4:
                return '{ %s = &%s; sinka(%d, q%d); sinka(%d, q%d + 1); }' % (self.decl(t, '*q%d' % n), x, n, n, n, n)
            return 'sink(%d, &%s == &%s); sinka(%d, &%s);' % (n, x, x, n, x)
        if t[0] == 'p':
            k = r.randrange(6)
            if k == 0:
                return 'sinka(%d, %s);' % (n, x)
            if k == 1:
                d = r.randrange(-2, 3)
                return 'sinka(%d, %s + %s); %s += %s; sinka(%d, %s); %s -= %s;' % (n, x, self.idx(d), x, self.idx(d), n, x, x, self.idx(d))
            if k == 2:
                return 'sinka(%d, %s++); sinka(%d, --%s);' % (n, x, n, x)
            if k == 3:
                return '{ %s = %s; sinka(%d, q%d); %s = q%d; }' % (self.decl(t, 'q%d' % n), x, n, n, x, n)
            if k == 4:
                return 'sink(%d, &%s[1] - %s); sink(%d, sizeof(*%s));' % (n, x, x, n, x)
            return 'sinka(%d, &*%s); sinka(%d, &%s[%s]);' % (n, x, n, x, self.idx(r.randrange(-2, 3)))
        k = r.random()
        c = r.choice([r.randrange(-130, 260), r.randrange(-70000, 70000)])
        if k < .35:
            return 'sink(%d, (long)%s);' % (n, x)
        if k < .6:
            return '%s = %d;' % (x, c)
        if k < .75:
            return '%s %s %d;' % (x, r.choice(['+=', '-=', '^=', '|=', '&=', '*=']), c) if 'z,' not in x else '%s = %d;' % (x, c)
        if k < .85:
            return 'sink(%d, (long)%s);' % (n, r.choice(['%s++', '++%s', '%s--', '--%s']) % x)
        if k < .93:
            y, u = self.path()
            if u[0] == 'i':
                return '%s = %s;' % (x, y)
            return 'sink(%d, sizeof(%s));' % (n, y)
        return 'sinka(%d, &%s); sink(%d, %s ? 3 : 4);' % (n, x, n, x)

    def sources(self):
        r = self.r
        shared = ''.join('struct %s { %s };\n' % (tag, ' '.join(self.decl(t, m) + ';' for m, t in f)) for tag, f in self.structs)
        shared += '\n'.join(self.defs) + '\n'
        fs = []
        nf = r.randrange(2, 6)
        for i in range(nf):
            fs.append('static void f%d(int z) {\n%s\n}' % (i, '\n'.join('  ' + self.stmt() for _ in range(r.randrange(4, 14)))))
        a = shared + 'void sink(int, long); void sinka(int, const void *);\n' + '\n'.join(fs) + '\nvoid run(void) {\n%s\n}\n' % '\n'.join('  f%d(0);' % i for i in range(nf))
        rt = '#define RTC 1\n' + RT.replace('@DEFS@', shared).replace('@PTRS@', '\n'.join(self.ptrs))
        return a, rt
