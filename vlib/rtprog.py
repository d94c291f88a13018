"""Portable C programs that exercise the run-time library: the same text is built by wcc and by the host compiler."""

HEAD = r'''
#include <ctype.h>
#include <fcntl.h>
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
#include <unistd.h>
static int sgn(int x) { return (x > 0) - (x < 0); }
static void hex(const char *what, const void *p, int n) {
  const unsigned char *s = p;
  printf("%s", what);
  for (int i = 0; i < n; ++i) printf(" %02x", s[i]);
  printf("\n");
}
static void fbits(const char *what, double d) {
  union { double d; uint64_t u; } x;
  x.d = d;
  printf("%s %x %x\n", what, (unsigned)(x.u >> 32), (unsigned)x.u);
}
static unsigned rnd_state;
static unsigned rnd(void) { rnd_state = rnd_state * 1103515245u + 12345u; return rnd_state >> 8; }
'''

HEAP = r'''
#define NB 40
static unsigned char *blk[NB];
static unsigned len[NB], fillv[NB];
static void hfill(int i) { for (unsigned k = 0; k < len[i]; ++k) blk[i][k] = (unsigned char)(fillv[i] + k * 7); }
static int hbad(int i, unsigned n) {
  for (unsigned k = 0; k < n; ++k) if (blk[i][k] != (unsigned char)(fillv[i] + k * 7)) return 1;
  return 0;
}
static void heap(unsigned seed, int steps, unsigned big) {
  rnd_state = seed;
  int bad = 0, nul = 0;
  for (int s = 0; s < steps; ++s) {
    int i = rnd() % NB;
    unsigned n = rnd() % 8 == 0 ? rnd() % big : rnd() % 200;
    unsigned how = rnd() % 4;
    if (blk[i] != NULL) {
      if (hbad(i, len[i])) { ++bad; printf("block %d damaged at step %d\n", i, s); }
      if (how == 0) {
        unsigned m = n < len[i] ? n : len[i];
        unsigned char *p = realloc(blk[i], n + 1);
        if (p == NULL) { ++nul; continue; }
        blk[i] = p;
        if (hbad(i, m)) { ++bad; printf("block %d changed by realloc at step %d\n", i, s); }
        len[i] = n + 1;
      } else {
        free(blk[i]);
        blk[i] = NULL;
        continue;
      }
    } else if (how == 1) {
      blk[i] = calloc(n / 4 + 1, 4);
      len[i] = (n / 4 + 1) * 4;
      if (blk[i] == NULL) { ++nul; continue; }
      for (unsigned k = 0; k < len[i]; ++k) if (blk[i][k] != 0) { ++bad; printf("block %d not zero at step %d\n", i, s); break; }
    } else {
      len[i] = n + 1;
      blk[i] = malloc(len[i]);
      if (blk[i] == NULL) { ++nul; continue; }
    }
    if ((uintptr_t)blk[i] % 8 != 0) { ++bad; printf("block %d misaligned\n", i); }
    for (int j = 0; j < NB; ++j)
      if (j != i && blk[j] != NULL && blk[i] < blk[j] + len[j] && blk[j] < blk[i] + len[i]) { ++bad; printf("blocks %d and %d overlap\n", i, j); }
    fillv[i] = rnd();
    hfill(i);
  }
  for (int i = 0; i < NB; ++i) {
    if (blk[i] != NULL && hbad(i, len[i])) { ++bad; printf("block %d damaged at the end\n", i); }
    free(blk[i]);
    blk[i] = NULL;
  }
  printf("heap %d steps: %d bad, %d refused\n", steps, bad, nul);
}
'''

JUMP = r'''
static jmp_buf jb[4];
static volatile int jtrace;
static void leap(int depth, int k, int v, volatile int *mem) {
  char pad[64];
  memset(pad, depth, sizeof(pad));
  *mem += depth;
  if (depth <= 0) { ++jtrace; longjmp(jb[k], v); }
  leap(depth - 1, k, v, mem);
  jtrace += pad[3] * 1000000;        // not reached
}
static void (*const leaper)(int, int, int, volatile int*) = leap;
'''


def cstr(s):
    o = ''
    for c in s:
        o += chr(c) if 32 <= c < 127 and c not in (34, 92, 63) else '\\%03o' % c
    return '"' + o + '"'


class RT:
    def __init__(self, r):
        self.r = r
        self.kinds = set()
        self.n = 0
        self.glob, self.fns = [], []
        self.use_heap = self.use_jump = False

    def text(self, lo=0, hi=20, alpha=b'abcAB 01\t,.z'):
        return bytes(self.r.choice(alpha) for _ in range(self.r.randint(lo, hi)))

    def num(self):
        r = self.r
        return r.choice([0, 1, -1, 7, 42, -100, 255, 65535, 2147483647, -2147483648, r.randint(-2 ** 31, 2 ** 31 - 1), r.randint(-999, 999)])

    def num64(self):
        r = self.r
        return r.choice([self.num(), r.randint(-2 ** 63 + 1, 2 ** 63 - 1), r.randint(-10 ** 12, 10 ** 12)])

    def i32(self, v):
        return '(-2147483647 - 1)' if v == -2 ** 31 else str(v)

    def dbl(self):
        r = self.r
        return r.choice([0.0, 1.0, -1.0, .5, 1.5, 2.5, 100.125, 1e10, 1e-5, 123456789.0, r.uniform(-1000, 1000), r.uniform(-1, 1), r.randint(-10 ** 6, 10 ** 6) / 64])

    # -- every kind of operation gives statements
    def printf(self):
        r = self.r
        self.kinds.add('printf')
        fmt, args = '', []
        for _ in range(r.randint(1, 6)):
            c = r.choice('dduxXscfgd%i' if False else 'dduxXscfg%')
            fmt += r.choice(['', ' ', '[', 'a='])
            if c == '%':
                fmt += '%%'
                continue
            fl = ''.join(x for x in {'d': '-0+', 'u': '-0', 'x': '-0', 'X': '-0', 's': '-', 'c': '-', 'f': '-0+', 'g': '-+'}[c] if r.random() < .2)
            if '+' in fl:
                fl = fl.replace(' ', '')
            if '-' in fl:
                fl = fl.replace('0', '')
            w = r.choice(['', '', '3', '8', '20', '*'])
            p = r.choice(['', '', '.0', '.3', '.7', '.*']) if c in 'sfg' else r.choice(['', '', '', '.4', '.*']) if c in 'duxX' else ''
            if p and c in 'duxX':
                fl = fl.replace('0', '')
            if w == '*':
                args.append(str(r.randint(-12, 12)))
            if p == '.*':
                args.append(str(r.randint(0, 9)))
            if c in 'duxX':
                l = r.choice(['', '', 'l', 'll', 'z'])
                if l == 'll':
                    args.append('(%slong long)%dLL' % ('' if c == 'd' else 'unsigned ', self.num64()))
                elif l == 'l':
                    args.append('(%slong)%s' % ('' if c == 'd' else 'unsigned ', self.i32(self.num()) if c == 'd' else abs(self.num() % 2 ** 31)))
                elif l == 'z':
                    args.append('(size_t)%d' % (self.num() % 2 ** 31))
                else:
                    args.append('(%s)%s' % (r.choice(['int', 'short', 'signed char']) if c == 'd' else r.choice(['unsigned', 'unsigned char', 'unsigned short']), self.i32(self.num())))
                fmt += '%' + fl + w + p + l + c
            elif c == 's':
                args.append(cstr(self.text()))
                fmt += '%' + fl + w + p + 's'
            elif c == 'c':
                args.append(str(r.randint(33, 126)))
                fmt += '%' + fl + w + 'c'
            else:
                args.append(repr(self.dbl()) if r.random() < .8 else '(float)%r' % self.dbl())
                fmt += '%' + fl + w + p + c
        a = ''.join(', ' + x for x in args)
        k = r.randrange(4)
        if k == 0:
            return ['printf("%s\\n"%s);' % (fmt, a)]
        if k == 1:
            n = r.choice([0, 1, 5, 20, 300])
            return ['{ char b[300]; memset(b, 7, 300); int n = snprintf(b, %d, "%s"%s); printf("sn %%d ", n); hex("", b, 40); }' % (n, fmt, a)]
        if k == 2:
            return ['{ char b[900]; int n = sprintf(b, "%s"%s); printf("sp %%d <%%s>\\n", n, b); }' % (fmt, a)]
        return ['{ int n = vpr("%s\\n"%s); printf("%%d\\n", n); }' % (fmt, a)]

    def string(self):
        r = self.r
        self.kinds.add('string')
        o = []
        s, t = self.text(0, 30), self.text(0, 4)
        n = r.randint(0, 30)
        c = r.choice(s) if s and r.random() < .7 else r.randint(0, 255)
        S, T = cstr(s), cstr(t)
        rel = lambda f: '{ const char *s = %s, *p = %s; printf("%%d\\n", p == NULL ? -1 : (int)(p - s)); }' % (S, f)
        k = r.choice(['len', 'cmp', 'ncmp', 'chr', 'rchr', 'str', 'cpy', 'ncpy', 'cat', 'ncat', 'move', 'set', 'mchr', 'mcmp', 'spn', 'tok', 'dup', 'case', 'ctype', 'pbrk', 'stp'])
        if k == 'len':
            o = ['printf("%%d %%d\\n", (int)strlen(%s), (int)strnlen(%s, %d));' % (S, S, n)]
        elif k == 'cmp':
            o = ['printf("%%d %%d\\n", sgn(strcmp(%s, %s)), sgn(strcmp(%s, %s)));' % (S, T, cstr(s[:n]), S)]
        elif k == 'ncmp':
            o = ['printf("%%d\\n", sgn(strncmp(%s, %s, %d)));' % (S, cstr(s[:r.randint(0, 10)] + t), n)]
        elif k == 'chr':
            o = [rel('strchr(s, %d)' % c), rel('strchr(s, 0)')]
        elif k == 'rchr':
            o = [rel('strrchr(s, %d)' % c)]
        elif k == 'str':
            o = [rel('strstr(s, %s)' % cstr(s[n // 2:n // 2 + 3] if r.random() < .6 else t))]
        elif k == 'pbrk':
            o = [rel('strpbrk(s, %s)' % T)]
        elif k == 'cpy':
            o = ['{ char b[40]; memset(b, 1, 40); int d = strcpy(b + %d, %s) - b; hex("cpy", b, 40); printf("%%d\\n", d); }' % (r.randint(0, 8), S)]
        elif k == 'stp':
            o = ['{ char b[40]; memset(b, 1, 40); int d = stpcpy(b + %d, %s) - b; hex("stp", b, 40); printf("%%d\\n", d); }' % (r.randint(0, 8), S)]
        elif k == 'ncpy':
            o = ['{ char b[40]; memset(b, 1, 40); strncpy(b + 3, %s, %d); hex("ncpy", b, 40); }' % (S, n)]
        elif k == 'cat':
            o = ['{ char b[80]; memset(b, 1, 80); strcpy(b, %s); strcat(b, %s); hex("cat", b, 80); }' % (T, S)]
        elif k == 'ncat':
            o = ['{ char b[80]; memset(b, 1, 80); strcpy(b, %s); strncat(b, %s, %d); hex("ncat", b, 80); }' % (T, S, n)]
        elif k == 'move':
            a, b2, m = r.randint(0, 20), r.randint(0, 20), r.randint(0, 19)
            o = ['{ unsigned char b[40]; for (int i = 0; i < 40; ++i) b[i] = i * 5; memmove(b + %d, b + %d, %d); hex("move", b, 40); }' % (a, b2, m),
                 '{ unsigned char b[40], c[40]; for (int i = 0; i < 40; ++i) b[i] = i * 5, c[i] = 9; memcpy(c + %d, b + %d, %d); hex("copy", c, 40); }' % (a, b2, m)]
        elif k == 'set':
            o = ['{ char b[40]; memset(b, 1, 40); memset(b + %d, %d, %d); hex("set", b, 40); }' % (r.randint(0, 9), self.num(), n)]
        elif k == 'mchr':
            o = [rel('memchr(s, %d, %d)' % (c, r.randint(0, len(s))))]
        elif k == 'mcmp':
            o = ['printf("%%d\\n", sgn(memcmp(%s, %s, %d)));' % (cstr(s + b'xyzw'), cstr(s[:r.randint(0, len(s))] + bytes([r.randint(0, 255)]) + s + b'xyzw'), r.randint(0, len(s)))]
        elif k == 'spn':
            o = ['printf("%%d %%d\\n", (int)strspn(%s, %s), (int)strcspn(%s, %s));' % (S, cstr(t + s[:2]), S, T)]
        elif k == 'tok':
            o = ['{ char b[40]; strcpy(b, %s); for (char *p = strtok(b, %s); p != NULL; p = strtok(NULL, %s)) printf("<%%s>", p); printf("\\n"); }' % (S, T, T)]
        elif k == 'dup':
            o = ['{ char *p = strdup(%s), *q = strndup(%s, %d); printf("%%s|%%s\\n", p, q); free(p); free(q); }' % (S, S, n)]
        elif k == 'case':
            o = ['printf("%%d %%d\\n", sgn(strcasecmp(%s, %s)), sgn(strncasecmp(%s, %s, %d)));' % (S, cstr(s.swapcase()), S, cstr(t + s), n)]
        else:
            v = r.randint(0, 127)
            o = ['printf("%%d%%d%%d%%d%%d%%d%%d %%d %%d\\n", !!isalpha(%d), !!isdigit(%d), !!isspace(%d), !!isupper(%d), !!isxdigit(%d), !!ispunct(%d), !!isprint(%d), toupper(%d), tolower(%d));' % ((v,) * 9)]
        return o

    def conv(self):
        r = self.r
        self.kinds.add('stdlib')
        k = r.randrange(5)
        if k == 0:
            b = r.choice([0, 10, 16, 8, 2, 36])
            s = r.choice(['', ' ', '\t ', '-', '+', '0x', '0', '-0x'] if b in (0, 16) else ['', ' ', '-', '+']) + ''.join(r.choice('0123456789' if r.random() < .8 else 'abcz9') for _ in range(r.randint(0, 7 if b <= 10 else 5))) + r.choice(['', 'g', ' 1', '!'])
            f = r.choice(['strtol', 'strtoll', 'strtoul', 'strtoull'])
            if 'u' in f:
                s = s.replace('-', '')
            if 'll' not in f and b == 36:
                s = s[:5]
            return ['{ const char *s = %s; char *e = NULL; long long v = %s(s, &e, %d); printf("%%lld %%d\\n", v, (int)(e - s)); }' % (cstr(s.encode()), f, b)]
        if k == 1:
            s = r.choice(['', '-', ' ', '+']) + '%d' % r.randint(0, 10 ** r.randint(0, 9)) + r.choice(['', '.', '.5', '.125', 'e3', 'e-2', '.75e1', 'x'])
            return ['{ const char *s = %s; char *e = NULL; double v = strtod(s, &e); fbits("strtod", v); printf("%%d %%d\\n", (int)(e - s), atoi(s)); fbits("atof", atof(s)); }' % cstr(s.encode())]
        if k == 2:
            v = [r.randint(-50, 50) for _ in range(r.randint(1, 40))]
            self.glob.append('static int cmp%d(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }' % self.n)
            key = r.randint(-50, 50)
            # without repeated keys bsearch has one answer
            return ['{ int a[] = {%s}; qsort(a, %d, sizeof(int), cmp%d); for (int i = 0; i < %d; ++i) printf("%%d ", a[i]); printf("\\n"); }' % (', '.join(map(str, v)), len(v), self.n, len(v))]
        if k == 3:
            return ['printf("%%d %%ld %%lld\\n", abs(%d), labs(%dL), llabs(%dLL));' % (r.randint(-2 ** 31 + 1, 2 ** 31 - 1), r.randint(-2 ** 31 + 1, 2 ** 31 - 1), self.num64())]
        d = self.dbl()
        return ['{ volatile double d = %r; fbits("floor", floor(d)); fbits("ceil", ceil(d)); fbits("round", round(d)); fbits("fabs", fabs(d)); fbits("sqrt", sqrt(fabs(d)));'
                ' int e; fbits("frexp", frexp(d, &e)); printf("%%d\\n", e); double ip; fbits("modf", modf(d, &ip)); fbits("ip", ip); fbits("fmod", fmod(d, %r)); fbits("ldexp", ldexp(d, %d)); }'
                % (d, r.choice([1.0, 2.5, .75, 100.0]), r.randint(-20, 20))]

    def heap(self):
        self.kinds.add('heap')
        self.use_heap = True
        return ['heap(%du, %d, %d);' % (self.r.getrandbits(31), self.r.choice([30, 200, 1000]), self.r.choice([300, 5000, 100000, 400000]))]

    def streams(self):
        """A history on a few streams; what is undefined (reading after writing without a seek, ...) is avoided."""
        r = self.r
        self.kinds.add('stdio')
        o = ['{ FILE *fp[3] = {NULL, NULL, NULL}; char b[3000]; int n; (void)n; (void)b;']
        st = {}        # slot -> [file, readable, writable, last op, append]
        leave = r.random() < .25         # open until the end of the program, under names of their own
        files = ['u%d_%d.txt' % (self.n, i) if leave else 'f%d.txt' % i for i in range(3)]
        for _ in range(r.randint(5, 40)):
            i = r.randrange(3)
            if i not in st:
                busy = [s[0] for s in st.values()]
                fn = r.choice([f for f in files if f not in busy])
                m = r.choice(['r', 'w', 'a', 'r+', 'w+', 'a+', 'rb', 'wb', 'w', 'w+b'])
                o.append('fp[%d] = fopen("%s", "%s"); printf("open %s %s %%d\\n", fp[%d] != NULL);' % (i, fn, m, fn, m, i))
                st[i] = [fn, 'r' in m or '+' in m, 'w' in m or 'a' in m or '+' in m, None, 'a' in m]
                continue
            s = st[i]
            if r.random() < .12:
                o.append('if (fp[%d] != NULL) { printf("close %%d\\n", fclose(fp[%d])); fp[%d] = NULL; }' % (i, i, i))
                del st[i]
                continue
            k = r.choice(['write', 'write', 'puts', 'putc', 'printf', 'read', 'read', 'gets', 'getc', 'seek', 'seek', 'tell', 'eof', 'flush', 'ungetc'])
            w = k in ('write', 'puts', 'putc', 'printf')
            rd = k in ('read', 'gets', 'getc', 'ungetc')
            if (w and not s[2]) or (rd and not s[1]):
                continue
            pre = ''
            if (w and s[3] == 'r') or (rd and s[3] == 'w'):
                pre = 'fseek(fp[%d], %s); ' % (i, r.choice(['0, SEEK_CUR', '0, SEEK_SET', '0, SEEK_END', '1, SEEK_SET']) if not s[4] else '0, SEEK_END')
            if k == 'ungetc' and (s[3] != 'r' or s[4]):
                continue
            if k == 'flush' and s[3] == 'r':
                continue
            if k in ('tell', ) and s[4]:
                continue
            n = r.choice([0, 1, 3, 10, 100, 127, 128, 129, 600, 2000])
            d = {'write': 'memset(b, %d, %d); n = fwrite(b, %d, %d, fp[%d]);' % (r.randint(48, 122), n, *((1, n) if r.random() < .6 else (3, n // 3)), i),
                 'puts': 'n = fputs(%s, fp[%d]) < 0;' % (cstr(self.text(0, 60) + (b'\n' if r.random() < .5 else b'')), i),
                 'putc': 'n = fputc(%d, fp[%d]);' % (r.randint(1, 255), i),
                 'printf': 'n = fprintf(fp[%d], "%%d %%s %%x\\n", %s, %s, %d);' % (i, self.i32(self.num()), cstr(self.text()), r.randint(0, 2 ** 31 - 1)),
                 'read': 'memset(b, 0, 3000); n = fread(b, %d, %d, fp[%d]); hex("", b, %d);' % (*((1, n) if r.random() < .6 else (3, n // 3)), i, n),
                 'gets': 'memset(b, 0, 300); n = fgets(b, %d, fp[%d]) != NULL; hex("", b, n ? (int)strlen(b) : 0);' % (r.choice([2, 5, 40, 300]), i),
                 'getc': 'n = fgetc(fp[%d]);' % i,
                 'seek': 'n = fseek(fp[%d], %d, %s);' % (i, *r.choice([(0, 'SEEK_SET'), (r.randint(0, 100), 'SEEK_SET'), (0, 'SEEK_END'), (r.randint(0, 20), 'SEEK_CUR'), (r.randint(0, 300), 'SEEK_SET'), (-1000000, 'SEEK_CUR')])),
                 'tell': 'n = ftell(fp[%d]);' % i,
                 'eof': 'n = !!feof(fp[%d]);' % i,
                 'flush': 'n = fflush(fp[%d]);' % i,
                 'ungetc': 'n = ungetc(%d, fp[%d]);' % (r.randint(33, 99), i)}[k]
            if k == 'ungetc':
                d += ' n = n * 1000 + fgetc(fp[%d]);' % i
            o.append('if (fp[%d] != NULL) { %sn = 0; %s printf("%s %%d\\n", n); }' % (i, pre, d, k))
            if w:
                s[3] = 'w'
            elif rd:
                s[3] = 'r'
            elif k == 'seek' and '-1000000' not in d or k == 'flush':   # (a seek that fails separates nothing)
                s[3] = None
        for i in st:
            if not leave or r.random() < .3:
                o.append('if (fp[%d] != NULL) printf("close %%d\\n", fclose(fp[%d]));' % (i, i))
        o.append('}')
        return o

    def fds(self):
        r = self.r
        self.kinds.add('unistd')
        o = ['{ int fd[3] = {-1, -1, -1}, n; char b[300]; struct stat st; (void)n; (void)b; (void)st;']
        files = ['g0', 'g1', 'dd/g2', 'dd/g3', './g0']
        for _ in range(r.randint(4, 25)):
            i = r.randrange(3)
            fn = r.choice(files)
            k = r.choice(['open', 'open', 'open', 'write', 'write', 'read', 'read', 'seek', 'close', 'unlink', 'mkdir', 'rmdir', 'stat', 'fstat', 'pair'])
            if k == 'open':
                fl = r.choice(['O_RDONLY', 'O_WRONLY', 'O_RDWR', 'O_RDWR | O_CREAT', 'O_WRONLY | O_CREAT', 'O_WRONLY | O_CREAT | O_TRUNC', 'O_RDWR | O_CREAT | O_TRUNC',
                               'O_WRONLY | O_CREAT | O_EXCL', 'O_RDWR | O_APPEND | O_CREAT', 'O_WRONLY | O_APPEND', 'O_RDONLY | O_CREAT'])
                o.append('if (fd[%d] < 0) { fd[%d] = open("%s", %s, 0644); printf("open %s %s %%d\\n", fd[%d] >= 0); }' % (i, i, fn, fl, fn, fl, i))
            elif k == 'write':
                t = self.text(0, 40)
                o.append('n = write(fd[%d], %s, %d); printf("write %%d\\n", n);' % (i, cstr(t), len(t)))
            elif k == 'read':
                n = r.choice([0, 1, 5, 40, 200])
                o.append('memset(b, 1, 300); n = read(fd[%d], b, %d); printf("read %%d", n); hex("", b, 60);' % (i, n))
            elif k == 'seek':
                a = r.choice(['0, SEEK_SET', '5, SEEK_SET', '0, SEEK_END', '0, SEEK_CUR', '-3, SEEK_END', '7, SEEK_CUR', '100, SEEK_SET', '-1000, SEEK_CUR'])
                o.append('{ volatile int guard[4] = {1, 2, 3, 4}; n = (int)lseek(fd[%d], %s); printf("seek %%d %%d%%d%%d%%d\\n", n, guard[0], guard[1], guard[2], guard[3]); }' % (i, a))
            elif k == 'close':
                o.append('n = close(fd[%d]); fd[%d] = -1; printf("close %%d\\n", n);' % (i, i))
            elif k == 'unlink':
                o.append('n = %s("%s"); printf("unlink %s %%d\\n", n);' % (r.choice(['unlink', 'remove']), fn, fn))
            elif k == 'mkdir':
                o.append('n = mkdir("%s", 0755); printf("mkdir %%d\\n", n);' % r.choice(['dd', 'dd', 'dd/ee']))
            elif k == 'rmdir':
                o.append('n = rmdir("%s"); printf("rmdir %%d\\n", n);' % r.choice(['dd', 'dd/ee', 'dd', 'g0']))
            elif k == 'stat':
                f = r.choice([fn, 'dd', 'nothing'])
                o.append('n = %s("%s", &st); printf("stat %s %%d", n); if (n == 0) printf(" %%d %%d", !!S_ISDIR(st.st_mode), S_ISDIR(st.st_mode) ? 0 : (int)st.st_size); printf("\\n");' % (r.choice(['stat', 'lstat']), f, f))
            elif k == 'fstat':
                o.append('if (fd[%d] >= 0) { n = fstat(fd[%d], &st); printf("fstat %%d", n); if (n == 0) printf(" %%d %%d", !!S_ISREG(st.st_mode), (int)st.st_size); printf("\\n"); }' % (i, i))
            else:
                o.append('printf("same %d\\n");' % r.randint(0, 9))
        for i in range(3):
            o.append('if (fd[%d] >= 0) close(fd[%d]);' % (i, i))
        o.append('}')
        return o

    def jump(self):
        r = self.r
        self.kinds.add('setjmp')
        self.use_jump = True
        n = self.n
        k = r.randrange(6)
        v = r.choice([0, 1, 2, 7, -1, 2147483647])
        d = r.randint(0, 12)
        lp = r.choice(['leap', 'leaper'])
        form = r.randrange(6)
        b = r.randrange(4)
        go = '%s(%d, %d, %s, &m);' % (lp, d, b, v)
        cond, neg = [('setjmp(jb[%d]) == 0' % b, 0), ('setjmp(jb[%d]) != 0' % b, 1), ('(x = setjmp(jb[%d])) == 0' % b, 0), ('(x = setjmp(jb[%d])) != 0' % b, 1),
                     ('x == 0', 0), ('x = setjmp(jb[%d]), x == 0' % b, 0)][form]
        pre = 'x = setjmp(jb[%d]); ' % b if form == 4 else ''
        yes = '++m; printf("try %%d\\n", m); if (sel) %s printf("no jump\\n");' % go
        no = 'printf("caught %d %%d %%d\\n", %s, m);' % (n, 'x' if form >= 2 else '99')
        A, B = (no, yes) if neg else (yes, no)
        body = '%sif (%s) { %s } else { %s }' % (pre, cond, A, B)
        f = []
        if k == 0:      # plain
            f = ['static int sj%d(int sel) { volatile int m = 0; int x = -5; (void)x; %s return m; }' % (n, body)]
        elif k == 1:    # in a loop
            f = ['static int sj%d(int sel) { static volatile int m; int x = -5; (void)x; for (int i = 0; i < %d; ++i) { sel = i %% 2; %s } return m; }' % (n, r.randint(2, 6), body.replace('no jump', 'no jump here'))]
            f = [f[0].replace('int i = 0', 'volatile int i = 0')]
        elif k == 2:    # the handler returns a value through other frames; nested try within try
            b2 = (b + 1) % 4
            f = ['static int in%d(int sel, volatile int *m) { if (setjmp(jb[%d]) == 0) { %s(%d, sel ? %d : %d, %d, m); return 1; } else { printf("inner\\n"); return 2; } }' % (n, b2, lp, d, b, b2, v),
                 'static int sj%d(int sel) { volatile int m = 0; volatile int q = 10; if (setjmp(jb[%d]) == 0) { q = in%d(sel, &m); q += in%d(!sel, &m); } else { printf("outer %%d\\n", q); return m * 10 + q; } return m * 100 + q; }' % (n, b, n, n)]
        elif k == 3:    # retried until enough
            f = ['static int sj%d(int sel) { static volatile int tries; volatile int m = 0; int x = 0; (void)x; tries = 0; x = setjmp(jb[%d]); if (x == 0) { if (sel) %s(%d, %d, 5, &m); } else { if (++tries < %d) %s(%d, %d, x + 1, &m); printf("after %%d tries %%d\\n", tries, x); } return m; }'
                 % (n, b, lp, d, b, r.randint(1, 5), lp, r.randint(0, 5), b)]
        elif k == 4:    # deep frames with local data; a struct in the frame is kept
            f = ['static int sj%d(int sel) { volatile int m = 0; struct { int a[20]; double d; } volatile s; for (int i = 0; i < 20; ++i) s.a[i] = i * %d; s.d = %r; int x = 0; (void)x; %s'
                 ' { int t = 0; for (int i = 0; i < 20; ++i) t += s.a[i]; printf("frame %%d\\n", t); fbits("d", s.d); } return m; }' % (n, r.randint(1, 99), self.dbl(), body)]
        else:           # local jmp_buf handed down
            f = ['static void th%d(jmp_buf e, int d, int v) { volatile char pad[40]; pad[d %% 40] = d; if (d == 0) longjmp(e, v); th%d(e, d - 1, v); printf("%%d\\n", pad[3]); }' % (n, n),
                 'static int sj%d(int sel) { jmp_buf e; volatile int m = 3; int x; if ((x = setjmp(e)) == 0) { m = 4; if (sel) th%d(e, %d, %d); m = 5; } else { printf("local %%d\\n", x); m += x & 255; } return m; }' % (n, n, d, v)]
        self.fns += f
        calls = []
        for _ in range(r.randint(1, 3)):
            calls.append('{ int t = sj%d(%d); printf("j%d %%d %%d\\n", t, jtrace); }' % (n, r.randint(0, 1), n))
        return calls

    def args(self):
        self.kinds.add('argv')
        return ['printf("%d\\n", argc); for (int i = 1; i < argc; ++i) hex("arg", argv[i], (int)strlen(argv[i]) + 1); printf("%d\\n", argv[argc] == NULL);']

    def stdin_(self):
        self.kinds.add('stdin')
        k = self.r.randrange(4)
        if k == 0:
            return ['{ int c, n = 0; unsigned h = 0; for (int i = 0; i < %d && (c = fgetc(stdin)) != EOF; ++i) { ++n; h = h * 31 + c; } printf("in %%d %%u\\n", n, h); }' % self.r.choice([1, 20, 100000])]
        if k == 1:
            return ['{ char b[100]; int n = 0; while (n < %d && fgets(b, %d, stdin) != NULL) { printf("line %%s|", b); ++n; } printf("%%d\\n", n); }' % (self.r.randint(1, 9), self.r.choice([2, 10, 100]))]
        if k == 2:
            return ['{ char b[500]; int n = (int)fread(b, 1, %d, stdin); printf("%%d %%d\\n", n, !!feof(stdin)); hex("", b, n < 30 ? n : 30); }' % self.r.choice([1, 50, 500])]
        return ['{ char *l = NULL; size_t n = 0; long k; while ((k = (long)getline(&l, &n, stdin)) >= 0) printf("getline %d %s", (int)k, l); printf("\\n"); free(l); }']

    def end(self):
        r = self.r
        k = r.choice(['return', 'exit', 'deep', 'atexit', 'atexit'])
        self.kinds.add('end ' + k)
        v = r.choice([0, 1, 2, 42, 127, 200, 255])
        if k == 'return':
            return ['return %d;' % v]
        if k == 'exit':
            return ['printf("before"); exit(%d);' % v]
        if k == 'deep':
            self.glob.append('static void deep(int n, int v) { if (n == 0) { fputs("deep", stderr); exit(v); } deep(n - 1, v); printf("!"); }')
            return ['deep(%d, %d);' % (r.randint(0, 30), v), 'return 1;']
        m = r.randint(1, 6)
        for i in range(m):
            self.glob.append('static void ae%d(void) { printf("at exit %d\\n"); %s}' % (i, i, 'fprintf(stderr, "e"); ' if r.random() < .3 else ''))
        o = ['if (atexit(ae%d)) printf("refused\\n");' % r.randrange(m) for _ in range(r.randint(1, 8))]
        return o + ['fputs("unflushed", stdout);', r.choice(['return %d;', 'exit(%d);']) % v]

    def program(self):
        r = self.r
        ops = []
        table = [self.printf] * 4 + [self.string] * 4 + [self.conv] * 3 + [self.jump] * 3 + [self.heap, self.streams, self.streams, self.fds, self.fds, self.args, self.stdin_]
        focus = r.choice([None, None, None, [self.streams], [self.fds], [self.jump], [self.heap, self.streams], [self.fds, self.streams]])
        for i in range(r.randint(3, 25)):
            self.n = i
            ops.append(r.choice(focus if focus and r.random() < .7 else table)())
        self.n += 1
        end = self.end()
        o = [HEAD, 'static int vpr(const char *fmt, ...) { va_list ap, aq; va_start(ap, fmt); va_copy(aq, ap); int n = vprintf(fmt, ap); char b[2]; int m = vsnprintf(b, 2, fmt, aq); va_end(ap); va_end(aq); return n == m ? n : -1000; }']
        if self.use_heap:
            o.append(HEAP)
        if self.use_jump:
            o.append(JUMP)
        o += self.glob + self.fns
        main = []
        for i, op in enumerate(ops):
            t = '  printf("op %d\\n");\n  ' % i + '\n  '.join(op)
            if r.random() < .4 and 'argc' not in t:
                o.append('static void op%d(void) {\n%s\n}' % (i, t))
                main.append('  op%d();' % i)
            else:
                main.append(t)
        o.append('int main(int argc, char *argv[]) {\n  (void)argc, (void)argv;\n' + '\n'.join(main) + '\n  ' + '\n  '.join(end) + '\n}')
        return '\n'.join(o) + '\n'
