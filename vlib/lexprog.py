"""Programs made of literals and names in every spelling, laid out at random; the model is the value each spelling denotes."""
import re
import struct
from .exprprog import PRELUDE

PRE = PRELUDE + r'''
#include <wchar.h>
static void hexs(const void *p, int n) {
  const unsigned char *q = p;
  for (int i = 0; i < n; ++i) {
    obuf[on++] = "0123456789abcdef"[q[i] >> 4]; obuf[on++] = "0123456789abcdef"[q[i] & 15];
    if (on > 8000) flush();
  }
  obuf[on++] = '\n';
}
static u64 dbits(double d) { union { double d; u64 u; } x; x.d = d; return x.u; }
static u64 fbits(float f) { union { float f; unsigned int u; } x; x.f = f; return x.u; }
'''
SIMPLE = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': 92, '"': 34, "'": 39, '?': 63}
UNI = 'éñßÿĀλЖקع€あ漢語한ﷺ😀𝄞𐍈\u0080\u07ff\u0800\uffff\U00010000\U0010ffff'
WORDS = ['int', 'return', '#define X 1', '"', "'", '/*', '//', '*', '**', '/', '\\', '%d', '{', '}', ';', '#if 0', '#else', '#endif', '#include "x"', 'é漢', "don't", '\\"', '??', '...', 'L"']
TOK = re.compile(r'L?"(?:\\.|[^"\\])*"|L?\'(?:\\.|[^\'\\])*\'|\.?[0-9](?:[eEpP][+-]|[\w.])*|[A-Za-z_\x80-\U0010ffff][\w\x80-\U0010ffff]*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|[-+*/%&|^<>=!]=|&&|\|\||##|[^\s]', re.S)


def f32(v):
    try:
        return struct.unpack('<I', struct.pack('<f', v))[0]
    except OverflowError:
        return 0x7f800000 if v > 0 else 0xff800000


def f64(v):
    return struct.unpack('<Q', struct.pack('<d', v))[0]


class Layout:
    def __init__(self, r):
        self.r = r
        self.style = r.choice(['plain', 'plain', 'one', 'lines', 'wild', 'wild', 'wild'])

    def comment(self, oneline=False):
        r = self.r
        body = ' '.join(r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 5])))
        if not oneline and r.random() < .35:
            if body.endswith('\\') and r.random() < .5:
                body += '\n next line ' + r.choice(WORDS).replace('\\', '')      # the comment goes on
                return '//' + body.rstrip('\\') + ' \n'
            return '//' + body.rstrip('\\') + r.choice(['', '.']) + '\n'
        if not oneline:
            body = ''.join(c if c != ' ' or r.random() < .7 else '\n' for c in body)
        body = r.choice(['', '*', '**', ' ']) + body + r.choice(['', '*', ' '])
        body = body.replace('*/', '* /')
        if '*/' in (body + '!').replace('\\\n', ''):     # a continuation brings the two together
            body = body.replace('\\', '')
        return '/*' + body.replace('*/', '* /') + '*/'

    def space(self, need):
        r = self.r
        if self.style == 'plain':
            return r.choice([' ', '\n']) if need or r.random() < .6 else ''
        if self.style == 'one':
            return ' ' if need else r.choice(['', ' '])
        if self.style == 'lines':
            return '\n' * r.choice([1, 1, 2])
        s = ''
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            s += r.choice([' ', ' ', '\t', '\n', '\v', '\f', '\\\n', '  ', '\n\n', 'C', 'C'])
        s = re.sub('C', lambda m: self.comment(), s)
        if need and not s.replace('\\\n', ''):
            s += r.choice([' ', '\t', '\n', '/**/'])
        return s

    def cut(self, t):
        """A line continuation within a token."""
        if self.style != 'wild' or len(t) < 2 or self.r.random() > .06:
            return t
        k = self.r.randrange(1, len(t))
        return t[:k] + '\\\n' + t[k:]

    def render(self, text):
        out, prev = [], ''
        for t in TOK.findall(text):
            need = bool(prev) and ((re.match(r'[\w.\x80-\U0010ffff]', t) and re.search(r'[\w.\x80-\U0010ffff]$', prev)) or
                                   (t[0] in '"\'' and prev == 'L') or
                                   (re.match(r'[-+*/%&|^<>=!.#]', t) and re.search(r'[-+*/%&|^<>=!.#]$', prev)) or
                                   (re.match(r'[\w.]', prev) and re.match(r'[-+]', t) and prev[0].isdigit()) or
                                   (prev[-1] == '.' and t[0].isdigit()))
            s = self.space(bool(need))
            if self.style == 'wild' and prev.endswith('\\') is False and s.startswith('\\\n') and need and s == '\\\n':
                s += ' '
            # a comment after a division sign must not make another comment
            if prev.endswith('/') and s[:1] in ('/', '*'):
                s = ' ' + s
            if s.replace('\\\n', '')[:1] == '/' and prev.endswith('/'):
                s = ' ' + s
            out.append(s)
            out.append(self.cut(t))
            prev = t
        return ''.join(out) + '\n'


class LexProg:
    def __init__(self, r, n=40):
        self.r = r
        self.expected, self.labels, self.ops = [], [], set()
        self.lay = Layout(r)
        self.glob, self.body, self.names = [], [], []
        kinds = [self.k_int] * 6 + [self.k_float] * 4 + [self.k_char] * 3 + [self.k_str] * 4 + [self.k_wstr] * 2 + [self.k_ident] * 3 + [self.k_munch] * 2 + [self.k_cat] * 2 + [self.k_long]
        for _ in range(n):
            r.choice(kinds)()
        text = '\n'.join(self.glob) + '\nint main(void) {\n' + '\n'.join(self.body) + '\nflush(); return 0; }\n'
        self.source = PRE + self.lay.render(text)
        if r.random() < .1:                 # without a newline at its end
            self.source = self.source.rstrip('\n') + r.choice(['', ' ', ' // the end', '/* x */'])
        if r.random() < .12:
            self.source = self.source.replace('\n', '\r\n')
            self.lay.style += '-crlf'

    def out(self, s, v, label, op):
        self.body.append('out((u64)(%s));' % s)
        self.expected.append('%016x' % (v & (1 << 64) - 1))
        self.labels.append(label)
        self.ops.add(op)

    # ---- integers
    def k_int(self):
        r = self.r
        base = r.choice([10, 10, 8, 16, 16, 2])
        v = r.choice([0, 1, 7, 8, 9, 10, 127, 255, 256, 65535, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1,
                      r.getrandbits(8), r.getrandbits(16), r.getrandbits(32), r.getrandbits(33), r.getrandbits(63), r.getrandbits(64)])
        u, l = r.choice(['', '', '', 'u', 'U']), r.choice(['', '', '', 'l', 'L', 'll', 'LL'])
        if base == 10 and not u and v >= 2**63:
            v &= 2**63 - 1
        digits = {10: '%d' % v, 8: '0%o' % v, 16: r.choice(['0x%x', '0X%x', '0x%X', '0X%X']) % v, 2: '0b' + bin(v)[2:]}[base]
        if base == 16 and r.random() < .3:
            digits = digits[:2] + '0' * r.randrange(1, 20) + digits[2:]
        if base == 8:
            digits = '0' * r.choice([0, 0, 0, 1, 5, 20]) + digits
        if base == 16 and r.random() < .3:
            digits = digits[:2] + ''.join(r.choice([c.lower(), c.upper()]) for c in digits[2:])
        suf = r.choice([u + l, l + u])
        # the type: 6.4.4.1
        size, uns = None, None
        for sz, un, lc in [(4, 0, 0), (4, 1, 0), (8, 0, 1), (8, 1, 1)]:
            if l and not lc:
                continue
            if u and not un:
                continue
            if un and not u and base == 10:
                continue
            if v < 2 ** (sz * 8 - (0 if un else 1)):
                size, uns = sz, un
                break
        t = digits + suf
        self.out(t, v, 'value of ' + t, ('int', base, suf.lower(), v.bit_length()))
        self.out('sizeof(%s)' % t, size, 'sizeof ' + t, ('intsize', base, suf.lower(), size))
        self.out('(%s) * 0 - 1 > 0' % t, uns, 'signedness of ' + t, ('intsign', base, suf.lower(), uns))

    # ---- floating
    def k_float(self):
        r = self.r
        dig = lambda n: ''.join(r.choice('0123456789') for _ in range(n))
        if r.random() < .2:
            m = r.getrandbits(r.choice([1, 8, 24, 52]))
            e = r.choice([0, 1, -1, 10, -10, 100, -1022 - 52 + 60, r.randrange(-900, 900)])
            h = '%x' % m
            k = r.randrange(len(h) + 1)
            form = r.choice([0, 1])
            if form == 0 or k == 0:
                t, v = '0x%sp%+d' % (h, e), m * 2.0 ** e
            else:
                t = '0x%s.%sp%d' % (h[:k], h[k:], e)
                v = m * 2.0 ** (e - 4 * (len(h) - k))
            if r.random() < .3:
                t = t.upper()
            kind = 'hexfloat'
        else:
            form = r.randrange(6)
            a, b = r.choice(['0', '1', '7', '12', dig(3), dig(9), dig(20), dig(40), '0' + dig(2), '00' + dig(3)]), r.choice(['0', '5', '25', dig(3), dig(17), dig(30), '000000' + dig(3)])
            t = [a + '.' + b, a + '.', '.' + b, a + 'e5', a + '.' + b, a + '.'][form]
            if form >= 3:
                t = t.split('e')[0] + r.choice(['e', 'E']) + r.choice(['', '+', '-']) + str(r.choice([0, 1, 2, 5, 10, 20, 37, 100, 250]))
            v = float(t)
            kind = 'float%d' % form
        if v == float('inf') or v != v:
            return
        s = r.choice(['', '', '', 'f', 'F', 'l', 'L'])
        if s in ('f', 'F') and kind != 'hexfloat':
            if not (v == 0 or 1e-36 < abs(v) < 1e37):
                s = ''
            elif int(v) != v or abs(v) > 2 ** 24:
                # either neighbour is allowed: take a value that is exact
                v = struct.unpack('<f', struct.pack('<f', v))[0]
                t = repr(v)
        if s in ('f', 'F') and kind == 'hexfloat':
            if v != 0 and not (1e-36 < abs(v) < 1e37):
                s = ''
            elif struct.unpack('<f', struct.pack('<f', v))[0] != v:
                s = ''
        t += s
        if s in ('f', 'F'):
            self.out('fbits(%s)' % t, f32(v), 'bits of ' + t, (kind, 'f', f32(v) >> 23))
            self.out('sizeof(%s)' % t, 4, 'sizeof ' + t, (kind, 'size', 'f'))
        else:
            self.out('dbits(%s)' % t, f64(v), 'bits of ' + t, (kind, s.lower(), f64(v) >> 52))
            if not s:
                self.out('sizeof(%s)' % t, 8, 'sizeof ' + t, (kind, 'size', s))

    # ---- characters: -> spelling, value of the byte (narrow) or code
    def ch(self, wide, quote, prev_hex=False):
        """One element of a literal: (spelling, [bytes] or code, ends in an open hex escape / short octal escape)"""
        r = self.r
        k = r.randrange(10)
        if k < 4:
            while True:
                c = r.choice('abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789 !#$%&()*+,-./:;<=>@[]^_`{|}~\'"')
                if c == quote:
                    continue
                return c, ([ord(c)] if not wide else ord(c)), ''
        if k < 6:
            c = r.choice('abfnrtv\\"\'?')
            return '\\' + c, ([SIMPLE[c]] if not wide else SIMPLE[c]), ''
        if k < 8:
            v = r.choice([0, 0, 1, 7, 8, 31, 63, 64, 127, 128, 200, 255, r.randrange(256)])
            n = r.choice(['%o', '%o', '%02o', '%03o']) % v
            return '\\' + n, ([v] if not wide else v), 'o' if len(n) < 3 else ''
        if k < 9:
            v = r.choice([0, 1, 9, 15, 16, 127, 128, 255, r.randrange(256)])
            if wide and r.random() < .5:
                v = r.choice([0x100, 0x3042, 0xffff, 0x10000, 0x10ffff, r.getrandbits(20)])
            n = '\\x' + r.choice(['%x', '%X', '%02x', '%04X', '%08x']) % v
            return n, ([v] if not wide else v), 'x'
        c = r.choice(UNI)
        return c, (list(c.encode()) if not wide else ord(c)), ''

    def k_char(self):
        r = self.r
        wide = r.random() < .3
        while True:
            s, v, _ = self.ch(wide, "'")
            if not wide and len(v) > 1:
                continue
            break
        if not wide:
            v = v[0] - 256 if v[0] > 127 else v[0]
        t = ('L' if wide else '') + "'" + s + "'"
        if wide and v > 0x7fffffff:
            return
        self.out(('(long long)' if not wide else '') + t, v, 'value of ' + t, ('char', wide, s[:2] if s[0] == '\\' else 'plain' if ord(s[0]) < 128 else 'utf8'))
        if wide:
            self.out('sizeof(%s)' % t, 4, 'sizeof ' + t, ('charsize', wide))

    def literal(self, wide, n, prefix=True):
        r = self.r
        s, vals, op = '', [], ''
        for _ in range(n):
            while True:
                c, v, o = self.ch(wide, '"')
                # the next character must not lengthen the escape before it
                if op == 'x' and re.match(r'[0-9a-fA-F]', c):
                    continue
                if op == 'o' and re.match(r'[0-7]', c):
                    continue
                if c == '?' and s.endswith('?'):
                    continue
                break
            s += c
            op = o
            vals += v if not wide else [v]
        return ('L' if wide and prefix else '') + '"' + s + '"', vals

    def k_str(self):
        r = self.r
        t, v = self.literal(False, r.choice([0, 1, 2, 3, 5, 8, 13, 30, 100]))
        self.strout(t, v, False, 'str')

    def strout(self, t, v, wide, kind):
        r = self.r
        n = len(self.expected)
        data = b''.join(struct.pack('<I', x) for x in v + [0]) if wide else bytes(v + [0])
        form = r.randrange(3)
        if form == 0:
            e, z = t, 'sizeof(%s)' % t
        elif form == 1:
            self.glob.append('%s gs%d[] = %s;' % ('wchar_t' if wide else r.choice(['char', 'const char', 'static unsigned char']), n, t))
            e, z = 'gs%d' % n, 'sizeof(gs%d)' % n
        else:
            self.body.append('%s ls%d[] = %s;' % ('wchar_t' if wide else 'char', n, t))
            e, z = 'ls%d' % n, 'sizeof(ls%d)' % n
        self.out(z, len(data), 'size of ' + t[:200], (kind + 'size', form, len(data)))
        self.body.append('hexs(%s, %d);' % (e, len(data)))
        self.expected.append(data.hex())
        self.labels.append('bytes of ' + t[:200])
        self.ops.add((kind, form, len(v)))
        for m in re.findall(r'\\[x0-7].?.?.?|\\.', t):
            self.ops.add((kind, 'esc', m[:4]))

    def k_wstr(self):
        t, v = self.literal(True, self.r.choice([0, 1, 2, 3, 5, 8, 20]))
        self.strout(t, v, True, 'wstr')

    def k_cat(self):
        """Adjacent literals are one, whatever their ends."""
        r = self.r
        wide = r.random() < .3
        ts, vs = [], []
        for i in range(r.choice([2, 2, 3, 5])):
            # of a wide string at least one part is marked
            t, v = self.literal(wide, r.choice([0, 1, 2, 4]), prefix=(i == 0 or r.random() < .5))
            ts.append(t)
            vs += v
        self.strout(' '.join(ts), vs, wide, 'cat')

    def k_long(self):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            t, v = self.literal(False, r.choice([500, 2000, 5000]))
            self.strout(t, v, False, 'longstr')
        elif k == 1:
            n = r.choice([100, 1000])
            v = [r.randrange(10) for _ in range(n)]
            self.out('+'.join(map(str, v)), sum(v), 'long sum', ('longsum', n))
        elif k == 2:
            n = r.choice([20, 200])
            self.out('(' * n + '7' + ')' * n, 7, 'nested parentheses', ('parens', n))
        else:
            n = len(self.expected)
            k = r.choice([100, 400])
            v = [r.randrange(256) for _ in range(k)]
            self.glob.append('unsigned char la%d[] = {%s};' % (n, ', '.join(r.choice(['%d', '0x%x', '0%o']) % x for x in v)))
            self.body.append('hexs(la%d, sizeof(la%d));' % (n, n))
            self.expected.append(bytes(v).hex())
            self.labels.append('long initialiser')
            self.ops.add(('longinit', k))

    # ---- names
    def k_ident(self):
        r = self.r
        n = r.choice([1, 2, 8, 31, 32, 63, 64, 127, 255, 256, 300, 1000, 3000])
        letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'
        if r.random() < .2:
            letters += 'éñßλЖ漢あ😀'
        k = len(self.expected)
        stem = 'N%d_' % k + ''.join(r.choice(letters) for _ in range(n))
        a, b = r.sample(letters, 2)
        if r.random() < .3:
            b = ''
        x, y = stem + a, stem + b
        if x == y:
            return
        vx, vy = r.getrandbits(31), r.getrandbits(31)
        kind = r.randrange(6)
        if kind == 0:
            self.glob.append('int %s = %d; %sint %s = %d;' % (x, vx, r.choice(['', 'static ']), y, vy))
            e = (x, y)
        elif kind == 1:
            self.glob.append('static int %s(void) { return %d; } int %s(void) { return %d; }' % (x, vx, y, vy))
            e = (x + '()', y + '()')
        elif kind == 2:
            self.glob.append('struct T%s { int %s, %s; } ts%d = {%d, %d};' % (x, x, y, k, vx, vy))
            e = ('ts%d.%s' % (k, x), '(&ts%d)->%s' % (k, y))
        elif kind == 3:
            self.glob.append('enum { %s = %d, %s = %d };' % (x, vx, y, vy))
            e = (x, y)
        elif kind == 4:
            self.body.append('{ static int %s = %d; int %s = %d; out((u64)%s); out((u64)%s); }' % (x, vx, y, vy, x, y))
            e = None
        else:
            self.body.append('{ int q = 1; if (q) goto %s; %s: out((u64)%d); goto fin%d; %s: out((u64)%d); if (q) goto %s; fin%d: ; }' % (x, y, vy, k, x, vx, y, k))
            e = None
        if e:
            self.body.append('out((u64)%s); out((u64)%s);' % e)
        for nm, v in ((x, vx), (y, vy)):
            self.expected.append('%016x' % v)
            self.labels.append('name of %d characters, kind %d' % (len(nm), kind))
        self.ops.add(('ident', kind, n, letters[-1] == '😀'))

    def k_munch(self):
        r = self.r
        a, b, c = r.randrange(1, 50), r.randrange(1, 50), r.randrange(1, 9)
        forms = [('a+++b', lambda: (a + b, a + 1, b)), ('a---b', lambda: (a - b, a - 1, b)), ('a+ ++b', lambda: (a + b + 1, a, b + 1)), ('a- -b', lambda: (a + b, a, b)),
                 ('a-->b', lambda: (int(a > b), a - 1, b)), ('a&&b', lambda: (1, a, b)), ('a& &b!=0', None), ('a<<=c', lambda: (a << c, a << c, b)), ('a< -b', lambda: (0, a, b)),
                 ('a>>=c', lambda: (a >> c, a >> c, b)), ('a^=b', lambda: (a ^ b, a ^ b, b)), ('a%=b', lambda: (a % b, a % b, b)), ('a|=b', lambda: (a | b, a | b, b)), ('a==b', lambda: (int(a == b), a, b)),
                 ('a=-b', lambda: (-b, -b, b)), ('a=~b', lambda: (~b, ~b, b)), ('a!=b', lambda: (int(a != b), a, b)), ('!a', lambda: (0, a, b)), ('a/ *p', lambda: (a // b, a, b)), ('a<=b', lambda: (int(a <= b), a, b)),
                 ('a?b:c', lambda: (b, a, b)), ('a-=-b', lambda: (a + b, a + b, b)), ('a*=b', lambda: (a * b, a * b, b)), ('a* *p', lambda: (a * b, a, b)), ('a>>c<<c', lambda: (a >> c << c, a, b)),
                 ('p->m' if False else '*p', lambda: (b, a, b)), ('a||b', lambda: (1, a, b)), ('- - -a', lambda: (-a, a, b)), ('a&=~b', lambda: (a & ~b, a & ~b, b))]
        s, f = r.choice(forms)
        if f is None:
            return
        v, na, nb = f()
        self.body.append('{ int a = %d, b = %d, c = %d, *p = &b; long long v = (%s); out((u64)v); out((u64)a); out((u64)b); c = *p; }' % (a, b, c, s))
        for x in (v, na, nb):
            self.expected.append('%016x' % (x & (1 << 64) - 1))
            self.labels.append(s)
        self.ops.add(('munch', s))

