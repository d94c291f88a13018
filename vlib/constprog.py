"""Constant expressions in every context that needs one, and branches on known values."""
import random
from .cexpr import LP64, Gen, Undefined, Var, bits_of, convert
from .exprprog import PRELUDE_F


class CGen(Gen):
    """Constant expressions whose leaves are literals, enumerators, sizeof and _Alignof."""

    def __init__(self, rng, tg, floats=False):
        Gen.__init__(self, rng, tg, floats=floats, consts_only=True, calls=False, sidefx=False)
        self.named = []     # (text, type, value)

    def leaf(self, want=None):
        r = self.r
        k = r.random()
        if self.named and k < .25:
            return r.choice(self.named)
        if k < .32:
            t = r.choice(self.tg.ints + self.tg.flos)
            n = r.randrange(1, 9)
            m = r.randrange(4)
            if m == 0:
                return 'sizeof(%s)' % t.name, self.tg.ULONG, t.store
            if m == 1:
                return 'sizeof(%s[%d])' % (t.name, n), self.tg.ULONG, t.store * n
            if m == 2:
                return '_Alignof(%s)' % t.name, self.tg.ULONG, t.store
            return 'sizeof(%s *)' % t.name, self.tg.ULONG, self.tg.long_size
        return Gen.leaf(self, want)


class PPGen(Gen):
    """Expressions of #if: intmax_t and uintmax_t only."""

    def __init__(self, rng, tg):
        Gen.__init__(self, rng, tg, consts_only=True, calls=False, sidefx=False)
        self.types = [tg.LLONG, tg.ULLONG]
        self.named = []

    def promote(self, t):
        return t

    def leaf(self, want=None):
        r = self.r
        k = r.random()
        if self.named and k < .3:
            return r.choice(self.named)
        if k < .38:
            return r.choice(['NOT_DEFINED_%d' % r.randrange(9), 'int', 'foo']), self.tg.LLONG, 0
        if k < .46:
            c = r.choice('azAZ09 /+*#')
            return "'%s'" % c, self.tg.LLONG, ord(c)
        if k < .5:
            c, v = r.choice([('\\n', 10), ('\\0', 0), ('\\x41', 65), ('\\\\', 92), ("\\'", 39), ('\\101', 65)])
            return "'%s'" % c, self.tg.LLONG, v
        t = want or r.choice(self.types)
        return self.lit(t)

    def lit(self, t):
        r = self.r
        v = self.rand_int(self.tg.LLONG if r.random() < .7 else t)
        return self.ppint(v)

    def ppint(self, v):
        r, tg = self.r, self.tg
        if v < 0:
            s, t, w = self.ppint(-v)
            if t is tg.ULLONG:
                return '(-%s)' % s, t, (-w) & ((1 << 64) - 1)
            return '(-%s)' % s, t, v
        k = r.randrange(3)
        big = v > tg.LLONG.max
        u = big or r.random() < .3
        s = ['%d' % v, '0x%x' % v, '0%o' % v][k]
        suf = r.choice(['', '', 'l', 'L', 'll', 'LL'])
        if u and not (big and k and r.random() < .5):
            suf = r.choice([suf + 'u', 'U' + suf])
        return s + suf, tg.ULLONG if u else tg.LLONG, v

    def literal(self, v, t):
        s, t2, v2 = self.ppint(v)
        if t.signed and not t2.signed:
            return '%d' % v if v >= 0 else '(-%d)' % -v
        if not t.signed and t2.signed:
            return '%du' % v
        return s

    def expr1(self, depth, want=None):
        if depth <= 0 or self.r.random() < .08:
            return self.leaf(want)
        k = self.r.randrange(100)
        if k < 18:
            return self.unary(depth)
        if k < 72:
            return self.binary(depth)
        if k < 84:
            return self.ternary(depth)
        return self.logical(depth)

    def unary(self, depth):
        s, t, v = Gen.unary(self, depth)
        return (s, self.tg.LLONG, v) if t is self.tg.INT else (s, t, v)

    def binop(self, op, a, b):
        t, v = Gen.binop(self, op, a, b)
        return (self.tg.LLONG, v) if t is self.tg.INT else (t, v)

    def binary(self, depth):
        r, tg = self.r, self.tg
        op = r.choice(self.BIN)
        a = self.expr(depth - 1)
        if op in ('<<', '>>') and r.random() < .9:
            n = r.choice([0, 1, 2, 3, 7, 31, 32, 33, 62, 63, r.randrange(64)])
            b = (str(n), tg.LLONG, n)
        elif r.random() < .2:
            n = r.choice([1, 2, 3, 7, 10, -1, -3, 100])
            b = ('(%d)' % n if n < 0 else str(n), tg.LLONG, n)
        else:
            b = self.expr(depth - 1)
        t, v = self.binop(op, a, b)
        self.ops.add(('#if ' + op, a[1].name, b[1].name))
        p = self.PREC[op]
        return self.par('%s %s %s' % (self.bare(a[0], p), op, self.bare(b[0], p + 1)), p), t, v

    def logical(self, depth):
        s, t, v = Gen.logical(self, depth)
        return s, self.tg.LLONG, v


class ConstProg:
    def __init__(self, rng, tg=LP64, n=18, floats=True, goto=True):
        self.r, self.tg, self.goto = rng, tg, goto
        self.expected, self.labels, self.ops = [], [], set()
        self.nv = 0
        self.ig = CGen(rng, tg)
        self.fg = CGen(rng, tg, floats=True) if floats else self.ig
        self.pg = PPGen(rng, tg)
        self.glob, self.main = [], []
        self.bad = []            # additional sources that must be rejected
        kinds = [self.k_enum, self.k_enum, self.k_array, self.k_array, self.k_case, self.k_case, self.k_bits, self.k_static, self.k_static,
                 self.k_assert, self.k_if, self.k_if, self.k_if, self.k_macro, self.k_layout, self.k_branch, self.k_branch, self.k_known,
                 self.k_desig, self.k_dead, self.k_vlaparam, self.k_sizeofexpr, self.k_ternaryfx]
        for _ in range(n):
            k = rng.choice(kinds)
            k()
            self.ops.add(('context', k.__name__))
        for g in (self.ig, self.fg, self.pg):
            self.ops |= g.ops
        self.source = (PRELUDE_F + '#include <stddef.h>\nstatic long long fx_n; static int fx(int x) { fx_n = fx_n * 31 + x; return x; }\n' +
                       '\n'.join(self.glob) + '\nint main(void) {\n' + '\n'.join(self.main) +
                       '\n  flush();\n  return 0;\n}\n')

    def fresh(self, p):
        self.nv += 1
        return '%s%d' % (p, self.nv)

    def obs(self, s, v, label, t=None):
        t = t or self.tg.LLONG
        self.main.append('  %s(%s%s);' % ('outd' if t.flo else 'out', '' if t.flo else '(u64)', '(%s)' % s))
        self.expected.append(bits_of(v, t))
        self.labels.append(label)

    def where(self, text):
        """A declaration, at file scope or inside main."""
        if self.r.random() < .6:
            self.glob.append(text)
        else:
            self.main.append('  ' + text)
            return False
        return True

    def iexpr(self, d=None):
        return self.ig.expr(d or self.r.randrange(1, 5))

    def intconst(self):
        """(text, value) of an expression with a value that fits int."""
        for _ in range(8):
            s, t, v = self.iexpr()
            if self.tg.INT.fits(v):
                return s, t, v
            if self.r.random() < .5:
                return '(int)%s' % s, self.tg.INT, convert(v, t, self.tg.INT)
        return '7', self.tg.INT, 7

    def small(self, lo, n):
        """Expression with a value in [lo, lo + n), n a power of two."""
        for _ in range(20):
            s, t, v = self.iexpr()
            pt = self.tg.promote(t)
            pv = convert(v, t, pt)
            k = self.r.randrange(2)
            if k == 0:
                return '(%s & %d) + %d' % (s, n - 1, lo), (pv & (n - 1)) + lo
            if pv >= 0:
                return '%s %% %d + %d' % (s, n, lo), pv % n + lo
        return str(lo), lo

    def k_enum(self):
        r = self.r
        out, items = [], []
        nxt = 0
        e = self.fresh('E')
        local = []
        for i in range(r.randrange(1, 5)):
            n = self.fresh('e')
            if r.random() < .7 or not self.tg.INT.fits(nxt):
                s, t, v = self.intconst()
                out.append('%s = %s' % (n, s))
                nxt = v
            else:
                out.append(n)
            items.append((n, nxt))
            nxt += 1
        glob = self.where('enum %s { %s%s };' % (e, ', '.join(out), r.choice(['', ','])))
        for n, v in items:
            self.obs(n, v, 'enumerator %s of %s' % (n, ', '.join(out)))
        if glob:
            for n, v in items:
                self.ig.named.append((n, self.tg.INT, v))
                self.fg.named.append((n, self.tg.INT, v))

    def k_array(self):
        r = self.r
        s, v = self.small(1, r.choice([4, 16, 64]))
        n = self.fresh('a')
        t = r.choice(self.tg.ints)
        k = r.randrange(4)
        if k == 0:
            self.where('%s %s[%s];' % (t.name, n, s))
            self.obs('sizeof(%s)' % n, v * t.store, 'size of array [%s]' % s)
        elif k == 1:
            self.where('typedef %s %s[%s];' % (t.name, n, s))
            self.obs('sizeof(%s)' % n, v * t.store, 'size of array type [%s]' % s)
        elif k == 2:
            s2, v2 = self.small(1, 8)
            self.where('struct { %s a[%s][%s]; } %s;' % (t.name, s, s2, n))
            self.obs('sizeof(%s.a)' % n, v * v2 * t.store, 'size of member [%s][%s]' % (s, s2))
            self.obs('sizeof(%s.a[0])' % n, v2 * t.store, 'size of row [%s]' % s2)
        else:
            self.obs('sizeof(%s[%s])' % (t.name, s), v * t.store, 'sizeof(T[%s])' % s)

    def k_vlaparam(self):
        s, v = self.small(1, 16)
        f = self.fresh('f')
        t = self.r.choice([self.tg.INT, self.tg.SHORT, self.tg.LLONG])
        self.glob.append('static int %s(%s p[][%s]) { return (int)((char *)(p + 1) - (char *)p); }' % (f, t.name, s))
        self.main.append('  { static %s x[2][%s]; out((u64)%s(x)); }' % (t.name, s, f))
        self.expected.append(bits_of(v * t.size, self.tg.INT))
        self.labels.append('row size of parameter [][%s]' % s)

    def k_case(self):
        r, tg = self.r, self.tg
        ct = r.choice([tg.INT, tg.UINT, tg.LONG, tg.ULONG, tg.LLONG, tg.CHAR, tg.UCHAR, tg.SHORT])
        pt = tg.promote(ct)
        cases, seen = [], {}
        for _ in range(r.randrange(1, 7)):
            s, t, v = self.iexpr()
            cv = convert(v, t, pt)
            if cv in seen:
                continue
            seen[cv] = len(cases) + 1
            cases.append(s)
        f = self.fresh('f')
        dflt = r.random() < .7
        body = ' '.join('case %s: return %d;' % (s, i + 1) for i, s in enumerate(cases))
        self.glob.append('static int %s(%s x) { switch (x) { %s %s} return -1; }' % (f, ct.name, body, 'default: return -2; ' if dflt else ''))
        probes = list(seen) + [convert(v + d, tg.LLONG, pt) for v in list(seen)[:2] for d in (1, -1)]
        for cv in probes:
            x = convert(cv, pt, ct)
            exp = seen.get(convert(x, ct, pt), -2 if dflt else -1)
            self.obs('%s(%s)' % (f, self.ig.literal(x, ct)), exp, 'case labels %s of %s at %d' % (cases, ct.name, x), tg.INT)

    def k_bits(self):
        r = self.r
        w = []
        n = self.fresh('b')
        for i in range(r.randrange(1, 4)):
            w.append(self.small(1, r.choice([4, 8, 16])))
        self.where('struct { %s } %s;' % (' '.join('unsigned m%d : %s;' % (i, s) for i, (s, v) in enumerate(w)), n))
        for i, (s, v) in enumerate(w):
            self.main.append('  %s.m%d = ~0u;' % (n, i))
        for i, (s, v) in enumerate(w):
            self.obs('%s.m%d' % (n, i), (1 << v) - 1, 'bit-field width %s' % s)

    def k_static(self):
        r, tg = self.r, self.tg
        g = self.fg if r.random() < .5 else self.ig
        for _ in range(10):
            s, t, v = g.expr(r.randrange(1, 6))
            to = r.choice(tg.ints + tg.flos) if r.random() < .5 else t
            try:
                if t.flo and v != v:
                    continue
                x = convert(v, t, to)
                if to.flo and abs(x) == float('inf'):
                    continue
            except Undefined:
                continue
            n = self.fresh('s')
            self.where('static %s%s %s = %s;' % (r.choice(['', 'const ', 'volatile ']), to.name, n, s))
            self.obs(n, x, 'static %s = %s' % (to.name, s), to)
            break

    def k_known(self):
        """The same kind of expression where it is not required to be constant."""
        r = self.r
        s, t, v = (self.fg if r.random() < .5 else self.ig).expr(r.randrange(1, 6))
        if t.flo and v != v:
            return
        if r.random() < .5:
            self.obs(s, v, 'value of ' + s, t)
        else:
            n = self.fresh('l')
            self.main.append('  %s%s %s = %s;' % (r.choice(['', 'const ']), t.name, n, s))
            self.obs(n, v, 'local = ' + s, t)

    def k_assert(self):
        """Acceptance that depends on the value of a constant."""
        r = self.r
        s, t, v = self.iexpr()
        lit = self.ig.literal(v, t)
        n = self.fresh('q')
        k = r.randrange(3)
        if k == 0:
            self.where('typedef char %s[%s == %s ? 1 : -1];' % (n, s, lit))
            self.badtu('typedef char %s[%s == %s ? -1 : 1];' % (n, s, lit))
        elif k == 1:
            self.where('struct %s { int m : %s != %s ? -1 : 1; };' % (n, s, lit))
            self.badtu('struct %s { int m : %s == %s ? -1 : 1; };' % (n, s, lit))
        else:
            pt = self.tg.promote(t)
            self.badtu('int %s(%s x) { switch (x) { case %s: return 1; case %s: return 2; } return 0; }' % (
                n, pt.name, s, self.ig.literal(convert(v, t, pt), pt)))
        self.expect_ok()

    def badtu(self, text):
        self.bad.append('\n'.join(l for l in self.glob if l.startswith('enum ')) + '\n' + text + '\n')

    def expect_ok(self):
        self.obs('1', 1, 'compiled')

    def k_macro(self):
        n = self.fresh('M')
        # 'defined' that comes out of a macro is undefined behaviour
        named, self.pg.named = self.pg.named, [x for x in self.pg.named if not x[0].startswith('defined')]
        try:
            new = self.macro(n)
        finally:
            self.pg.named = named
        self.pg.named += new

    def macro(self, n):
        s, t, v = self.pg.expr(self.r.randrange(0, 4))
        if self.r.random() < .3:
            self.glob.append('#define %s(x) ((x) + %s)' % (n, s))
            s2, t2, v2 = self.pg.expr(1)
            try:
                rt, rv = self.pg.binop('+', (s2, t2, v2), (s, t, v))
            except Undefined:
                return []
            return [('%s(%s)' % (n, s2), rt, rv)]
        self.glob.append('#define %s (%s)' % (n, s))
        return [(n, t, v), ('defined(%s)' % n, self.tg.LLONG, 1), ('defined NO_%s' % n, self.tg.LLONG, 0)]

    def k_if(self):
        r = self.r
        n = self.fresh('c')
        lines, val = [], None
        nb = r.randrange(1, 4)
        for i in range(nb):
            s, t, v = self.pg.expr(r.randrange(1, 6))
            if r.random() < .3:
                # an exact test of the value
                try:
                    l = self.pg.literal(v, t)
                    s, v = '%s == %s' % (s, l), 1
                except Undefined:
                    pass
            lines.append('#%sif %s' % ('el' if i else '', s))
            lines.append('#define %s %d' % (n, i + 1))
            if val is None and v != 0:
                val = i + 1
        lines += ['#else', '#define %s 99' % n, '#endif']
        if val is None:
            val = 99
        self.glob += lines
        self.obs(n, val, ' / '.join(l for l in lines if 'if ' in l))

    def k_layout(self):
        r, tg = self.r, self.tg
        n = self.fresh('S')
        ms, off, al = [], 0, 1
        for i in range(r.randrange(1, 5)):
            t = r.choice(tg.ints + tg.flos)
            s, v = (None, 1) if r.random() < .6 else self.small(1, 8)
            off = -(-off // t.store) * t.store
            ms.append(('m%d' % i, t, s, off))
            off += t.store * v
            al = max(al, t.store)
        size = -(-off // al) * al
        self.glob.append('struct %s { %s };' % (n, ' '.join('%s %s%s;' % (t.name, m, '[%s]' % s if s else '') for m, t, s, o in ms)))
        m, t, s, o = r.choice(ms)
        k = r.randrange(4)
        if k == 0:
            self.where('char %sa[offsetof(struct %s, %s) + 1];' % (n, n, m))
            self.obs('sizeof(%sa)' % n, o + 1, 'offsetof in an array size')
        elif k == 1:
            self.where('enum { %se = sizeof(struct %s), %sf = offsetof(struct %s, %s), %sg = _Alignof(struct %s) };' % (n, n, n, n, m, n, n))
            self.obs('%se' % n, size, 'sizeof in an enumerator')
            self.obs('%sf' % n, o, 'offsetof in an enumerator')
            self.obs('%sg' % n, al, '_Alignof in an enumerator')
        elif k == 2:
            self.where('typedef char %sq[sizeof(struct %s) == %d && offsetof(struct %s, %s) == %d ? 1 : -1];' % (n, n, size, n, m, o))
            self.expect_ok()
        else:
            self.where('static unsigned long %so = (unsigned long)&((struct %s *)0)->%s;' % (n, n, m))
            self.obs('%so' % n, o, 'offset by a null pointer')

    def k_branch(self):
        """Statements controlled by known values."""
        r = self.r
        s, t, v = (self.fg if r.random() < .3 else self.ig).expr(r.randrange(1, 4))
        if t.flo and v != v:
            return
        k = r.randrange(6)
        n = self.fresh('x')
        a, b = r.randrange(1, 1000), r.randrange(1000, 2000)
        if k == 0:
            self.main.append('  int %s; if (%s) %s = %d; else %s = %d;' % (n, s, n, a, n, b))
            e = a if v else b
        elif k == 1:
            self.main.append('  int %s = %d; while (%s) { %s += %d; break; }' % (n, a, s, n, b))
            e = a + (b if v else 0)
        elif k == 2:
            self.main.append('  int %s = %d; do { %s += %d; if (%s > %d) break; } while (%s);' % (n, a, n, b, n, a + 3 * b, s))
            e = a + (b if not v else 4 * b)
        elif k == 3:
            self.main.append('  int %s = %d; for (int i = 0; %s && i < 3; ++i) %s += %d + i;' % (n, a, s, n, b))
            e = a + (3 * b + 3 if v else 0)
        elif k == 4:
            self.main.append('  int %s = %d; for (int i = 0; (%s) || i < 2; ++i) { %s += %d; if (i == 4) break; }' % (n, a, s, n, b))
            e = a + (5 * b if v else 2 * b)
        else:
            if t.flo:
                return
            pt = self.tg.promote(t)
            c = convert(v, t, pt)
            return self.known_switch(n, s, c, pt, a, b)
        self.obs(n, e, 'branch on ' + s)

    def known_switch(self, n, s, c, pt, a, b):
        hit = self.r.random() < .5
        lab = c if hit else convert(c + 1, self.tg.LLONG, pt)
        self.main.append('  int %s = 0; switch (%s) { case %s: %s = %d; break; default: %s = %d; }' % (
            n, s, self.ig.literal(lab, pt), n, a, n, b))
        self.obs(n, a if hit else b, 'switch on ' + s)

    def k_ternaryfx(self):
        """Operands with side effects around known values."""
        r = self.r
        s, t, v = (self.fg if r.random() < .3 else self.ig).expr(r.randrange(1, 3))
        if t.flo and v != v:
            return
        a, b = r.randrange(1, 1000), r.randrange(1, 1000)
        k = r.randrange(7)
        h = 0
        if k == 0:
            e, val, calls = '%s ? fx(%d) : fx(%d)' % (s, a, b), a if v else b, [a if v else b]
        elif k == 1:
            e, val, calls = '%s && fx(%d)' % (s, a), int(bool(v)), [a] if v else []
        elif k == 2:
            e, val, calls = '%s || fx(%d)' % (s, a), 1, [] if v else [a]
        elif k == 3:
            e, val, calls = 'fx(%d) && %s' % (a, s), int(bool(v)), [a]
        elif k == 4:
            e, val, calls = 'fx(%d) || %s' % (a, s), 1, [a]
        elif k == 5:
            e, val, calls = '(fx(%d), %s) ? fx(%d) : fx(0)' % (a, s, b), b if v else 0, [a, b if v else 0]
        else:
            e, val, calls = 'fx(%d) * (%s != 0)' % (a, s), a if v else 0, [a]
        n = self.fresh('x')
        self.main.append('  fx_n = 0; long long %s = %s;' % (n, e))
        self.obs(n, val, 'value of ' + e)
        for c in calls:
            h = h * 31 + c
        self.obs('fx_n', h, 'effects of ' + e)

    def k_dead(self):
        """Code in a branch never taken, entered by goto or holding case labels."""
        r = self.r
        n, l, f = self.fresh('x'), self.fresh('L'), self.fresh('f')
        s, t, v = self.iexpr(2)
        z = s if v == 0 else '(%s && 0)' % s
        a = r.randrange(1, 100)
        k = r.randrange(4) if self.goto else 2
        if k == 0:
            self.glob.append('static int %s(int x) { if (x > 0) goto %s; if (%s) { x = 1000; %s: x += %d; } return x; }' % (f, l, z, l, a))
            pr = [(5, 5 + a), (-5, -5)]
        elif k == 1:
            self.glob.append('static int %s(int x) { switch (x) { case 1: if (%s) { case 2: x += 50; } x += %d; break; default: x = 0; } return x; }' % (f, z, a))
            pr = [(1, 1 + a), (2, 52 + a), (3, 0)]
        elif k == 2:
            self.glob.append('static int %s(int x) { while (!(%s)) { if (x > %d) return x; x += 3; } }' % (f, z, a))
            y = -2
            while y <= a:
                y += 3
            pr = [(-2, y), (a + 1, a + 1)]
        else:
            self.glob.append('static int %s(int x) { goto %s; for (; %s;) { x += 1000; %s: x += %d; if (x < 0) continue; } return x; }' % (f, l, z, l, a))
            pr = [(5, 5 + a), (-1000, a - 1000)]
        for x, e in pr:
            self.obs('%s(%d)' % (f, x), e, 'unreached branch on ' + z, self.tg.INT)

    def k_desig(self):
        r = self.r
        s, v = self.small(0, 16)
        n = self.fresh('d')
        x = r.randrange(1, 1000)
        self.where('static int %s[] = { [%s] = %d, %d };' % (n, s, x, x + 1))
        self.obs('sizeof(%s) / sizeof(*%s)' % (n, n), v + 2, 'designator [%s]' % s)
        self.obs('%s[%d]' % (n, v), x, 'designator [%s]' % s)
        self.obs('%s[%d]' % (n, v + 1), x + 1, 'after designator [%s]' % s)

    def k_sizeofexpr(self):
        s, t, v = (self.fg if self.r.random() < .5 else self.ig).expr(self.r.randrange(1, 4))
        if t.name == 'char' and "'" in s:
            return
        self.obs('sizeof(%s)' % s, t.store, 'sizeof ' + s)
