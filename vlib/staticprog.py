"""Programs whose only content is static data: every object is dumped byte by byte at start."""
from .cexpr import LP64, Gen, Undefined, bits_of, convert
from .ctypes import Sc, Ptr, Arr, Rec, TypeGen, InitGen, leaves, has_ptr, has_union, cstr
from .objprog import ObjProg, Obj, PV, LV, NULL, Scope
from .exprprog import PRELUDE

PRE = PRELUDE + r'''
#include <stddef.h>
#include <wchar.h>
static void hex(const void *p, int n, const char *mask) {
  const unsigned char *q = p;
  for (int i = 0; i < n; ++i) {
    if (mask[i] != 'x') continue;
    obuf[on++] = "0123456789abcdef"[q[i] >> 4]; obuf[on++] = "0123456789abcdef"[q[i] & 15];
    if (on > 8000) flush();
  }
  obuf[on++] = '\n';
}
'''


class StaticProg(ObjProg):
    def __init__(self, rng, tg=LP64, nobj=14, floats=True):
        self.r, self.tg, self.floats = rng, tg, floats
        self.expected, self.labels, self.ops = [], [], set()
        self.nv = 0
        self.g = Gen(rng, tg, floats=floats)
        self.cg = Gen(rng, tg, floats=floats, consts_only=True, calls=False, sidefx=False)
        self.tgen = TypeGen(rng, tg, floats=floats)
        for _ in range(rng.randrange(2, 6)):
            self.tgen.rec()
        self.scopes = [Scope()]
        self.glob, self.main, self.late = [], [], []
        self.fns = []
        for i in range(rng.randrange(1, 4)):
            n = 'fn%d' % i
            self.fns.append((n, 1000 + rng.randrange(1000)))
            st = rng.choice(['', 'static '])
            self.glob.append('%sint %s(void);' % (st, n))
            self.late.append('%sint %s(void) { return %d; }' % (st, n, self.fns[-1][1]))
        self.layout()
        kinds = [self.k_object] * 8 + [self.k_unsized, self.k_flex, self.k_wide, self.k_tentative, self.k_bits, self.k_enum,
                                      self.k_local, self.k_local, self.k_strings, self.k_fptr, self.k_complit, self.k_literals, self.k_literals, self.k_big,
                                      self.k_2d, self.k_intptr, self.k_selfref]
        for _ in range(nobj):
            rng.choice(kinds)()
        for o in self.scopes[0].objs:
            self.dump_obj(o)
        recs = [x.body() + ';' for x in self.tgen.recs]
        self.source = (PRE + '\n'.join(recs) + '\n' + '\n'.join(self.glob) + '\n' + '\n'.join(self.late) +
                       '\nint main(void) {\n  ' + '\n  '.join(self.main) + '\n  flush();\n  return 0;\n}\n')

    def obs(self, s, v, label, t=None):
        self.main.append('out((u64)(%s));' % s)
        self.expected.append(bits_of(v, t or self.tg.LLONG))
        self.labels.append(label)

    def layout(self):
        for x in self.tgen.recs:
            self.obs('sizeof(%s)' % x.name(), x.size, 'sizeof ' + x.body())
            self.obs('_Alignof(%s)' % x.name(), x.align, '_Alignof ' + x.body())
            for n, o, m in x.named():
                self.obs('offsetof(%s, %s)' % (x.name(), n), o, 'offsetof %s in %s' % (n, x.body()))

    def lit(self, v, t):
        return self.g.literal(v, t)

    def leafinit(self):
        """InitGen with constant expressions as leaves."""
        r = self.r
        prog = self

        class IG(InitGen):
            def leaf(self, t, off):
                if t.kind == 'sc' and r.random() < .25:
                    for _ in range(4):
                        try:
                            s, ty, v = prog.cg.expr(r.randrange(1, 4))
                            if (ty.flo or t.t.flo) and v != v:
                                continue
                            x = convert(v, ty, t.t)
                            if t.t.flo and (x != x or x in (float('inf'), float('-inf'))):
                                continue
                            self.ops.add('constant expression %s->%s' % (ty.name, t.t.name))
                            return '(' + s + ')', [(off, t, x)]
                        except Undefined:
                            pass
                return InitGen.leaf(self, t, off)
        return IG(r, self.lit, self.scval, self.cptr)

    def cptr(self, t):
        """Address constants."""
        r = self.r
        s, pv = self.ptrval(t, True)
        if pv.obj is not None and pv.n > 1 and r.random() < .4 and '+' not in s:
            # &a[i] with an offset
            j = r.randrange(0, pv.n + 1)
            d = j - pv.idx
            s = '%s %s %d' % (s, '-' if d < 0 else '+', abs(d))
            pv = PV(pv.obj, pv.off + d * pv.ty.size, pv.ty, j, pv.n)
            self.ops.add('address with offset')
        if pv.obj is not None and r.random() < .15:
            s = '(%s)((char *)(%s))' % (t.decl('').rstrip(), s) if t.to.kind != 'arr' else s
            self.ops.add('address cast')
        return s, pv

    def do_init(self, o):
        g = self.leafinit()
        s, st = g.gen(o.ty)
        self.ops |= g.ops
        self.apply_init(o, 0, o.ty, st)
        return s

    def k_object(self, local=False):
        r = self.r
        ty = self.tgen.any(3) if r.random() < .5 or not self.tgen.recs else r.choice(self.tgen.recs)
        if r.random() < .25 and ty.size < 100:
            ty = Arr(ty, r.randrange(1, 5))
        o = Obj(self.fresh('o'), ty, 'global')
        q = r.choice(['', '', 'const ', 'volatile ']) if not has_ptr(ty) else ''
        st = r.choice(['', 'static '])
        if r.random() < .15:
            self.zero(o, 0, ty)
            self.glob.append('%s%s%s;' % (st, q, ty.decl(o.name)))
            self.ops.add('uninitialised')
        else:
            s = self.do_init(o)
            if r.random() < .2 and not st:
                self.glob.append(r.choice(['extern %s;', '%s;']) % (q + ty.decl(o.name)))
                self.ops.add('declared before')
            self.glob.append('%s%s%s = %s;' % (st, q, ty.decl(o.name), s))
        self.ops.add('object ' + ty.key())
        self.scopes[0].objs.append(o)

    def k_unsized(self):
        r = self.r
        el = self.tgen.any(2, arr=False)
        n = r.randrange(1, 9)
        o = Obj(self.fresh('o'), Arr(el, n), 'global')
        g = self.leafinit()
        items, idx, top, st = [], 0, 0, []
        from .ctypes import override
        for _ in range(n):
            if r.random() < .2:
                idx = r.randrange(n)
                s, x = g.gen(el, idx * el.size, False)
                items.append('[%d] = %s' % (idx, s))
            else:
                if idx >= n:
                    break
                s, x = g.gen(el, idx * el.size, False)
                items.append(s)
            st = override(st, idx * el.size, el.size, x)
            idx += 1
            top = max(top, idx)
        o = Obj(o.name, Arr(el, top), 'global')
        self.apply_init(o, 0, o.ty, st)
        self.glob.append('%s%s = {%s};' % (r.choice(['', 'static ']), Arr(el, None).decl(o.name), ', '.join(items)))
        self.obs('sizeof(%s)' % o.name, el.size * top, 'sizeof unsized ' + o.name)
        self.scopes[0].objs.append(o)
        self.ops.add('unsized array')

    def k_2d(self):
        r = self.r
        el = self.tgen.scalar()
        n = r.randrange(1, 4)
        o = Obj(self.fresh('o'), Arr(Arr(el, n), 0), 'global')
        m = r.randrange(1, 4)
        ty = Arr(Arr(el, n), m)
        o = Obj(o.name, ty, 'global')
        vals = [self.scval(el.t) for _ in range(n * m)]
        for i, v in enumerate(vals):
            self.store(o, i * el.size, el, v)
        if r.random() < .5:
            s = ', '.join(self.lit(v, el.t) for v in vals)
        else:
            s = ', '.join('{%s}' % ', '.join(self.lit(v, el.t) for v in vals[i * n:(i + 1) * n]) for i in range(m))
        self.glob.append('%s = {%s};' % (Arr(Arr(el, n), None).decl(o.name), s))
        self.obs('sizeof %s / sizeof *%s' % (o.name, o.name), m, 'rows of ' + o.name)
        self.scopes[0].objs.append(o)

    def k_flex(self):
        r = self.r
        head = [self.tgen.scalar() for _ in range(r.randrange(1, 3))]
        el = self.tgen.scalar() if r.random() < .7 else self.tgen.any(1, False, arr=False)
        n = r.randrange(0, 5)
        nm = self.fresh('F')
        ms = [('h%d' % i, t) for i, t in enumerate(head)]
        base = Rec(nm, False, ms + [('f', Arr(el, 0))])
        full = Rec(nm, False, ms + [('f', Arr(el, n))])
        self.glob.append('struct %s { %s %s };' % (nm, ' '.join(t.decl(m) + ';' for m, t in ms), Arr(el, None).decl('f') + ';'))
        o = Obj(self.fresh('o'), full, 'global')
        self.zero(o, 0, full)
        items = []
        for (m, t), off in zip(ms, full.offs):
            v = self.scval(t.t)
            items.append(self.lit(v, t.t))
            self.store(o, off, t, v)
        if n:
            if el.kind == 'sc' and el.t.size == 1 and el.t.name != '_Bool' and r.random() < .5:
                cs = [r.randrange(33, 127) for _ in range(n - 1)] + [0]
                items.append(cstr(cs[:-1], r))
                for i, c in enumerate(cs):
                    self.store(o, full.offs[-1] + i, el, c)
                self.ops.add('flexible string')
            else:
                g = self.leafinit()
                sub = []
                for i in range(n):
                    s, x = g.gen(el, full.offs[-1] + i * el.size, False)
                    sub.append(s)
                    for y in x:
                        if y[0] == 'unionpad':
                            o.known[y[1] + y[2]:y[1] + y[3]] = bytes(y[3] - y[2])
                        else:
                            self.store(o, y[0], y[1], y[2])
                items.append('{%s}' % ', '.join(sub))
        self.glob.append('struct %s %s = {%s};' % (nm, o.name, ', '.join(items)))
        self.obs('sizeof(struct %s)' % nm, base.size, 'sizeof struct with flexible array')
        self.obs('offsetof(struct %s, f)' % nm, base.offs[-1], 'offset of flexible array')
        self.ops.add('flexible')
        self.dump_obj(o)
        # a neighbour that must not be overwritten
        self.k_object()

    def k_wide(self):
        r = self.r
        cs = [r.choice([65, 0x100, 0x3042, 0x1f600, 255, 128, 92, 34, 0]) if r.random() < .6 else r.randrange(33, 127)
              for _ in range(r.randrange(0, 6))]
        def lit():
            s = 'L"'
            for c in cs:
                if c in (34, 92):
                    s += '\\' + chr(c)
                elif c == 0 or r.random() < .2 and c < 256:
                    s += '\\x%x" L"' % c
                else:
                    s += chr(c) if c > 127 or c >= 32 else '\\x%x" L"' % c
            return s + '"'
        n = self.fresh('w')
        k = r.randrange(3)
        if k == 0:
            self.glob.append('wchar_t %s[] = %s;' % (n, lit()))
            self.obs('sizeof %s' % n, 4 * (len(cs) + 1), 'sizeof wide string')
            tail = [0]
        elif k == 1:
            e = r.randrange(len(cs), len(cs) + 4)
            if e == 0:
                e = 1
            self.glob.append('static const wchar_t %s[%d] = %s;' % (n, e, lit()))
            tail = [0] * (e - len(cs))
        else:
            self.glob.append('const wchar_t *%s = %s;' % (n, lit()))
            tail = [0]
        for i, c in enumerate(cs + tail):
            self.obs('(unsigned)%s[%d]' % (n, i), c, 'wide string %s element %d' % (lit(), i))
        self.ops.add('wide %d' % k)

    def k_tentative(self):
        r = self.r
        t = self.tgen.scalar() if r.random() < .6 else (r.choice(self.tgen.recs) if self.tgen.recs else self.tgen.scalar())
        o = Obj(self.fresh('o'), t, 'global')
        st = r.choice(['', 'static ', ''])
        ds = ['%s%s;' % (st, t.decl(o.name))] * r.randrange(1, 3)
        if r.random() < .6:
            s = self.do_init(o)
            ds.insert(r.randrange(len(ds) + 1), '%s%s = %s;' % (st, t.decl(o.name), s))
        else:
            self.zero(o, 0, t)
        if not st and r.random() < .5:
            ds.insert(r.randrange(len(ds) + 1), 'extern %s;' % t.decl(o.name))
        self.glob += ds
        self.scopes[0].objs.append(o)
        self.ops.add('tentative%d' % len(ds))

    def k_bits(self):
        r = self.r
        nm = self.fresh('B')
        fields, decl, vals = [], [], []
        for i in range(r.randrange(1, 9)):
            k = r.random()
            if k < .2:
                t = self.tgen.scalar()
                decl.append(t.decl('b%d' % i) + ';')
                fields.append(('b%d' % i, t.t, None))
                continue
            t = r.choice([self.tg.INT, self.tg.UINT, self.tg.UINT, self.tg.LLONG, self.tg.ULLONG, self.tg.CHAR, self.tg.UCHAR,
                          self.tg.SHORT, self.tg.USHORT])
            w = r.randrange(1, t.bits + 1)
            if k < .27:
                decl.append('%s : %d;' % (t.name, r.choice([0, w])))
                continue
            decl.append('%s b%d : %d;' % (t.name, i, w))
            fields.append(('b%d' % i, t, w))
        if not fields:
            return
        o = self.fresh('o')
        items, exp = [], {}
        desig = r.random() < .4
        un = r.random() < .15
        fs = list(fields)
        if desig:
            r.shuffle(fs)
        if un:
            fs = fs[:1]
        for n, t, w in fs[:r.randrange(1, len(fs) + 1)]:
            v = self.scval(t)
            if w is not None:
                v &= (1 << w) - 1
                if t.signed and v >> (w - 1):
                    v -= 1 << w
            items.append(('.%s = ' % n if desig else '') + self.lit(v, t))
            exp[n] = v
        kw = 'union' if un else 'struct'
        if un:
            fields = fs
        self.glob.append('%s %s { %s };' % (kw, nm, ' '.join(decl)))
        arr = r.random() < .3
        self.glob.append('%s%s %s %s = %s;' % (r.choice(['', 'static ', 'const ']), kw, nm, o + ('[2]' if arr else ''),
                                                 ('{{%s}, {0}}' if arr else '{%s}') % ', '.join(items)))
        for n, t, w in fields:
            v = exp.get(n, 0 if not t.flo else 0.0)
            ref = (o + '[0]' if arr else o) + '.' + n
            if t.flo:
                self.main.append('{ double d_ = %s; hex(&d_, 8, "xxxxxxxx"); }' % ref)
                import struct
                self.expected.append(struct.pack('<d', v).hex())
                self.labels.append('bit-field neighbour ' + ref)
            else:
                self.obs(ref, v, 'member %s of struct { %s } = {%s}' % (n, ' '.join(decl), ', '.join(items)))
        self.ops.add('bit-fields')

    def k_enum(self):
        r = self.r
        n = self.fresh('E')
        v, items, vals = -1, [], []
        for i in range(r.randrange(1, 5)):
            if r.random() < .4:
                v = r.choice([0, 5, -3, 2147483647, -2147483648, r.randrange(-100, 100)])
                items.append('%s_%d = %s' % (n, i, self.lit(v, self.tg.INT)))
            else:
                if v == 2147483647:
                    break
                v += 1
                items.append('%s_%d' % (n, i))
            vals.append(v)
        self.glob.append('enum %s { %s };' % (n, ', '.join(items)))
        self.glob.append('enum %s %s_v[] = {%s};' % (n, n, ', '.join('%s_%d' % (n, i) for i in range(len(vals)))))
        for i, x in enumerate(vals):
            self.obs('(int)%s_v[%d]' % (n, i), x, 'enumerator %d of {%s}' % (i, ', '.join(items)))
        self.ops.add('enum')

    def k_local(self):
        """Static locals: seen through a pointer the function returns."""
        r = self.r
        ty = self.tgen.any(2) if r.random() < .5 or not self.tgen.recs else r.choice(self.tgen.recs)
        o = Obj(self.fresh('q'), ty, 'global')
        zero = r.random() < .2
        if zero:
            self.zero(o, 0, ty)
        else:
            s = self.do_init(o)
        fn = 'lf%s' % o.name
        name = r.choice(['loc', 'loc', o.name])
        d = 'static %s%s;' % (ty.decl(name), '' if zero else ' = ' + s)
        inner = r.random() < .4
        body = '{ %s return &%s; }' % (d, name) if inner else '%s return &%s;' % (d, name)
        if inner and r.random() < .5:
            body = 'static int %s = 77; if (%s == 77) %s return 0;' % (name, name, body)
        self.late.append('const void *%s(void) { %s }' % (fn, body))
        o.addr = '%s()' % fn
        self.dump_obj(o)
        self.ops.add('static local')

    def k_strings(self):
        r = self.r
        n = self.fresh('s')
        lits = []
        for _ in range(r.randrange(1, 4)):
            cs = [r.choice([0, 9, 10, 34, 39, 63, 92, 127, 128, 200, 255]) if r.random() < .3 else r.randrange(32, 127)
                  for _ in range(r.choice([0, 1, 3, 7, 20]))]
            lits.append(cs)
        if r.random() < .5 and len(lits) > 1:
            lits[-1] = list(lits[0])
        offs = [r.randrange(0, len(c) + 1) if r.random() < .3 else 0 for c in lits]
        T = r.choice(['char', 'const char', 'unsigned char', 'signed char'])
        self.glob.append('%s *%s[] = {%s};' % (T, n, ', '.join(
            ('(%s *)' % T if 'signed' in T else '') + cstr(c, r) + (' + %d' % o if o else '') for c, o in zip(lits, offs))))
        for i, (c, o) in enumerate(zip(lits, offs)):
            c = c[o:] + [0]
            self.main.append('hex(%s[%d], %d, "%s");' % (n, i, len(c), 'x' * len(c)))
            self.expected.append(bytes(c).hex())
            self.labels.append('string pointed to by %s[%d]' % (n, i))
        self.ops.add('string pointers')

    def k_fptr(self):
        r = self.r
        n = self.fresh('f')
        fs = [r.choice(self.fns) for _ in range(r.randrange(1, 4))]
        self.glob.append('%sint (*%s[])(void) = {%s};' % (r.choice(['', 'static ']), n, ', '.join(r.choice(['%s', '&%s', '*%s']) % f[0] for f in fs)))
        for i, f in enumerate(fs):
            self.obs(r.choice(['%s[%d]()', '(*%s[%d])()']) % (n, i), f[1], 'function pointer')
        self.ops.add('function pointers')

    def k_complit(self):
        r = self.r
        if not self.tgen.recs:
            return
        n = self.fresh('c')
        if r.random() < .5:
            ty = r.choice(self.tgen.recs)
            o = Obj(n, ty, 'global')
            s = self.do_init(o)
            self.glob.append('%s *%s = &(%s)%s;' % (ty.name(), n, ty.name(), s))
        else:
            el = self.tgen.scalar()
            ty = Arr(el, r.randrange(1, 5))
            o = Obj(n, ty, 'global')
            g = self.leafinit()
            items, st = [], []
            for i in range(ty.n):
                s, x = g.gen(el, i * el.size, False)
                items.append(s)
                st += x
            self.apply_init(o, 0, ty, st)
            self.glob.append('%s *%s = (%s[]){%s};' % (el.t.name, n, el.t.name, ', '.join(items)))
        o.addr = n
        self.dump_obj(o)
        self.ops.add('compound literal')

    def k_literals(self):
        """Compound literals of every shape, their addresses, members and elements, at file scope or in a block."""
        r = self.r
        n = self.fresh('l')
        T = r.choice(['char', 'signed char', 'short', 'int', 'unsigned', 'long long', 'double', 'float'])
        P = self.fresh('P')
        self.glob.append('struct %s { %s a; int b[2]; %s c; };' % (P, T, r.choice(['char', T])))
        val = lambda: r.choice([0, 1, r.randrange(127)])   # noqa: E731
        decl, see = [], []     # declaration; what is read, its value
        local = r.random() < .35
        for k in range(r.randrange(1, 5)):
            x = '%s_%d' % (n, k)
            kind = r.randrange(9)
            v = [val() for _ in range(r.randrange(1, 5))]
            i = r.randrange(len(v))
            lst = ', '.join(map(str, v))
            if kind == 0:
                decl.append('%s *%s = &(%s){%d};' % (T, x, T, v[0]))
                see.append(('*' + x, v[0]))
            elif kind == 1:
                e = r.choice(['(%s[]){%s} + %d', '&(%s[]){%s}[%d]', '(%s[%%d]){%s} + %d' .replace('%%d', str(len(v) + 1)), '&*(%s[]){%s} + %d']) % (T, lst, i)
                decl.append('%s *%s = %s;' % (T, x, e))
                see += [('%s[%d]' % (x, j - i), v[j]) for j in range(len(v))]
            elif kind == 2:
                t = ''.join(r.choice('abcXYZ 019') for _ in range(r.randrange(0, 9)))
                i = r.randrange(len(t) + 1)
                e = r.choice(['(char[]){"%s"}', '(char[]){"%s"}', '(char[20]){"%s"}', '"%s"', '(char[]){("%s")}']) % t
                decl.append('const char *%s = %s + %d;' % (x, e, i))
                see += [('%s[%d]' % (x, j - i), ord((t + '\0')[j])) for j in range(len(t) + 1)]
                see.append(('sizeof((char[]){"%s"})' % t, len(t) + 1))
            elif kind == 3:        # brace elision decides the length
                v = [val() for _ in range(r.randrange(1, 13))]
                m = (len(v) + 3) // 4
                decl.append('struct %s *%s = (struct %s[]){%s};' % (P, x, P, ', '.join(map(str, v))))
                see.append(('sizeof((struct %s[]){%s}) / sizeof(struct %s)' % (P, ', '.join(map(str, v)), P), m))
                for j in range(m * 4):
                    see.append(('%s[%d].%s' % (x, j // 4, ['a', 'b[0]', 'b[1]', 'c'][j % 4]), v[j] if j < len(v) else 0))
            elif kind == 4:
                b = [val(), val()]
                e, ref, w = r.choice([('int *', '&(struct %s){1, {%d, %d}}.b[1]', b[1]), ('int *', '(struct %s){1, {%d, %d}}.b', b[0]),
                                      ('int *', '&(struct %s){.b = {%d, %d}}.b[0]', b[0]), ('int *', '&((struct %s[]){{0}, {1, {%d, %d}}})[1].b[1]', b[1])])
                decl.append('%s%s = %s;' % (e, x, ref % (P, b[0], b[1])))
                see.append(('*' + x, w))
            elif kind == 5:
                decl.append('%s **%s = &(%s *){&(%s){%d}};' % (T, x, T, T, v[0]))
                see.append(('**' + x, v[0]))
            elif kind == 6:
                m = r.randrange(1, 4)
                w = [[val() for _ in range(4)] for _ in range(m)]
                decl.append('struct { %s *p; struct %s s; int *q; } %s[] = {%s};' % (T, P, x, ', '.join(
                    '{&(%s){%d}, %s{.c = %d, .b[1] = %d}, (int[3]){[1] = %d} + 1}' % (T, y[0], r.choice(['', '(struct %s)' % P]), y[1], y[2], y[3]) for y in w)))
                for j, y in enumerate(w):
                    see += [('*%s[%d].p' % (x, j), y[0]), ('%s[%d].s.c' % (x, j), y[1]), ('%s[%d].s.b[1]' % (x, j), y[2]), ('%s[%d].s.b[0]' % (x, j), 0),
                            ('%s[%d].q[0]' % (x, j), y[3]), ('%s[%d].q[1]' % (x, j), 0), ('sizeof(%s) / sizeof(%s[0])' % (x, x), m)]
            elif kind == 7:
                w = [val() for _ in range(r.randrange(1, 8))]
                decl.append('%s (*%s)[2] = (%s[][2]){%s};' % (T, x, T, ', '.join(map(str, w))))
                see += [('%s[%d][%d]' % (x, j // 2, j % 2), w[j] if j < len(w) else 0) for j in range((len(w) + 1) // 2 * 2)]
                see.append(('sizeof((%s[][2]){%s}) / sizeof(%s[2])' % (T, ', '.join(map(str, w)), T), (len(w) + 1) // 2))
            else:
                decl.append('const char **%s = (const char *[]){"%s", [2] = "%s"} + 1;' % (x, 'qr', 'stu'))
                see += [('%s[-1][1]' % x, ord('r')), ('%s[1][2]' % x, ord('u')), ('%s[0] == 0' % x, 1)]
            self.ops.add('literal %d%s' % (kind, ' local' if local else ''))
        if local:
            f = self.fresh('lf')
            self.glob.append('static void %s(void) {\n  %s\n%s}' % (f, '\n  '.join(decl), ''.join('  out((u64)(long long)(%s));\n' % e for e, _ in see)))
            self.main.append('%s();' % f)
            for e, v in see:
                self.expected.append(bits_of(v, self.tg.LLONG))
                self.labels.append('compound literal ' + e)
        else:
            self.glob += [r.choice(['', 'static ']) + d for d in decl]
            for e, v in see:
                self.obs('(long long)(%s)' % e, v, 'compound literal ' + e)

    def k_big(self):
        r = self.r
        el = self.tgen.scalar()
        n = r.choice([100, 1000, 5000])
        i = r.randrange(n)
        v = self.scval(el.t)
        nm = self.fresh('g')
        init = r.random() < .7
        self.glob.append('%s%s%s;' % (r.choice(['', 'static ']), Arr(el, n).decl(nm), ' = {[%d] = %s}' % (i, self.lit(v, el.t)) if init else ''))
        f = self.fresh('z')
        self.late.append('static u64 %s(void) { const unsigned char *p = (const void *)%s; u64 s = 0; for (unsigned i = 0; i < sizeof(%s); ++i) s += p[i] * (u64)(i + 1); return s; }' % (f, nm, nm))
        from .ctypes import pack
        b = pack(el.t, v) if init else b''
        base = i * el.size
        self.obs('%s()' % f, sum(c * (base + j + 1) for j, c in enumerate(b)), 'checksum of big array ' + nm)
        self.ops.add('big')

    def k_intptr(self):
        r = self.r
        n = self.fresh('o')
        v = r.choice([0, 1, 0x1234, 0x7fffffff, (1 << (8 * self.tg.long_size)) - 1, 1 << (8 * self.tg.long_size - 2)])
        t = r.choice(['void', 'int', 'char', 'struct Undefined_'])
        self.glob.append('%s *%s = (%s *)%s;' % (t, n, t, self.lit(v, self.tg.ULONG)))
        self.obs('(unsigned long)%s' % n, v, 'integer cast to pointer')
        self.ops.add('integer pointer')

    def k_selfref(self):
        r = self.r
        nm = self.fresh('N')
        k = r.randrange(2, 5)
        perm = [r.randrange(k) for _ in range(k)]
        self.glob.append('struct %s { struct %s *next; char c; struct %s *self[2]; };' % (nm, nm, nm))
        self.glob.append('%sstruct %s %s_a[%d];' % (r.choice(['extern ', '']), nm, nm, k))
        self.glob.append('struct %s %s_a[%d] = {%s};' % (nm, nm, k, ', '.join(
            '{%s, %d, {[1] = %s_a + %d}}' % (r.choice(['&%s_a[%d]', '%s_a + %d']) % (nm, p), i, nm, i) for i, p in enumerate(perm))))
        for i, p in enumerate(perm):
            self.obs('%s_a[%d].next - %s_a' % (nm, i, nm), p, 'self reference')
            self.obs('%s_a[%d].self[1] == &%s_a[%d] && !%s_a[%d].self[0]' % (nm, i, nm, i, nm, i), 1, 'self reference')
            self.obs('%s_a[%d].c' % (nm, i), i, 'char between pointers')
        self.ops.add('self reference')

    def dump_obj(self, o):
        ad = getattr(o, 'addr', '&' + o.name)
        if o.ty.align > 1:
            self.obs('(unsigned long)%s %% %d' % (ad, o.ty.align), 0, 'alignment of ' + o.name)
        if not hasattr(o, 'addr'):
            self.obs('sizeof(%s)' % o.name, o.ty.size, 'sizeof ' + o.name) if o.ty.kind != 'rec' or not o.ty.tag.startswith('F') else None
        mask = bytearray(o.ty.size)
        for _, off, t in leaves(o.ty):
            if t.kind == 'sc':
                for i in range(off, off + t.size):
                    mask[i] = 1
        for off in o.ptrs:
            mask[off:off + self.tg.long_size] = bytes(self.tg.long_size)
        idx = [i for i in range(o.ty.size) if mask[i] and o.known[i]]
        if idx and o.ty.size <= 800:
            self.main.append('hex((const void *)%s, %d, "%s");' % (ad, o.ty.size, ''.join(
                'x' if mask[i] and o.known[i] else '.' for i in range(o.ty.size))))
            self.expected.append(''.join('%02x' % o.b[i] for i in idx))
            self.labels.append('bytes of %s (%s)' % (o.name, o.ty.key()))
        for off, pv in sorted(o.ptrs.items()):
            ref = '(*(char **)((char *)%s + %d))' % (ad, off)
            if pv.obj is None:
                self.obs('%s == 0' % ref, 1, 'null pointer at %s+%d' % (o.name, off))
            else:
                self.obs('%s - (char *)&%s' % (ref, pv.obj.name), pv.off, 'pointer at %s+%d into %s' % (o.name, off, pv.obj.name))
