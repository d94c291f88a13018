"""Programs about types: every type has several spellings and near misses; the model knows which are the same type, their
sizes, the types of expressions and the values behind declarators of any nesting."""
from .exprprog import PRELUDE

SPELL = {
    'char': ['char'], 'unsigned char': ['unsigned char', 'char unsigned'], 'short': ['short', 'short int', 'signed short', 'int short', 'signed short int'],
    'unsigned short': ['unsigned short', 'unsigned short int', 'short unsigned', 'short unsigned int'],
    'int': ['int', 'signed', 'signed int', 'int signed'], 'unsigned int': ['unsigned', 'unsigned int', 'int unsigned'],
    'long': ['long', 'long int', 'signed long', 'int long', 'signed long int', 'long signed'], 'unsigned long': ['unsigned long', 'unsigned long int', 'long unsigned', 'long unsigned int'],
    'long long': ['long long', 'long long int', 'signed long long', 'long signed long', 'long long signed int'], 'unsigned long long': ['unsigned long long', 'long long unsigned', 'long unsigned long', 'unsigned long long int'],
    'float': ['float'], 'double': ['double'], '_Bool': ['_Bool'],
}
BOOL = 4   # xcc's choice
SIZE = {'char': 1, 'unsigned char': 1, '_Bool': BOOL, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
RANK = {'_Bool': 0, 'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 3, 'unsigned int': 3, 'long': 4, 'unsigned long': 4, 'long long': 5, 'unsigned long long': 5}
INTEGER = list(RANK)


class B:            # scalar or record; q: const
    k = 'b'

    def __init__(self, name, q=False, size=None, rec=False):
        self.name, self.q, self.rec = name, q, rec
        self._size = size

    def size(self):
        return self._size or SIZE[self.name]

    def key(self):
        return ('const ' if self.q else '') + self.name

    def bare(self):
        return B(self.name, False, self._size, self.rec)


class P:
    k = 'p'

    def __init__(self, to, q=False):
        self.to, self.q = to, q

    def size(self):
        return 8

    def key(self):
        return ('const ' if self.q else '') + 'ptr(%s)' % self.to.key()

    def bare(self):
        return P(self.to)


class A:
    k = 'a'

    def __init__(self, el, n):
        self.el, self.n = el, n

    def size(self):
        return self.el.size() * self.n

    def key(self):
        return 'arr%d(%s)' % (self.n, self.el.key())

    def bare(self):
        return self


class F:
    k = 'f'

    def __init__(self, ret, params):
        self.ret, self.params = ret, params

    def key(self):
        return 'fn(%s;%s)' % (self.ret.key(), ','.join(p.key() for p in self.params))

    def bare(self):
        return self


class V(B):         # void
    def __init__(self, q=False):
        B.__init__(self, 'void', q, 1)

    def bare(self):
        return V()


class TypeProg:
    def __init__(self, r, n=14):
        self.r = r
        self.expected, self.labels, self.ops = [], [], set()
        self.glob, self.body = [], []
        self.uid = 0
        self.recs = []
        for i in range(3):
            k = r.randrange(1, 40)
            self.glob.append('struct R%d { char c[%d]; };' % (i, k))
            self.recs.append(('struct R%d' % i, k))
        self.glob.append('union U3 { int i; char c[3]; }; enum { K0, K1 = 7 };')
        self.recs.append(('union U3', 4))
        for b in SIZE:
            self.glob.append('static %s v_%s = 1; static const %s c_%s = 1; static %s f_%s(void) { return 1; }' % ((b, b.replace(' ', '_')) * 3))
        self.glob.append('struct M { %s };' % ' '.join('%s m_%s;' % (b, b.replace(' ', '_')) for b in SIZE) + ' static struct M sm, *psm = &sm; static const struct M csm, *pcsm = &csm;')
        for _ in range(n):
            r.choice([self.t_generic, self.t_generic, self.t_object, self.t_object, self.t_expr, self.t_expr, self.t_expr, self.t_sizeof, self.t_param, self.t_ptrexpr])()
        self.source = PRELUDE + '\n'.join(self.glob) + '\nint main(void) {\n  ' + '\n  '.join(self.body) + '\n  flush(); return 0; }\n'

    def out(self, s, v, label):
        self.body.append('out((u64)(%s));' % s)
        self.expected.append('%016x' % (v & (1 << 64) - 1))
        self.labels.append(label[:240])

    def fresh(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    # ------------------------------------------------ types
    def scalar(self, q=None):
        return B(self.r.choice(list(SIZE)), self.r.random() < .25 if q is None else q)

    def any(self, d, fn=True, arr=True, void=False, rec=True):
        r = self.r
        k = r.random()
        if d <= 0 or k < .2:
            if void and r.random() < .15:
                return V(r.random() < .3)
            if rec and r.random() < .15:
                n, z = r.choice(self.recs)
                return B(n, r.random() < .25, z, True)
            return self.scalar()
        if k < .6:
            return P(self.any(d - 1, void=True), r.random() < .2)
        if k < .82 and arr:
            return A(self.any(d - 1, fn=False), r.randrange(1, 5))
        if fn:
            ret = self.any(d - 1, fn=False, arr=False, void=False).bare()
            return F(ret, [self.any(min(d - 1, 1), fn=False, arr=False).bare() for _ in range(r.choice([0, 0, 1, 2]))])
        return P(self.any(d - 1, void=True), r.random() < .2)

    # ------------------------------------------------ spelling
    def spec(self, t):
        r = self.r
        s = r.choice(SPELL[t.name]) if t.name in SPELL else t.name
        if t.q:
            if ' ' in s and not t.rec and r.random() < .3:
                w = s.split(' ')
                w.insert(r.randrange(len(w) + 1), 'const')
                return ' '.join(w)
            return r.choice(['const ' + s, s + ' const'])
        return s

    def spell(self, t, inner='', td=.2, names=False):
        """The declaration of `inner` as t; names: give names to the parameters of the outermost function."""
        r = self.r
        if not names and r.random() < td and not (t.k == 'b' and t.name == 'void'):
            # a typedef name, perhaps with the qualifier left outside
            n = self.fresh('td')
            if t.k in 'bp' and t.q and r.random() < .5:
                self.glob.append('typedef %s;' % self.spell(t.bare(), n, td * .6))
                return r.choice(['const %s %s', '%s const %s']) % (n, inner)
            if t.k == 'a' and t.el.k in 'bp' and t.el.q and r.random() < .5:
                self.glob.append('typedef %s;' % self.spell(A(t.el.bare(), t.n), n, td * .6))
                self.ops.add(('const array typedef',))
                return 'const %s %s' % (n, inner)
            self.glob.append(r.choice(['typedef %s;', 'typedef %s;']) % self.spell(t, n, td * .6))
            return '%s %s' % (n, inner)
        if inner and r.random() < .12 and not names:
            inner = '(%s)' % inner
        if t.k == 'b':
            return '%s %s' % (self.spec(t), inner)
        if t.k == 'p':
            s = '*' + ('const ' if t.q else '') + inner
            if t.to.k in 'af':
                s = '(%s)' % s
            return self.spell(t.to, s, td)
        if t.k == 'a':
            return self.spell(t.el, '%s[%d]' % (inner, t.n), td)
        if names:
            ps = ', '.join(self.spell(p, '%s%d' % ('p_', i), td) for i, p in enumerate(t.params)) or 'void'
        else:
            ps = ', '.join(self.spell(p, r.choice(['', 'q%d' % i]), td) for i, p in enumerate(t.params)) or 'void'
        return self.spell(t.ret, '%s(%s)' % (inner, ps), td)

    # ------------------------------------------------ near misses
    def mutate(self, t, infn=False):
        r = self.r
        if t.k == 'b' and t.name == 'void':
            return r.choice([V(not t.q), B('int', t.q)]) if not infn else B('int')
        if t.k == 'b':
            k = r.random()
            if k < .4 and not infn:
                return B(t.name, not t.q, t._size, t.rec)
            if k < .5 and not infn:
                return P(t)
            if t.rec:
                n, z = r.choice(self.recs)
                return B(n, t.q, z, True)
            return B(r.choice(list(SIZE)), t.q)
        if t.k == 'p':
            k = r.random()
            if k < .15 and not infn:
                return P(t.to, not t.q)
            if k < .25:
                return P(P(t.to), t.q)
            return P(self.mutate(t.to, infn), t.q)
        if t.k == 'a':
            if r.random() < .4:
                return A(t.el, t.n + 1)
            return A(self.mutate(t.el, infn), t.n)
        k = r.random()
        if k < .3:
            return F(t.ret, t.params + [B('int')])
        if k < .6 and t.params:
            i = r.randrange(len(t.params))
            return F(t.ret, t.params[:i] + [self.mutate(t.params[i], True)] + t.params[i + 1:])
        return F(self.mutate(t.ret, True), t.params)

    def select(self, expr, t, label):
        """Which of the associations an expression of (unqualified, scalar or pointer) type t takes."""
        r = self.r
        types, seen = [], {t.key()}
        for _ in range(r.randrange(1, 5)):
            m = self.mutate(t)
            if m.k == 'p' and r.random() < .3:
                m = self.mutate(m)
            m = m.bare()
            if m.k not in 'bp' or m.key() in seen or m.key() == 'void':
                continue
            seen.add(m.key())
            types.append((m, r.getrandbits(30)))
        hit = r.random() < .85
        val = r.getrandbits(30)
        if hit:
            types.insert(r.randrange(len(types) + 1), (t, val))
        if not types:
            return
        items = ['%s: %d' % (self.spell(m), v) for m, v in types]
        if not hit or r.random() < .4:
            d = r.getrandbits(30)
            items.insert(r.randrange(len(items) + 1), 'default: %d' % d)
            if not hit:
                val = d
        self.out('_Generic(%s, %s)' % (expr, ', '.join(items)), val, '%s: type %s among %s' % (label, t.key(), [m.key() for m, _ in types]))
        self.ops.add(('generic', shape(t), hit))

    def t_generic(self):
        r = self.r
        t = P(self.any(r.choice([1, 2, 3, 4]), void=True))
        s = self.spell(t)
        self.select('(%s)0' % s, t, 'cast')
        if t.to.k != 'f' and t.to.key().replace('const ', '') != 'void':
            self.out('(char *)((%s)64 + 3) - (char *)64' % s, 3 * t.to.size(), 'step of ' + t.key())
            self.out('sizeof(*(%s)0)' % s, t.to.size(), 'size of target of ' + t.key())

    def t_sizeof(self):
        r = self.r
        t = self.any(r.choice([1, 2, 3, 4, 5]), fn=False)
        if t.key().replace('const ', '') == 'void':
            return
        self.out(r.choice(['sizeof(%s)', '_Alignof(char[1]) * sizeof(%s)', 'sizeof(%s[1])', 'sizeof(struct { %s m; })'][:1]) % self.spell(t), t.size(), 'size of ' + t.key())
        n = self.fresh('z')
        self.glob.append('static struct { char c; %s; } %s;' % (self.spell(t, 'm'), n))
        self.out('sizeof(%s.m)' % n, t.size(), 'size of member ' + t.key())
        self.select('&%s.m' % n, P(t), 'member')
        self.ops.add(('sizeof', shape(t)))

    # ------------------------------------------------ objects reached through declarators
    def make(self, t, depth=0):
        """Defines an object or function of type t; -> (name, model) with model what can be read from it."""
        r = self.r
        n = self.fresh('o')
        if t.k == 'f':
            rn, m = self.make_value(t.ret, depth + 1)
            st = r.choice(['', 'static '])
            if r.random() < .3:
                self.glob.append('%s%s;' % (st, self.spell(t, n)))
            self.glob.append('%s%s { return %s; }' % (st, self.spell(t, n, names=True), rn))
            return n, ('f', t, m)
        init, m = self.init(t, depth)
        st = r.choice(['', 'static '])
        if st == '' and r.random() < .2:
            self.glob.append('extern %s;' % self.spell(t, n))
        self.glob.append('%s%s = %s;' % (st, self.spell(t, n), init))
        return n, m

    def make_value(self, t, depth):
        """A constant expression of type t (not an array)."""
        r = self.r
        if t.k == 'b' and t.rec:
            n, m = self.make(B(t.name, False, t._size, True), depth + 1)
            return n, m
        i, m = self.init(t, depth)
        return i, m

    def init(self, t, depth):
        r = self.r
        if t.k == 'b':
            if t.rec:
                v = r.randrange(1, 128)
                return ('{{%d}}' if t.name.startswith('struct') else '{%d}') % v, ('rec', t, v)
            v = r.randrange(2) if t.name == '_Bool' else r.randrange(1, 128)
            return str(v), ('b', t, v)
        if t.k == 'a':
            el = [self.init(t.el, depth + 1) for _ in range(t.n)]
            return '{%s}' % ', '.join(e for e, _ in el), ('a', t, [m for _, m in el])
        # a pointer: to one object, or to the first of some
        if t.to.key().replace('const ', '') == 'void':
            return '0', ('null', t, None)
        if t.to.k == 'f':
            n, m = self.make(t.to, depth + 1)
            return r.choice(['', '&']) + n, ('p', t, [m])
        if depth > 5 or r.random() < .1:
            return '0', ('null', t, None)
        if r.random() < .3:
            k = r.randrange(2, 4)
            n, m = self.make(A(t.to, k), depth + 1)
            return n, ('p', t, m[2])
        n, m = self.make(t.to, depth + 1)
        return '&' + n, ('p', t, [m])

    def t_object(self):
        r = self.r
        t = self.any(r.choice([2, 3, 4, 5]), fn=True, rec=True)
        if t.key().replace('const ', '') == 'void':
            return
        n, m = self.make(t)
        where = self.body
        self.ops.add(('object', shape(t)))
        for _ in range(r.choice([1, 2, 3])):
            e, mm = n, m
            lv = True
            for step in range(12):
                k, ty = mm[0], mm[1]
                if r.random() < .35:
                    if k != 'f':
                        self.out('sizeof(%s)' % e, ty.size(), 'size of %s : %s' % (e, ty.key()))
                    if k == 'f':
                        self.select(r.choice(['%s', '&%s']) % e, P(ty), e)
                    elif lv:
                        self.select('&' + e, P(ty), '&' + e)
                    elif k != 'rec' :
                        self.select(e, ty.bare(), e)
                    if lv and k in 'ap' and r.random() < .5 and ty.k in 'ap':
                        self.select(e, P(ty.el) if ty.k == 'a' else ty.bare(), e)
                    if lv and r.random() < .3 and k != 'f':
                        w = self.fresh('w')
                        self.body.append('{ %s(%s) *%s = &%s;' % (r.choice(['typeof', '__typeof__']), e, w, e))
                        self.select(w, P(ty), 'typeof ' + e)
                        self.out('sizeof(*%s)' % w, ty.size(), 'size of typeof ' + e)
                        self.body.append('}')
                if k == 'b':
                    self.out(e, mm[2], 'value of ' + e)
                    break
                if k == 'rec':
                    if r.random() < .5 and lv:
                        e = '(&%s)->c[0]' % e
                    else:
                        e = '(%s).c[0]' % e
                    self.out(e, mm[2], 'value of ' + e)
                    break
                if k == 'null':
                    self.out('%s == 0' % e, 1, 'null ' + e)
                    break
                if k == 'a':
                    i = r.randrange(len(mm[2]))
                    e = r.choice(['(%s)[%d]' % (e, i), '%d[%s]' % (i, e), '*(%s + %d)' % (e, i), '(*&%s)[%d]' % (e, i) if lv else '(%s)[%d]' % (e, i)])
                    e = '(%s)' % e
                    mm = mm[2][i]
                    lv = True
                elif k == 'p':
                    if ty.to.k == 'f':
                        e = r.choice(['(*%s)', '(%s)', '(**%s)']) % e
                        mm = mm[2][0]
                        # (%s) is a pointer still: only a call is left
                        f = mm[1]
                        e = '%s(%s)' % (e, ', '.join(self.arg(p) for p in f.params))
                        mm = mm[2]
                        lv = False
                    else:
                        i = r.randrange(len(mm[2]))
                        e = r.choice(['(*(%s + %d))', '(%s)[%d]']) % (e, i) if i or r.random() < .5 else '(*%s)' % e
                        mm = mm[2][i]
                        lv = True
                elif k == 'f':
                    e = '%s(%s)' % (r.choice([e, '(%s)' % e, '(*%s)' % e, '(&%s)' % e]), ', '.join(self.arg(p) for p in ty.params))
                    mm = mm[2]
                    lv = False

    def arg(self, p):
        if p.k == 'p':
            return '0'
        if p.rec:
            n = self.fresh('ra')
            self.glob.append('static %s %s;' % (p.name, n))
            return n
        return str(self.r.randrange(2))

    # ------------------------------------------------ types of expressions
    def promote(self, b):
        return b if b in ('float', 'double') or RANK[b] >= 3 else 'int'

    def usual(self, a, b):
        if 'double' in (a, b):
            return 'double'
        if 'float' in (a, b):
            return 'float'
        a, b = self.promote(a), self.promote(b)
        if a == b:
            return a
        ua, ub = 'unsigned' in a, 'unsigned' in b
        if ua == ub:
            return a if RANK[a] > RANK[b] else b
        u, s = (a, b) if ua else (b, a)
        if RANK[u] >= RANK[s]:
            return u
        if SIZE[s] > SIZE[u]:
            return s
        return 'unsigned ' + s

    def operand(self, b):
        """An expression of arithmetic type b."""
        r = self.r
        x = b.replace(' ', '_')
        c = ['v_' + x, 'c_' + x, 'f_%s()' % x, 'sm.m_' + x, 'psm->m_' + x, 'csm.m_' + x, 'pcsm->m_' + x, '(%s)1' % self.spell(B(b)), '(*&v_%s)' % x, '(&v_%s)[0]' % x,
             '((%s){1})' % b, '(v_%s = 1)' % x, '(0, v_%s)' % x]
        lit = {'int': ['1', "'a'", 'K1', '077', '0x7f', '2147483647', '(1 == 1)', '!v_double', '(v_long < 1)', '(v_char && 1)'], 'unsigned int': ['1u', '0xffffffff', '037777777777'], 'long': ['1l', '2147483648', '4294967296', '(psm - psm)'],
               'unsigned long': ['1ul', '0xffffffffffffffff', 'sizeof(int)', 'sizeof v_char'], 'long long': ['1ll'], 'unsigned long long': ['1ull', '1LLU'], 'float': ['1.0f', '1e1F'], 'double': ['1.0', '.5', '1e3', '0x1p3']}
        return r.choice(c + lit.get(b, []))

    def t_expr(self):
        r = self.r
        a, b = r.choice(list(SIZE)), r.choice(list(SIZE))
        if r.random() < .4:
            a, b = r.choice(INTEGER), r.choice(INTEGER)
        ea, eb = self.operand(a), self.operand(b)
        isint = a in RANK and b in RANK
        k = r.randrange(14)
        if k < 4:
            op = r.choice(['+', '-', '*', '/'])
            e, t = '%s %s %s' % (ea, op, eb), self.usual(a, b)
        elif k < 5 and isint:
            op = r.choice(['%', '&', '|', '^'])
            e, t = '%s %s %s' % (ea, op, eb), self.usual(a, b)
        elif k < 6 and isint:
            op = r.choice(['<<', '>>'])
            e, t = '%s %s %s' % (ea, op, eb), self.promote(a)
        elif k < 7:
            op = r.choice(['<', '>', '<=', '>=', '==', '!=', '&&', '||'])
            e, t = '%s %s %s' % (ea, op, eb), 'int'
        elif k < 9:
            op = r.choice(['-', '+', '!'] + (['~'] if a in RANK else []))
            e, t = '%s%s' % (op + ' ', ea), 'int' if op == '!' else self.promote(a)
        elif k < 11:
            e, t = '%s ? %s : %s' % (r.choice(['1', '0', 'v_int', 'c_char']), ea, eb), self.usual(a, b)
        elif k < 12:
            e, t = '%s, %s' % (eb, ea), a
            e = '(%s)' % e
        elif k < 13:
            x = a.replace(' ', '_')
            op = r.choice(['=', '+=', '-=', '*=', '++', '--', 'p++', 'p--'])
            if op.startswith('p'):
                e, t = 'v_%s%s' % (x, op[1:]), a
            elif op in ('++', '--'):
                e, t = '%sv_%s' % (op, x), a
            else:
                e, t = 'v_%s %s %s' % (x, op, eb), a
            if a == '_Bool' and '--' in op:
                return
        else:
            e, t = ea, a
        self.ops.add(('expr', k, t, a, b) if k < 12 else ('expr', k, t))
        tt = B(t)
        if r.random() < .5:
            # all the arithmetic types at once
            ts = list(SIZE)
            r.shuffle(ts)
            vals = {x: i + 1 for i, x in enumerate(ts)}
            self.out('_Generic(%s, %s)' % (e, ', '.join('%s: %d' % (r.choice(SPELL[x]), vals[x]) for x in ts)), vals[t], 'type of %s is %s' % (e, t))
        else:
            self.select(e, tt, e)
        self.out('sizeof(%s)' % e, SIZE[t], 'size of ' + e)

    def t_ptrexpr(self):
        """Pointers, arrays and functions in expressions."""
        r = self.r
        t = self.any(r.choice([0, 1, 2, 3]), fn=False)
        if t.key().replace('const ', '') == 'void':
            return
        n, a = self.fresh('x'), self.fresh('y')
        self.glob.append('extern %s, %s; static %s;' % (self.spell(P(t), n + 'e', td=0), '*' + n + 'f' if False else self.spell(P(t), n + 'g', td=0).split(' ', 1)[0] + ' ' + n + 'h' if False else '*%si' % n, self.spell(P(t), n)) if False else 'static %s;' % self.spell(P(t), n))
        self.glob.append('static %s;' % self.spell(A(P(t), 2), a))
        p = P(t)
        forms = [(n, p), ('&%s' % n, P(p)), ('%s + 1' % n, p), ('1 + %s' % n, p), ('%s - 1' % n, p), ('%s - %s' % (n, n), B('long')), ('&*%s' % n, p), ('&%s[0]' % n, p), ('*&%s' % n, p), ('%s++' % n, p), ('--%s' % n, p), ('%s += 2' % n, p),
                 ('%s = 0' % n, p), ('(%s)' % n, p), ('1 ? %s : 0' % n, p), ('0 ? 0 : %s' % n, p), ('1 ? %s : (void *)0' % n, p), ('%s, %s' % (n, n), p), (a, P(p)), ('&%s' % a, P(A(p, 2))), ('%s[0]' % a, p), ('*%s' % a, p), ('&%s[1]' % a, P(p)),
                 ('%s + 1' % a, P(p)), ('&%s + 1' % a, P(A(p, 2))), ('%s == 0' % n, B('int')), ('!%s' % n, B('int')), ('%s && 1' % n, B('int')), ('1 ? %s : %s' % (n, n), p), ('1 ? %s : %s' % (a, a), P(p)), ('*%s + 1' % a, p), ('(%s)%s' % (self.spell(p), n), p)]
        if t.k == 'a':
            forms += [('*%s' % n, P(t.el)), ('%s[0]' % n, P(t.el)), ('*%s + 1' % n, P(t.el)), ('&(*%s)[0]' % n, P(t.el)), ('**%s' % n, t.el.bare() if t.el.k != 'a' else P(t.el.el))]
        elif t.k == 'p' or not t.rec:
            forms += [('*%s' % n, t.bare()), ('%s[0]' % n, t.bare()), ('(*%s)' % n, t.bare())]
        for _ in range(3):
            e, ty = r.choice(forms)
            if ty.k == 'b' and ty.rec:
                continue
            if ',' in e:
                e = '(%s)' % e
            self.select(e, ty, '%s with %s : %s' % (e, n, p.key()))
            if not (e == a or (e.startswith(('*', n + '[0]')) and t.k == 'a')):
                self.out('sizeof(%s)' % e, ty.size(), 'size of %s with %s' % (e, p.key()))
            self.ops.add(('ptrexpr', e.replace(n, 'x').replace(a, 'y')[:20]))

    def t_param(self):
        """Parameters of array and function type are pointers."""
        r = self.r
        n = self.fresh('fp')
        t = self.any(r.choice([1, 2, 3]), fn=False)
        if t.key().replace('const ', '') == 'void':
            return
        form = r.randrange(4)
        if form < 2:
            s = self.spell(A(t, r.randrange(1, 9)), 'a', td=.1)
            if form == 1 and t.k == 'b':
                s = '%s a[%s]' % (self.spec(t), r.choice(['', 'static 3', '3']))
            ty = P(t)
        elif form == 2:
            f = F(t.bare() if t.k != 'a' else B('int'), [B('int')])
            s = self.spell(f, 'a', td=.1)
            ty = P(f)
        else:
            s = self.spell(t, 'a', td=.1)
            ty = P(t.el) if t.k == 'a' else t
        self.ops.add(('param', form, shape(ty)))
        self.body.append('%s(0);' % n if not (ty.k == 'b' and ty.rec) else '%s(%s);' % (n, self.arg(ty)))
        mark = len(self.body)
        self.out('sizeof(a)', ty.size(), 'size of parameter ' + s)
        self.select('&a', P(ty), 'address of parameter ' + s)
        if ty.k == 'p':
            self.select('a', ty.bare(), 'parameter ' + s)
        inner = self.body[mark:]
        del self.body[mark:]
        self.glob.append('static void %s(%s) { %s }' % (n, s, ' '.join(inner)))
        if r.random() < .5:
            # the function's own type has the adjusted parameter
            self.select(n, P(F(V(), [ty.bare()])), 'function with parameter ' + s)


def shape(t):
    if t.k == 'b':
        return 'r' if t.rec else 'c' if t.q else 's'
    if t.k == 'p':
        return 'P' + shape(t.to)
    if t.k == 'a':
        return 'A' + shape(t.el)
    return 'F%d' % len(t.params) + shape(t.ret)
