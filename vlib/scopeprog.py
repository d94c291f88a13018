"""Programs in which few names stand for many things; the model resolves every name by C's scope, linkage and
name-space rules and runs the program on its own entities."""
from .exprprog import PRELUDE

POOL = ['a', 'b', 'c', 'T', 'S', 'x', 'list', 'main_', 'y']
INTS = [('signed char', 1, 1), ('unsigned char', 1, 0), ('short', 2, 1), ('unsigned short', 2, 0), ('int', 4, 1), ('unsigned', 4, 0), ('long', 8, 1), ('unsigned long', 8, 0), ('long long', 8, 1)]


class Ent:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Scope:
    def __init__(self, parent, kind):
        self.parent, self.kind = parent, kind
        self.names, self.tags = {}, {}

    def find(self, n):
        s = self
        while s:
            if n in s.names:
                return s.names[n]
            s = s.parent
        return None

    def tag(self, n):
        s = self
        while s:
            if n in s.tags:
                return s.tags[n]
            s = s.parent
        return None

    def visible(self, *kinds):
        seen, out, s = set(), [], self
        while s:
            for n, e in s.names.items():
                if n not in seen:
                    seen.add(n)
                    if e.kind in kinds:
                        out.append((n, e))
            s = s.parent
        return out

    def vtags(self):
        seen, out, s = set(), [], self
        while s:
            for n, e in s.tags.items():
                if n not in seen:
                    seen.add(n)
                    out.append((n, e))
            s = s.parent
        return out


def wrap(v, size, signed):
    v &= (1 << size * 8) - 1
    return v - (1 << size * 8) if signed and v >> (size * 8 - 1) else v


class ScopeProg:
    def __init__(self, r, nfuncs=4, big=False):
        self.r = r
        self.pool = r.sample(POOL, r.choice([2, 3, 4, 5, 7]))
        self.big = big
        self.expected, self.labels, self.ops = [], [], set()
        self.file = Scope(None, 'file')
        self.out_text = []
        self.uid = 0
        self.funcs = []         # (name, nparams, action)
        self.two = r.random() < .35
        self.q = []             # text of the second file
        self.qcalls = []
        self.pending = []       # definitions still to be written: (text, )
        self.nfile = 0
        for _ in range(r.randrange(2, 8)):
            self.file_decl()
        for i in range(nfuncs):
            self.function(i)
            for _ in range(r.randrange(3)):
                self.file_decl()
            if self.pending and r.random() < .5:
                self.out_text.append(self.pending.pop())
        self.out_text += self.pending
        calls, acts = [], []
        for _ in range(r.randrange(1, 3) + len(self.funcs)):
            nm, pts, act = r.choice(self.funcs)
            args = [r.randrange(64) for _ in pts]
            calls.append('out((u64)%s(%s));' % (nm, ', '.join(map(str, args))))
            acts.append((nm, act, args))
        for t, a in self.qcalls:
            k = r.randrange(len(calls) + 1)
            calls.insert(k, t)
            acts.insert(k, (None, a, None))
        for nm, act, args in acts:
            if nm:
                self.emit(act(args), 'result of ' + nm)
            else:
                act()
        self.source = PRELUDE + '\n'.join(self.out_text) + '\nint main(void) {\n  ' + '\n  '.join(calls) + '\n  flush(); return 0; }\n'
        if len(self.expected) > 20000:
            self.expected = None
        self.files = {}
        if self.two:
            self.files['q.c'] = '\n'.join(self.q) + '\n'

    def emit(self, v, label):
        self.expected.append('%016x' % (v & (1 << 64) - 1))
        self.labels.append(label)

    def fresh(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    # ---------------------------------------------------------- types
    def itype(self, sc):
        """-> (spelling, size, signed)"""
        r = self.r
        tds = [(n, e) for n, e in sc.visible('typedef') if e.int]
        if tds and r.random() < .5:
            n, e = r.choice(tds)
            self.ops.add(('use', 'typedef', e.where, sc.kind))
            return n, e.size, e.signed
        if r.random() < .08:
            n, e = self.pick(sc, 'var')
            if n and not getattr(e, 'const', False):
                self.ops.add(('typeof', e.storage))
                return r.choice(['typeof', '__typeof__']) + '(%s)' % n, e.size, e.signed
        return r.choice(INTS)

    def pick(self, sc, *kinds):
        v = sc.visible(*kinds)
        return self.r.choice(v) if v else (None, None)

    # ---------------------------------------------------------- expressions: value kept in 0..63
    def atom(self, sc, const=False):
        """-> text, thunk"""
        r = self.r
        k = r.random()
        if not const and k < .45:
            n, e = self.pick(sc, 'var')
            if n:
                self.ops.add(('read', e.storage, e.where, sc.kind))
                return n, lambda e=e: e.v
        if k < .6:
            n, e = self.pick(sc, 'enum')
            if n:
                self.ops.add(('read', 'enum', e.where, sc.kind))
                return n, lambda e=e: e.v
        if k < .72:
            n, e = self.pick(sc, 'typedef')
            if n and e.size:
                self.ops.add(('sizeof', 'typedef', e.where))
                return 'sizeof(%s)' % n, lambda e=e: e.size
        if k < .8:
            n, e = self.pick(sc, 'var')
            if n:
                self.ops.add(('sizeof', 'var', e.storage))
                return r.choice(['sizeof(%s)', 'sizeof %s', 'sizeof(%s)']) % n, lambda e=e: e.size
        if k < .92:
            t = [(n, e) for n, e in sc.vtags() if e.size]
            if t:
                n, e = r.choice(t)
                self.ops.add(('sizeof', e.kw, e.where))
                return 'sizeof(%s %s)' % (e.kw, n), lambda e=e: e.size
        c = r.randrange(64)
        return str(c), lambda: c

    def expr(self, sc, const=False, depth=0):
        """An int expression of value 0..63."""
        r = self.r
        a, fa = self.atom(sc, const)
        if r.random() < .5:
            b, fb = self.atom(sc, const)
            op, f = r.choice([('+', lambda x, y: x + y), ('^', lambda x, y: x ^ y), ('*', lambda x, y: x * y), ('-', lambda x, y: x - y), ('|', lambda x, y: x | y)])
            return '((int)(%s %s %s) & 63)' % (a, op, b), lambda: f(fa(), fb()) & 63
        return '((int)%s & 63)' % a, lambda: fa() & 63

    # ---------------------------------------------------------- declarations
    def free(self, sc):
        c = [n for n in self.pool if n not in sc.names]
        return self.r.choice(c) if c else None

    def declare(self, sc):
        """A declaration in block scope: (text, action)."""
        r = self.r
        k = r.randrange(22)
        n = self.free(sc)
        if k < 6 and n:                                     # automatic
            t, size, sg = self.itype(sc)
            self.ops.add(('decl', 'auto', n in [x for x, _ in sc.visible('var')], n in [x for x, _ in sc.visible('typedef')], n == t))
            e = Ent('var', size=size, signed=sg, storage='auto', where=sc.kind, v=0)
            form = r.randrange(6)
            if form == 0:                                   # the scope starts before the initialiser
                sc.names[n] = e
                tx, f = 'sizeof(%s)' % n, lambda: e.size
            elif form == 1 and self.free(sc):
                sc.names[n] = Ent('none')
                tx, f = self.expr(sc)
                sc.names[n] = e
                m = self.free(sc)
                if m and m != n:
                    e2 = Ent('var', size=size, signed=sg, storage='auto', where=sc.kind, v=0)
                    sc.names[m] = Ent('none')
                    t2, f2 = self.expr(sc)
                    sc.names[m] = e2
                    # a list of declarators: each sees the ones before it

                    def act():
                        e.v = f()
                        e2.v = f2()
                    return '%s %s = %s, %s = %s;' % (t, n, tx, m, t2), act
            else:
                # the name itself must not be read
                old = sc.names.get(n)
                sc.names[n] = Ent('none')
                tx, f = self.expr(sc)
                sc.names[n] = e
            tq = r.choice(['', '', '', '', 'const ', 'register ', 'volatile ', 'auto '])
            e.const = tq == 'const '
            dn = n if r.random() < .8 else '(%s)' % n
            s = tq + '%s %s = %s;' % (t, dn, tx)
            if tq == 'register ':
                e.storage = 'register'

            def act():
                e.v = f()
            if form == 5 and tq in ('', 'auto '):
                return tq + '%s %s; %s = %s;' % (t, dn, n, tx), act
            return s, act
        if k < 9 and n:                                     # static
            t, size, sg = self.itype(sc)
            sc.names[n] = Ent('none')
            tx, f = self.expr(sc, const=True)
            e = Ent('var', size=size, signed=sg, storage='static', where=sc.kind, v=0)
            sc.names[n] = e
            self.ops.add(('decl', 'static', n == t))
            if r.random() < .2:
                return 'static %s %s;' % (t, n), None
            e.v = f()
            return r.choice(['static %s %s = %s;', 'static %s %s = %s;', '%s static %s = %s;']) % (t, n, tx), None
        if k < 12 and n:                                    # typedef
            t, size, sg = self.itype(sc)
            self.ops.add(('decl', 'typedef', sc.find(n).kind if sc.find(n) else None, n == t))
            form = r.randrange(5)
            if form == 0:
                c = r.randrange(1, 9)
                sc.names[n] = Ent('typedef', size=size * c, int=False, where=sc.kind)
                return 'typedef %s %s[%d];' % (t, n, c), None
            if form == 1:
                sc.names[n] = Ent('typedef', size=8, int=False, where=sc.kind)
                return 'typedef %s *%s;' % (t, n), None
            sc.names[n] = Ent('typedef', size=size, signed=sg, int=True, where=sc.kind)
            if r.random() < .15 and t != n:
                return 'typedef %s %s; typedef %s %s;' % (t, n, t, n) if not t.startswith(('typeof', '__t')) else 'typedef %s %s;' % (t, n), None
            return r.choice(['typedef %s %s;', 'typedef %s %s;', '%s typedef %s;']) % (t, n), None
        if k < 15 and n:                                    # enumeration
            return self.enum(sc)
        if k < 19:
            return self.record(sc)
        if k < 20 and n:                                    # extern: the file's object, behind whatever hides it
            g = [(m, e) for m, e in self.file.names.items() if m not in sc.names and e.kind == 'var' and e.stable and
                 (e.storage == 'external' or e.storage == 'internal' and sc.find(m) is e)]
            if g:
                m, e = r.choice(g)
                hid = sc.find(m) is not e
                sc.names[m] = e
                self.ops.add(('decl', 'extern', hid))
                return 'extern %s %s;' % (e.tname, m), None
        if k < 21 and n and self.funcs:
            nm, pts, _ = r.choice(self.funcs)
            self.ops.add(('decl', 'function'))
            return 'long long %s(%s);' % (nm, ', '.join('int ' + r.choice(['', p]) for p in r.sample(self.pool * 4, len(pts)))) if False else \
                r.choice(['', 'extern ']) + 'long long %s(%s);' % (nm, ', '.join(pts) or 'void'), None
        return None

    def enum(self, sc):
        r = self.r
        if not self.free(sc):
            return None
        tag = None
        if r.random() < .6:
            c = [t for t in self.pool if t not in sc.tags]
            if c:
                tag = r.choice(c)
                self.ops.add(('tag', 'enum', bool(sc.tag(tag))))
                # the tag hides another at once, but the type is not complete before the brace
                sc.tags[tag] = te = Ent('tag', kw='enum', size=None, members=None, where=sc.kind)
        items, v = [], 0
        for _ in range(r.randrange(1, 4)):
            n = self.free(sc)
            if not n:
                break
            tx = ''
            if r.random() < .6:
                # the old meaning of the name is in force until the enumerator is complete
                tx, f = self.expr(sc, const=True)
                v = f()
            self.ops.add(('decl', 'enum', sc.find(n).kind if sc.find(n) else None))
            sc.names[n] = Ent('enum', v=v, where=sc.kind)
            items.append(n + (' = ' + tx if tx else ''))
            v += 1
        if tag:
            te.size = 4
        return 'enum %s{ %s%s };' % (tag + ' ' if tag else '', ', '.join(items), r.choice(['', ','])), None

    def record(self, sc):
        """A struct or union; its members live in a name space of their own."""
        r = self.r
        c = [t for t in self.pool if t not in sc.tags]
        if not c:
            return None
        tag = r.choice(c)
        kw = r.choice(['struct', 'struct', 'struct', 'union'])
        hidden = sc.tag(tag)
        e = Ent('tag', kw=kw, size=None, members={}, where=sc.kind)
        self.ops.add(('tag', kw, hidden.kw if hidden else None, sc.kind))
        pre = ''
        fwd = r.random() < .35
        ptr = None
        if fwd:
            sc.tags[tag] = e
            pre = '%s %s; ' % (kw, tag)
            if r.random() < .6:
                ptr = self.free(sc)
                if ptr:
                    pre += '%s%s %s *%s; ' % ('static ' if sc.kind == 'file' else '', kw, tag, ptr)
                    sc.names[ptr] = Ent('none')
        sc.tags[tag] = e
        mem, text, order = {}, [], []
        todo = r.sample(self.pool, r.randrange(1, len(self.pool) + 1))

        def members(depth):
            """Some of the names, a part of them inside structures without a name."""
            txt, lay = [], []
            for _ in range(r.randrange(1, 4)):
                if not todo:
                    break
                if depth < 3 and len(todo) > 1 and r.random() < .25:
                    kw2 = r.choice(['struct', 'struct', 'union'])
                    tx, ly = members(depth + 1)
                    if tx:
                        txt.append('%s { %s };' % (kw2, ' '.join(tx)))
                        lay.append((None, kw2, ly))
                        self.ops.add(('anonymous', kw2, depth))
                        continue
                m = todo.pop()
                t, size, sg = self.itype(sc)
                txt.append('%s %s;' % (t, m))
                mem[m] = (size, sg)
                lay.append((m, size, size))
            return txt, lay
        while todo:
            tx, ly = members(0)
            text += tx
            order += ly
        me = None
        if r.random() < .4:
            me = 'self%d' % len(mem)
            text.append('%s %s *%s;' % (kw, tag, me))
        pad = r.randrange(1, 60)
        text.append('char pad_[%d];' % pad)
        inner = ''
        if r.random() < .25:                                # an enumerator defined here belongs to the enclosing scope
            n = self.free(sc)
            if n:
                v = r.randrange(64)
                sc.names[n] = Ent('enum', v=v, where=sc.kind)
                text.append('enum { %s = %d } en_;' % (n, v))
                self.ops.add(('enum in record',))
                mem['en_'] = (4, 0)
        order += ([(me, 8, 8)] if me else []) + [('pad_', pad, 1)] + ([('en_', 4, 4)] if 'en_' in mem else [])
        where, alone = {}, set()

        def layout(kw, items):
            al, off, rel = 1, 0, []
            for m, z, a in items:
                sub = ()
                if m is None:
                    z, a, sub = layout(z, a)
                al = max(al, a)
                at = (off + a - 1) // a * a if kw == 'struct' else 0
                off = at + z if kw == 'struct' else max(off, z)
                rel += [(n, at + o) for n, o in sub] if m is None else [(m, at)]
                if kw == 'union':
                    alone.update([n for n, _ in sub] if m is None else [m])
            return (off + al - 1) // al * al, al, rel
        e.size, _, rel = layout(kw, order)
        where = dict(rel)
        mem.pop('en_', None)
        e.members = mem
        var = None
        if r.random() < .5:
            var = self.free(sc)
        st = 'static ' if sc.kind == 'file' else r.choice(['', '', 'static '])
        s = pre + (st if var else '') + '%s %s { %s }%s;' % (kw, tag, ' '.join(text), ' ' + var if var else '')
        if var:
            sc.names[var] = Ent('rec', tag=e, vals={}, where=sc.kind, me=me)
        if ptr:
            sc.names[ptr] = Ent('recptr', tag=e, where=sc.kind, to=None)
        if sc.kind == 'file' or not var:
            return s, None
        # use at once: members, whatever else is called the same
        rec = sc.names[var]
        use, acts = [], []
        for m in r.sample(list(mem), min(len(mem), r.choice([1, 2]))):
            if use and (m in alone or acts[0][0] in alone):
                break
            x, f = self.expr(sc)
            use.append('%s.%s = %s;' % (var, m, x))
            acts.append((m, f))
        if me and kw == 'struct':
            use.append('%s.%s = &%s;' % (var, me, var))
        if ptr:
            use.append('%s = &%s;' % (ptr, var))
        via = r.choice([var + '.', '(&%s)->' % var] + ([ptr + '->'] if ptr else []) + (['%s.%s->' % (var, me)] if me and kw == 'struct' else []))
        for m, _ in acts:
            use.append('out((u64)%s%s);' % (via, m))
        for m, _ in acts:
            use.append('out((u64)((char*)&%s%s - (char*)&%s));' % (via, m, var))
        use.append('out(sizeof(%s));' % r.choice([var, '*&' + var, '%s %s' % (kw, tag)] + (['*' + ptr] if ptr else []) + (['*%s.%s' % (var, me)] if me else [])))
        self.ops.add(('members', kw, via[-2:], fwd, bool(ptr), bool(me)))

        def act():
            vals = [f() for _, f in acts]
            for (m, _), v in zip(acts, vals):
                self.emit(v, 'member %s of %s %s' % (m, kw, tag))
            for m, _ in acts:
                self.emit(where[m], 'offset of %s in %s %s' % (m, kw, tag))
            self.emit(e.size, 'size of %s %s' % (kw, tag))
        # members are assigned in order; a member expression cannot read the record, so the values are those before
        return s + ' ' + ' '.join(use), act

    # ---------------------------------------------------------- file scope
    def file_decl(self):
        r = self.r
        sc = self.file
        k = r.randrange(12)
        n = self.free(sc)
        if not n:
            return
        if k < 6:
            t, size, sg = self.itype(sc)
            if t.startswith(('typeof', '__typeof')) and r.random() < .5:
                return
            ext = r.random() < .55
            q = '' if ext else 'static '
            sc.names[n] = Ent('none')
            tx, f = self.expr(sc, const=True)
            v = f()
            e = Ent('var', size=size, signed=sg, storage='external' if ext else 'internal', where='file', v=v, tname=[x for x in INTS if (x[1], x[2]) == (size, sg)][0][0])
            # where long and long long differ the spelling must be the same in every declaration
            tn = t if r.random() < .5 else t
            e.tname = '__typeof__(%s)' % n if False else tn
            sc.names[n] = e
            e.stable = t in [x[0] for x in INTS]
            if not e.stable:
                # later declarations in other scopes cannot repeat a typedef name that may be hidden: no extern then
                e.storage = 'external-hidden' if ext else 'internal'
            form = r.randrange(8)
            self.ops.add(('file', ext, form))
            d = '%s%s %s' % (q, t, n)
            if form < 3:
                self.out_text.append('%s = %s;' % (d, tx))
            elif form == 3 and ext:
                self.out_text.append('extern %s %s; %s = %s;' % (t, n, d, tx))
            elif form == 4 and not ext:
                self.out_text.append('%s; extern %s %s;' % (d, t, n))
                self.late('%s = %d;' % (d, v), e, t)
            elif form == 5:                                 # tentative, defined after its uses
                self.out_text.append('%s; %s;' % (d, d))
                self.late('%s = %d;' % (d, v), e, t)
            elif form == 6:
                self.out_text.append('%s = %s; %s;%s' % (d, tx, d, ' extern %s %s;' % (t, n) if e.stable else ''))
            else:                                           # tentative only: zero
                e.v = 0
                self.out_text.append('%s; %s;' % (d, d))
            if self.two and r.random() < .7:
                self.second(n, e)
            return
        if k < 8:
            t, size, sg = self.itype(sc)
            if t == n:
                return
            if r.random() < .2:
                c = r.randrange(1, 9)
                sc.names[n] = Ent('typedef', size=size * c, int=False, where='file')
                self.out_text.append('typedef %s %s[%d];' % (t, n, c))
            else:
                sc.names[n] = Ent('typedef', size=size, signed=sg, int=True, where='file')
                self.out_text.append('typedef %s %s;' % (t, n))
                if r.random() < .2:
                    self.out_text.append('typedef %s %s;' % (t, n))
        elif k < 10:
            d = self.enum(sc)
            if d:
                self.out_text.append(d[0])
        else:
            d = self.record(sc)
            if d:
                self.out_text.append(d[0])

    def late(self, text, e, t):
        """The definition with the initialiser comes later, at file scope, if the type name still means the same."""
        if e.stable or (self.file.find(t) and self.file.find(t).kind == 'typedef'):
            self.pending.append(text)
        else:
            self.out_text.append(text)

    def second(self, n, e):
        """The other file has a name of its own or shares this one."""
        r = self.r
        i = len(self.q)
        if e.storage == 'external':
            self.q.append(r.choice(['extern %s %s; long long qg%d(void) { return %s++; }', 'long long qg%d(void) { extern %s %s; return %s++; }'][:1]) % (e.tname, n, i, n) if r.random() < .5 else
                          'long long qg%d(void) { extern %s %s; return %s++; }' % (i, e.tname, n, n))

            def act():
                self.emit(e.v, 'object %s of the other file' % n)
                e.v = wrap(e.v + 1, e.size, e.signed)
            self.qcalls.append(('{ long long qg%d(void); out((u64)qg%d()); }' % (i, i), act))
            self.ops.add(('second', 'shared'))
        elif e.storage == 'internal':
            mine = Ent('var', v=r.randrange(64))
            kind = r.choice(['', 'static '])
            self.q.append('%sshort %s = %d; long long qg%d(void) { return %s++; }' % (kind, n, mine.v, i, n))

            def act():
                self.emit(mine.v, 'object %s of the other file, which is another' % n)
                mine.v += 1
            self.qcalls.append(('{ long long qg%d(void); out((u64)qg%d()); }' % (i, i), act))
            self.qcalls.append(('{ long long qg%d(void); out((u64)qg%d()); }' % (i, i), act))
            self.ops.add(('second', 'own', kind))

    # ---------------------------------------------------------- functions
    def function(self, i):
        r = self.r
        name = 'f%d' % i
        proto = Scope(self.file, 'param')
        params, pts = [], []
        for _ in range(r.randrange(4)):
            n = self.free(proto)
            if not n:
                break
            t, size, sg = self.itype(proto)
            # a prototype in another scope needs a type that means the same there
            base = [x for x in INTS if (x[1], x[2]) == (size, sg)][0][0] if t not in [x[0] for x in INTS] else t
            e = Ent('var', size=size, signed=sg, storage='param', where='param', v=0)
            if t.startswith(('typeof', '__typeof')):
                t = base
            proto.names[n] = e
            self.ops.add(('param', n == t))
            params.append((t, n, e))
            pts.append(t)
        stable = all(t in [x[0] for x in INTS] for t in pts)
        self.labels_used = set()
        self.nout = 0
        self.depth = 0
        self.loops = 1
        body = Scope(proto, 'fn')
        # the outermost block is the scope of the parameters
        body.names = proto.names
        self.labelc = 0
        text, act = self.block(body, r.randrange(3, 9), 0)
        if self.r.random() < .5:
            e, f = self.expr(body)
        else:
            e, f = '7', lambda: 7
        st = r.choice(['', '', 'static ', 'static inline '])
        head = '%slong long %s(%s)' % (st, name, ', '.join('%s %s' % (t, n) for t, n, _ in params) or 'void')

        def run(args):
            for (t, n, en), a in zip(params, args):
                en.v = a
            act()
            return f()
        pre = ''
        if r.random() < .3 and stable:
            names = r.sample(self.pool, min(len(pts), len(self.pool)))
            pre = '%slong long %s(%s);\n' % (st, name, ', '.join('%s %s' % (t, r.choice(['', names[j % len(names)]])) if len(set(names)) >= len(pts) else t for j, t in enumerate(pts)) or 'void')
        # names of the prototype's parameters are visible after it; its own ones may be hidden: names must not be typedefs used later
        if pre and any(n in pre.split('(', 1)[1].replace(',', ' ').replace(')', ' ').split() and self.file.find(n) and self.file.find(n).kind == 'typedef' for n in self.pool):
            pre = ''
        self.out_text.append(pre + head + ' {\n' + text + '  return %s;\n}' % e)
        if stable:
            self.funcs.append((name, pts, run))
        else:
            self.funcs.append((name, pts, run))
            # never redeclared in a block
            self.funcs[-1] = (name, pts, run)
        self.stable = getattr(self, 'stable', {})
        self.stable[name] = stable

    def block(self, sc, n, depth):
        r = self.r
        texts, acts = [], []
        for _ in range(n):
            x = self.stmt(sc, depth)
            if x:
                texts.append('  ' * (depth + 1) + x[0] + '\n')
                if x[1]:
                    acts.append(x[1])

        def act():
            for a in acts:
                a()
        return ''.join(texts), act

    def stmt(self, sc, depth):
        r = self.r
        k = r.randrange(100)
        if k < 36:
            d = self.declare(sc)
            # a redeclared function must have stable parameter types
            if d and d[0].startswith(('long long f', 'extern long long f')):
                nm = d[0].split('long long ')[1].split('(')[0]
                if not self.stable.get(nm):
                    return None
            return d
        if k < 56:
            return self.use(sc)
        if k < 66:
            n, e = self.pick(sc, 'var')
            if n and not getattr(e, 'const', False):
                if r.random() < .4:
                    def act():
                        e.v = wrap(e.v + 1, e.size, e.signed) if e.v < 100 else 0
                    self.ops.add(('inc', e.storage, e.where))
                    return r.choice(['%s = %s < 100 ? %s + 1 : 0;' % (n, n, n), 'if (%s < 100) ++%s; else %s = 0;' % (n, n, n)]), act
                x, f = self.expr(sc)

                def act():
                    e.v = f()
                self.ops.add(('write', e.storage, e.where))
                return '%s = %s;' % (n, x), act
            return None
        if k < 90 and depth < (5 if self.big else 4):
            return self.nested(sc, depth)
        if k < 95:
            return self.label(sc, depth)
        if self.funcs and self.depth < 1 and self.loops < 5:
            c = [f for f in self.funcs if not sc.find(f[0])]
            nm, pts, run = r.choice(c)
            args = [self.expr(sc) for _ in pts]
            self.depth += 1

            def act():
                self.emit(run([f() for _, f in args]), 'call of ' + nm)
            return 'out((u64)%s(%s));' % (nm, ', '.join(a for a, _ in args)), act
        return None

    def use(self, sc):
        r = self.r
        n = r.choice(self.pool)
        e = sc.find(n)
        if e is None:
            return None
        k = r.randrange(8)
        lab = 'name %s (%s)' % (n, e.kind)
        if e.kind == 'none':
            return None
        if e.kind in ('rec', 'recptr'):
            size = e.tag.size if e.kind == 'rec' else 8
            if size is None:
                return None
            if k < 4 and e.kind == 'recptr':
                return 'out(sizeof(*%s));' % n, lambda: self.emit(e.tag.size, lab)
            return 'out(sizeof(%s));' % n, lambda: self.emit(size, lab)
        self.ops.add(('use', e.kind, k, e.where, sc.kind))
        if e.kind == 'typedef':
            if k < 3 or not e.int:
                if k == 0:
                    return 'out(sizeof(%s *));' % n, lambda: self.emit(8, lab)
                return 'out(sizeof(%s));' % n, lambda: self.emit(e.size, lab)
            if k < 5:       # a cast
                c = r.randrange(1, 300)
                return 'out((u64)(long long)((%s)-%d));' % (n, c), lambda: self.emit(self.promo(wrap(-c, e.size, e.signed), e), lab + ' as a cast')
            if k < 6:
                c = r.randrange(1, 70000)
                return 'out((u64)(long long)(%s)%d);' % (n, c), lambda: self.emit(wrap(c, e.size, e.signed), lab + ' as a cast')
            # a declaration that looks like an expression
            p = self.free(sc)
            if p and p != n:
                v = r.randrange(64)
                form = r.randrange(3)
                if form == 0:
                    sc.names[p] = x = Ent('var', size=e.size, signed=e.signed, storage='auto', where=sc.kind, v=0)
                    def act():
                        x.v = wrap(v, e.size, e.signed)
                        self.emit(x.v, lab + ' in a declaration')
                    return '%s(%s) = %d; out((u64)%s);' % (n, p, v, p), act
                sc.names[p] = Ent('none')
                q = self.fresh('q')
                if form == 1:
                    return '%s %s = %d; %s * %s = &%s; out((u64)*%s);' % (n, q, v, n, p, q, p), lambda: self.emit(v, lab + ' in a declaration')
                return '%s(%s)[%d]; out(sizeof(%s));' % (n, p, v + 1, p), lambda: self.emit((v + 1) * e.size, lab + ' in a declaration')
            return None
        # a value
        if k < 2:
            return 'out((u64)%s);' % n, lambda: self.emit(e.v, lab)
        if k < 4:
            c = r.randrange(1, 300)
            size, sg = (e.size, e.signed) if e.kind == 'var' else (4, 1)
            return 'out((u64)(long long)((%s)-%d));' % (n, c), lambda: self.emit(self.arith(e.v - c, size, sg), lab + ' in a subtraction')
        if k < 5 and e.kind == 'var':
            return 'out(sizeof(%s));' % n, lambda: self.emit(e.size, lab)
        if k < 6:
            m, e2 = self.pick(sc, 'var', 'enum')
            if m:
                return 'out((u64)((int)%s & 63) * ((int)%s & 63));' % (n, m), lambda: self.emit((e.v & 63) * (e2.v & 63), lab + ' in a product')
        if k < 7 and e.kind == 'var' and e.storage not in ('register',) and not getattr(e, 'const', False) :
            return '{ %s *p_ = %s&%s; out((u64)*p_); }' % ('__typeof__(%s)' % n, '', n), lambda: self.emit(e.v, lab + ' by address')
        x, f = self.expr(sc)
        return 'out(%s);' % x, lambda: self.emit(f(), 'expression ' + x)

    def promo(self, v, e):
        return v

    def arith(self, v, size, sg):
        if size < 4:
            return wrap(v, 4, 1)
        return wrap(v, size, sg)

    def nested(self, sc, depth):
        r = self.r
        k = r.randrange(12)
        pad = '  ' * (depth + 1)

        def blk(parent, n=None):
            s = Scope(parent, 'block')
            t, a = self.block(s, r.randrange(1, 5) if n is None else n, depth + 1)
            return '{\n' + t + pad + '}', a
        if k < 3:
            self.ops.add(('nest', 'block', depth))
            return blk(sc)
        if k < 5:
            x, f = self.expr(sc)
            t, a = blk(sc)
            t2, a2 = blk(sc)
            c = r.randrange(64)
            self.ops.add(('nest', 'if', depth))

            def act():
                (a if f() > c else a2)()
            return 'if (%s > %d) %s else %s' % (x, c, t, t2), act
        if k < 9 and self.loops < 8:
            s = Scope(sc, 'for')
            n = r.choice(self.pool)
            t, size, sg = self.itype(sc)
            cnt = r.randrange(1, 4)
            e = Ent('var', size=size, signed=sg, storage='for', where='for', v=0, const=True)
            s.names[n] = e
            self.loops *= cnt
            t1, a1 = blk(s)
            self.loops //= cnt
            self.ops.add(('nest', 'for', depth, n == t))
            form = r.randrange(3)
            if form == 0 and self.free(s) and not t.startswith(('typeof', '__typeof')):
                m = self.free(s)
                if m != n:
                    # both counters; the second is seen by the condition only
                    def act():
                        e.v = 0
                        while e.v < cnt:
                            a1()
                            e.v += 1
                    # m would hide what the body was built with: give it a name of its own
                    return 'for (%s %s = 0, z_ = %d; %s < z_; ++%s) %s' % (t, n, cnt, n, n, t1), act

            def act():
                e.v = 0
                while e.v < cnt:
                    a1()
                    e.v += 1
            return 'for (%s %s = 0; %s < %d; %s++) %s' % (t, n, n, cnt, n, t1), act
        if k < 10:
            t, a = blk(sc)
            self.ops.add(('nest', 'do', depth))
            return 'do %s while (0);' % t, a
        # switch
        x, f = self.expr(sc)
        s = Scope(sc, 'block')
        arms = []
        used = set()
        text = ''
        for _ in range(r.randrange(1, 4)):
            en = [(n, e) for n, e in s.visible('enum') if 0 <= e.v < 64 and e.v not in used]
            if en and r.random() < .7:
                n, e = r.choice(en)
                v, lab = e.v, n
                self.ops.add(('case', e.where))
            else:
                v = r.randrange(64)
                lab = str(v)
            if v in used:
                continue
            used.add(v)
            t, a = blk(s)
            text += pad + 'case %s: %s break;\n' % (lab, t)
            arms.append((v, a))
        t, a = blk(s)
        text += pad + 'default: %s\n' % t

        def act():
            v = f()
            for c, b in arms:
                if c == v:
                    return b()
            a()
        self.ops.add(('nest', 'switch', depth))
        return 'switch (%s) {\n%s%s}' % (x, text, pad), act

    def label(self, sc, depth):
        """Labels have a name space of their own and the scope of the function."""
        r = self.r
        c = [n for n in self.pool if n not in self.labels_used]
        if not c:
            return None
        n = r.choice(c)
        self.labels_used.add(n)
        v = r.getrandbits(20)
        e = sc.find(n)
        self.ops.add(('label', e.kind if e else None, depth))
        s = 'goto %s; out(1); { out(2); %s: out(%d); }' if r.random() < .5 else 'goto %s; out(1); %s: out(%d);'
        return s % (n, n, v), lambda: self.emit(v, 'after label ' + n)
