"""C object types with the platform's layout, declarators, and initialisers whose meaning is known."""
import math
import struct as _struct
from .cexpr import T, convert, f32


class Ty:
    leaf = False


class Sc(Ty):
    """A scalar of arithmetic type."""
    leaf = True
    kind = 'sc'

    def __init__(self, t):
        self.t = t
        self.size = self.align = t.store

    def decl(self, n):
        return '%s %s' % (self.t.name, n)

    def key(self):
        return self.t.name


class Ptr(Ty):
    leaf = True
    kind = 'ptr'

    def __init__(self, to, size):
        self.to = to
        self.size = self.align = size

    def decl(self, n):
        if self.to.kind == 'arr':
            return self.to.decl('(*%s)' % n)
        return self.to.decl('*' + n)

    def key(self):
        return 'ptr(%s)' % self.to.key()


class Arr(Ty):
    kind = 'arr'

    def __init__(self, el, n):
        self.el, self.n = el, n
        self.size = el.size * (n or 0)
        self.align = el.align

    def decl(self, n):
        return self.el.decl('%s[%s]' % (n, self.n if self.n is not None else ''))

    def key(self):
        return 'arr(%s)' % self.el.key()


class Rec(Ty):
    """members: list of (name or None for anonymous, Ty)."""
    kind = 'rec'

    def __init__(self, tag, union, members, anonymous=False):
        self.tag, self.union, self.members, self.anon = tag, union, members, anonymous
        off = al = 0
        end = 0
        self.offs = []
        for n, t in members:
            al = max(al, t.align)
            if union:
                self.offs.append(0)
                end = max(end, t.size)
            else:
                off = (off + t.align - 1) // t.align * t.align
                self.offs.append(off)
                off += t.size
                end = off
        self.align = max(al, 1)
        self.size = (end + self.align - 1) // self.align * self.align

    def kw(self):
        return 'union' if self.union else 'struct'

    def decl(self, n):
        if self.anon:
            return '%s %s' % (self.body(), n)
        return '%s %s %s' % (self.kw(), self.tag, n)

    def name(self):
        return '%s %s' % (self.kw(), self.tag)

    def body(self):
        return '%s%s { %s }' % (self.kw(), '' if self.anon else ' ' + self.tag,
                                ' '.join(t.decl(n or '').rstrip() + ';' for n, t in self.members))

    def key(self):
        return '%s%d' % (self.kw(), len(self.members))

    def named(self):
        """(name, offset, Ty) with the members of anonymous members as if they were one's own; only one arm of
        anonymous unions is offered by leaves(), all by named()."""
        out = []
        for (n, t), o in zip(self.members, self.offs):
            if n is None:
                out += [(m, o + oo, tt) for m, oo, tt in t.named()]
            else:
                out.append((n, o, t))
        return out


def has_union(t):
    if t.kind == 'arr':
        return has_union(t.el)
    if t.kind == 'rec':
        return t.union or any(has_union(m) for _, m in t.members)
    return False


def has_ptr(t):
    if t.kind == 'arr':
        return has_ptr(t.el)
    if t.kind == 'rec':
        return any(has_ptr(m) for _, m in t.members)
    return t.kind == 'ptr'


def leaves(t, path='', off=0):
    """Every leaf lvalue below (all arms of unions): (path, offset, Ty)."""
    if t.leaf:
        yield path, off, t
    elif t.kind == 'arr':
        for i in range(t.n or 0):
            yield from leaves(t.el, '%s[%d]' % (path, i), off + i * t.el.size)
    else:
        for n, o, m in t.named():
            yield from leaves(m, '%s.%s' % (path, n), off + o)


def pack(t, v):
    if t.flo:
        return _struct.pack('<f' if t.size == 4 else '<d', v)
    return (v & ((1 << t.bits) - 1)).to_bytes(t.store, 'little')


def unpack(t, b):
    if t.flo:
        return _struct.unpack('<f' if t.size == 4 else '<d', bytes(b))[0]
    return int.from_bytes(bytes(b), 'little', signed=t.signed)


class TypeGen:
    def __init__(self, rng, tg, floats=True, pointers=True, unions=True, anonymous=True, prefix='S'):
        self.r, self.tg = rng, tg
        self.floats, self.pointers, self.unions, self.anonymous, self.prefix = floats, pointers, unions, anonymous, prefix
        self.recs = []
        self.nm = 0

    def scalar(self):
        l = self.tg.ints + (self.tg.flos if self.floats else [])
        return Sc(self.r.choice(l))

    def any(self, depth=2, ptr=None, arr=True):
        r = self.r
        ptr = self.pointers if ptr is None else ptr
        k = r.random()
        if k < .45 or depth <= 0:
            return self.scalar()
        if k < .55 and ptr:
            return Ptr(self.pointee(), self.tg.long_size)
        if k < .75 and arr:
            el = self.any(depth - 1, ptr)
            n = r.choice([1, 2, 3, 4, 5, 7])
            if el.size * n > 200:
                n = 1
            return Arr(el, n)
        if self.recs and r.random() < .7:
            c = [x for x in self.recs if x.size <= 120 and (ptr or not has_ptr(x))]
            if c:
                return r.choice(c)
        return self.scalar()

    def pointee(self):
        r = self.r
        if self.recs and r.random() < .5:
            return r.choice(self.recs)
        return self.scalar()

    def mname(self):
        self.nm += 1
        return 'm%d' % self.nm

    def rec(self, union=None, anonymous=False, ptr=None, depth=2):
        r = self.r
        if union is None:
            union = self.unions and r.random() < .25
        ms = []
        for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 8]) if not anonymous else r.choice([1, 2, 3])):
            if self.anonymous and depth > 0 and r.random() < (.25 if anonymous else .1):
                ms.append((None, self.rec(union=r.random() < .5, anonymous=True, ptr=False, depth=depth - 1)))
            else:
                p = (self.pointers if ptr is None else ptr) and not union
                ms.append((self.mname(), self.any(depth, p)))
        if union:
            ms = [(n, t) for n, t in ms if not has_ptr(t)] or [(self.mname(), self.scalar())]
        tag = '%s%d' % (self.prefix, len(self.recs)) if not anonymous else None
        x = Rec(tag, union, ms, anonymous)
        if not anonymous:
            self.recs.append(x)
        return x


class InitGen:
    """Initialisers.  gen(ty) -> (text, stores) with stores = [(offset, leaf Ty, value)], all else zero.
    value for pointers: an opaque (text-bearing) object supplied by ptrval(ty)."""

    def __init__(self, rng, lit, val, ptrval, wide=False):
        self.r, self.lit, self.val, self.ptrval = rng, lit, val, ptrval
        self.ops = set()

    def leaf(self, t, off):
        if t.kind == 'ptr':
            text, v = self.ptrval(t)
            return text, [(off, t, v)]
        v = self.val(t.t)
        return self.lit(v, t.t), [(off, t, v)]

    def gen(self, t, off=0, top=True):
        r = self.r
        if t.leaf:
            s, st = self.leaf(t, off)
            if top and r.random() < .1:
                s = '{%s}' % s
                self.ops.add('braced scalar')
            return s, st
        if t.kind == 'arr':
            return self.array(t, off)
        return self.record(t, off)

    def flat(self, t, off):
        """All leaves positionally, without braces; None if that cannot be."""
        if t.leaf:
            s, st = self.leaf(t, off)
            return [s], st
        out, st = [], []
        if t.kind == 'arr':
            for i in range(t.n):
                s, x = self.flat(t.el, off + i * t.el.size)
                out += s
                st += x
        else:
            ms = list(zip(t.members, t.offs))
            if t.union:
                ms = ms[:1]
            for (n, m), o in ms:
                s, x = self.flat(m, off + o)
                out += s
                st += x
        return out, st

    def string(self, t, off):
        r = self.r
        n = t.n
        k = r.randrange(0, n + 1)
        if r.random() < .3:
            k = n              # no room for the terminator
        cs = [r.choice([0, 9, 10, 34, 39, 63, 92, 97, 98, 122, 48, 55, 127, 128, 200, 255]) if r.random() < .4 else r.randrange(32, 127)
              for _ in range(k)]
        self.ops.add('string %s' % ('full' if k == n else 'short'))
        text = cstr(cs, r)
        if r.random() < .2:
            text = '{%s}' % text
        st = []
        for i, c in enumerate(cs):
            v = c if not t.el.t.signed else (c - 256 if c > 127 else c)
            st.append((off + i, t.el, v))
        # the rest is zero
        for i in range(k, n):
            st.append((off + i, t.el, 0))
        return text, st

    def array(self, t, off):
        r = self.r
        if t.el.kind == 'sc' and t.el.t.size == 1 and t.el.t.name != '_Bool' and r.random() < .5:
            return self.string(t, off)
        items, st = [], []
        i = 0
        k = r.randrange(1, t.n + 1) if r.random() < .5 else t.n
        cnt = 0
        while cnt < k:
            cnt += 1
            if i >= t.n or r.random() < .2:
                i = r.randrange(t.n)
                d = '[%d] = ' % i
                self.ops.add('array designator')
                tt, o = t.el, off + i * t.el.size
                d, tt, o = self.deeper('[%d]' % i, tt, o)
                s, x = self.gen(tt, o, False)
                st = override(st, o, tt.size, x)
                items.append(d + ' = ' + s)
                if tt is not t.el:
                    i = t.n  # continue only with a designator
                    continue
            elif not t.el.leaf and r.random() < .25:
                s, x = self.flat(t.el, off + i * t.el.size)
                st = override(st, off + i * t.el.size, t.el.size, x)
                items.append(', '.join(s))
                self.ops.add('elided braces')
            else:
                s, x = self.gen(t.el, off + i * t.el.size, False)
                st = override(st, off + i * t.el.size, t.el.size, x)
                items.append(s)
            i += 1
        return self.brace(items), zero_fill(t, off, st)

    def deeper(self, d, t, o):
        """Extends a designator downwards sometimes."""
        r = self.r
        while not t.leaf and r.random() < .3:
            if t.kind == 'arr':
                i = r.randrange(t.n)
                d += '[%d]' % i
                t, o = t.el, o + i * t.el.size
            else:
                if t.union:
                    break
                c = [(n, oo, m) for (n, m), oo in zip(t.members, t.offs) if n is not None]
                if not c:
                    break
                n, oo, m = r.choice(c)
                d += '.' + n
                t, o = m, o + oo
            self.ops.add('nested designator')
        return d, t, o

    def brace(self, items):
        s = ', '.join(items)
        if self.r.random() < .2:
            s += ','
        return '{%s}' % s

    def record(self, t, off):
        r = self.r
        ms = [(n, m, off + o) for (n, m), o in zip(t.members, t.offs)]
        items, st = [], []
        if t.union:
            if r.random() < .5:
                n, m, o = ms[0]
                s, x = self.gen(m, o, False)
                items.append(s)
            else:
                c = [y for y in ms if y[0] is not None]
                if not c:
                    n, m, o = ms[0]
                    s, x = self.gen(m, o, False)
                    items.append(s)
                else:
                    n, m, o = r.choice(c)
                    s, x = self.gen(m, o, False)
                    items.append('.%s = %s' % (n, s))
                    self.ops.add('union designator')
            return self.brace(items), x + [('unionpad', off, m.size, t.size)]
        i = 0
        k = len(ms) if r.random() < .5 else r.randrange(1, len(ms) + 1)
        cnt = 0
        while cnt < k:
            cnt += 1
            named = [j for j, y in enumerate(ms) if y[0] is not None]
            if named and (i >= len(ms) or r.random() < .25):
                i = r.choice(named)
                n, m, o = ms[i]
                d, tt, oo = self.deeper('.' + n, m, o)
                s, x = self.gen(tt, oo, False)
                st = override(st, oo, tt.size, x)
                items.append('%s = %s' % (d, s))
                self.ops.add('member designator')
                i += 1
                if tt is not m:
                    i = len(ms)
                continue
            if i >= len(ms):
                break
            n, m, o = ms[i]
            if not m.leaf and r.random() < .2:
                s, x = self.flat(m, o)
                s = ', '.join(s)
                self.ops.add('elided braces')
            else:
                s, x = self.gen(m, o, False)
            st = override(st, o, m.size, x)
            items.append(s)
            i += 1
        if not items:
            n, m, o = ms[0]
            s, x = self.gen(m, o, False)
            items.append(s)
            st = x
        return self.brace(items), zero_fill(t, off, st)


def zero_fill(t, off, st):
    return st


def override(st, off, size, new):
    """Later initialisers of the same subobject replace earlier ones."""
    out = []
    for s in st:
        o = s[1] if s[0] == 'unionpad' else s[0]
        if off <= o < off + size:
            continue
        out.append(s)
    return out + new


def cstr(cs, r):
    """A C string literal for the byte values cs."""
    out = '"'
    esc = {10: '\\n', 9: '\\t', 34: '\\"', 92: '\\\\', 13: '\\r', 7: '\\a', 8: '\\b', 11: '\\v', 12: '\\f'}
    hexopen = False
    for i, c in enumerate(cs):
        if c in esc:
            out += esc[c]
            hexopen = False
        elif c == 63:
            out += '\\?'
            hexopen = False
        elif 32 <= c < 127:
            ch = chr(c)
            if hexopen and ch in '0123456789abcdefABCDEF':
                out += '" "'
            out += ch
            hexopen = False
        elif r.random() < .5:
            out += '\\x%x' % c
            hexopen = True
        else:
            nxt = cs[i + 1] if i + 1 < len(cs) else 0
            o = '\\%o' % c
            if 48 <= nxt < 58 and len(o) < 4:
                o = '\\%03o' % c
            out += o
            hexopen = False
    return out + '"'
