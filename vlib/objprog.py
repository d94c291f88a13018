"""Programs about objects: aggregates, pointers, copies, initialisers.  A byte-level model of memory is kept while
the program is generated, so the value of every lvalue read is known."""
from .cexpr import LP64, convert, Gen, bits_of
from .ctypes import Sc, Ptr, Arr, Rec, TypeGen, InitGen, leaves, pack, unpack, has_union, has_ptr, cstr
from .exprprog import PRELUDE
import math
import re

PRE = PRELUDE + r'''
#include <string.h>
#include <stdlib.h>
#include <stddef.h>
#include <alloca.h>
static void outf(float f) { unsigned u; memcpy(&u, &f, 4); out(u); }
static void outg(double d) { u64 u; memcpy(&u, &d, 8); out(u); }
int kk[8] = {0, 1, 2, 3, 4, 5, 6, 7};
int yes = 1, no;
'''


class Obj:
    def __init__(self, name, ty, where):
        self.name, self.ty, self.where = name, ty, where
        n = max(1, ty.size)
        self.b = bytearray(n)
        self.known = bytearray(n)       # 1 = defined data byte
        self.ptrs = {}                  # offset -> pointer value
        self.dead = False


class PV:
    """Pointer value: into obj at off, element idx of n elements of ty (n=1 for lone objects); obj None = null."""

    def __init__(self, obj, off, ty, idx=0, n=1):
        self.obj, self.off, self.ty, self.idx, self.n = obj, off, ty, idx, n

    def same(self, o):
        return self.obj is o.obj and self.off == o.off


NULL = PV(None, 0, None)


class LV:
    def __init__(self, s, obj, off, ty, arr=None):
        self.s, self.obj, self.off, self.ty = s, obj, off, ty
        self.arr = arr                  # (idx, n, text of array) when element of an array


class Scope:
    def __init__(self):
        self.objs, self.pvars = [], []


class ObjProg:
    def __init__(self, rng, tg=LP64, nfuncs=3, nstmts=25, floats=True, vla=True, alloca=True):
        self.r, self.tg, self.floats = rng, tg, floats
        self.vla, self.alloca = vla, alloca
        self.expected, self.labels, self.ops = [], [], set()
        self.nv = 0
        self.g = Gen(rng, tg, floats=floats)
        self.tgen = TypeGen(rng, tg, floats=floats)
        for _ in range(rng.randrange(2, 6)):
            self.tgen.rec()
        self.glob = []
        self.helpers = {}
        self.hlines = []
        self.scopes = [Scope()]
        self.gobjs()
        bodies, calls = [], []
        for i in range(nfuncs):
            b, c = self.function(i, nstmts)
            bodies.append(b)
            calls.append(c)
        self.final_dump(calls)
        recs = [x.body() + ';' for x in self.tgen.recs]
        self.source = (PRE + '\n'.join(recs) + '\n' + '\n'.join(self.glob) + '\n' + '\n'.join(self.hlines) + '\n' +
                       '\n'.join(bodies) + '\nint main(void) {\n  ' + '\n  '.join(calls) +
                       '\n  flush();\n  return 0;\n}\n')

    # ---- helpers
    def fresh(self, p):
        self.nv += 1
        return '%s%d' % (p, self.nv)

    def scval(self, t):
        return self.g.rand_val(t)

    def lit(self, v, t):
        return self.g.literal(v, t)

    def all_objs(self):
        return [o for s in self.scopes for o in s.objs]

    def all_pvars(self):
        return [p for s in self.scopes for p in s.pvars]

    # ---- model
    def store(self, obj, off, ty, v):
        """v: number for Sc, PV for Ptr."""
        if ty.kind == 'ptr':
            for o in [o for o in obj.ptrs if off - ty.size < o < off + ty.size]:
                del obj.ptrs[o]
            obj.ptrs[off] = v
            obj.known[off:off + ty.size] = bytes(ty.size)
            return
        for o in [o for o in obj.ptrs if off - self.tg.long_size < o < off + ty.size]:
            del obj.ptrs[o]
        obj.b[off:off + ty.size] = pack(ty.t, v)
        obj.known[off:off + ty.size] = b'\1' * ty.size

    def clear(self, obj, off, size, known=1):
        for o in [o for o in obj.ptrs if off <= o < off + size]:
            del obj.ptrs[o]
        obj.b[off:off + size] = bytes(size)
        obj.known[off:off + size] = bytes([known]) * size

    def zero(self, obj, off, ty):
        self.clear(obj, off, ty.size)
        for _, o, t in leaves(ty, '', off):
            if t.kind == 'ptr':
                self.store(obj, o, t, NULL)

    def blit(self, dst, doff, src, soff, size):
        ptrs = {o - soff + doff: v for o, v in src.ptrs.items() if soff <= o < soff + size}
        data, kn = bytes(src.b[soff:soff + size]), bytes(src.known[soff:soff + size])
        for o in [o for o in dst.ptrs if doff <= o < doff + size]:
            del dst.ptrs[o]
        dst.b[doff:doff + size] = data
        dst.known[doff:doff + size] = kn
        dst.ptrs.update(ptrs)

    def apply_init(self, obj, off, ty, stores):
        self.zero(obj, off, ty)
        for s in stores:
            if s[0] == 'unionpad':
                _, o, a, b = s
                obj.known[off + o + a:off + o + b] = bytes(b - a)
            else:
                self.store(obj, off + s[0], s[1], s[2])

    def read(self, lv):
        """Value of a leaf, or None when it is not known."""
        o, off, t = lv.obj, lv.off, lv.ty
        if t.kind == 'ptr':
            v = o.ptrs.get(off)
            if v is not None and v.obj is not None and v.obj.dead:
                return None
            return v
        if o.known[off:off + t.size] != b'\1' * t.size:
            return None
        if any(off - self.tg.long_size < p < off + t.size for p in o.ptrs):
            return None
        if t.t.name == '_Bool' and int.from_bytes(o.b[off:off + t.size], 'little') > 1:
            return None
        v = unpack(t.t, o.b[off:off + t.size])
        if t.t.flo and math.isnan(v):
            return None
        return v

    # ---- lvalues
    def index(self, i):
        r = self.r
        k = r.randrange(6)
        if k < 2 or i > 7:
            return str(i)
        if k == 2:
            return 'k%d' % i
        if k == 3:
            return 'kk[%d]' % i
        if k == 4:
            d = r.randrange(0, i + 1)
            return 'k%d + %d' % (i - d, d)
        d = r.randrange(0, 8 - i)
        return 'k%d - %d' % (i + d, d)

    def root(self):
        r = self.r
        ps = [(n, t, pv) for n, t, pv in self.all_pvars() if pv.obj is not None and not pv.obj.dead and pv.idx < pv.n]
        if ps and r.random() < .35:
            n, t, pv = r.choice(ps)
            return self.deref(n, t, pv)
        o = r.choice(self.all_objs())
        k = r.randrange(8)
        s = o.name
        if k == 0 and o.ty.kind == 'rec':
            s = '(&%s)[0]' % o.name
        elif k == 1 and o.ty.kind == 'rec':
            s = '(*(%s *)(void *)&%s)' % (o.ty.name(), o.name)
        elif k == 2 and o.ty.kind != 'arr':
            s = '(*&%s)' % o.name
        return LV(s, o, 0, o.ty)

    def deref(self, n, t, pv):
        """An lvalue through a pointer expression n with value pv."""
        r = self.r
        k = r.randrange(4)
        if k == 0 or pv.n == 1:
            return LV('(*%s)' % n if r.random() < .5 else '%s[0]' % n, pv.obj, pv.off, pv.ty, (pv.idx, pv.n, None))
        j = r.randrange(pv.n)
        d = j - pv.idx
        s = r.choice(['%s[%s]', '(*(%s + %s))'])
        if d >= 0:
            s = s % (n, self.index(d) if d < 8 else d)
        else:
            s = s % (n, '(%d)' % d if r.random() < .5 or d < -7 else '-k%d' % -d)
        return LV(s, pv.obj, pv.off + d * pv.ty.size, pv.ty, (j, pv.n, None))

    def down(self, lv):
        """One step into an aggregate."""
        r = self.r
        t = lv.ty
        if t.kind == 'arr':
            i = r.randrange(t.n)
            ix = self.index(i)
            k = r.randrange(6)
            if k == 0:
                s = '(*(%s + %s))' % (lv.s, ix)
            elif k == 1:
                s = '(%s)[%s]' % (ix, lv.s)
            else:
                s = '%s[%s]' % (lv.s, ix)
            self.ops.add('index')
            return LV(s, lv.obj, lv.off + i * t.el.size, t.el, (i, t.n, lv.s))
        n, o, m = r.choice(t.named())
        if r.random() < .15 and lv.s[0] != '(':
            s = '(&%s)->%s' % (lv.s, n)
        elif re.match(r'^\(\*\w+\)$', lv.s):
            s = '%s->%s' % (lv.s[2:-1], n)
        else:
            s = '%s.%s' % (lv.s, n)
        self.ops.add('member of ' + t.key())
        return LV(s, lv.obj, lv.off + o, m)

    def to_leaf(self, lv, want=None):
        for _ in range(12):
            if lv.ty.leaf:
                if lv.ty.kind == 'ptr' and self.r.random() < .5:
                    v = self.read(lv)
                    if v is not None and v.obj is not None and v.idx < v.n:
                        lv = self.deref('%s' % lv.s, lv.ty, v)
                        self.ops.add('through stored pointer')
                        continue
                return lv
            lv = self.down(lv)
        return None

    def some(self, pred, tries=25):
        """A random lvalue satisfying pred."""
        for _ in range(tries):
            lv = self.root()
            for _ in range(6):
                if pred(lv) and (lv.ty.leaf or self.r.random() < .6):
                    return lv
                if lv.ty.leaf:
                    if lv.ty.kind == 'ptr':
                        v = self.read(lv)
                        if v is not None and v.obj is not None and v.idx < v.n:
                            lv = self.deref(lv.s, lv.ty, v)
                            continue
                    break
                lv = self.down(lv)
        return None

    def some_of(self, ty, tries=40):
        return self.some(lambda l: self.same(l.ty, ty), tries)

    def same(self, a, b):
        if a is b:
            return True
        if a.kind != b.kind:
            return False
        if a.kind == 'sc':
            return a.t is b.t
        if a.kind == 'ptr':
            return self.same(a.to, b.to)
        if a.kind == 'arr':
            return a.n == b.n and self.same(a.el, b.el)
        return False

    # ---- pointers as values
    def ptrval(self, t, const=False):
        """An expression of pointer type t and its value."""
        r = self.r
        if r.random() < .15:
            return r.choice(['0', 'NULL', '(void *)0']), NULL
        if const:
            c = [o for o in self.scopes[0].objs]
            if not c:
                return '0', NULL
            lv = None
            for _ in range(20):
                o = r.choice(c)
                lv = LV(o.name, o, 0, o.ty)
                for _ in range(5):
                    if self.same(lv.ty, t.to):
                        break
                    if lv.ty.leaf:
                        lv = None
                        break
                    if lv.ty.kind == 'arr':
                        i = r.randrange(lv.ty.n)
                        lv = LV('%s[%d]' % (lv.s, i), lv.obj, lv.off + i * lv.ty.el.size, lv.ty.el, (i, lv.ty.n, lv.s))
                    else:
                        n, oo, m = r.choice(lv.ty.named())
                        lv = LV('%s.%s' % (lv.s, n), lv.obj, lv.off + oo, m)
                if lv is not None and self.same(lv.ty, t.to):
                    break
                lv = None
        else:
            if r.random() < .3:
                ps = [(n, pv) for n, tt, pv in self.all_pvars() if self.same(tt.to, t.to) and
                      (pv.obj is None or not pv.obj.dead)]
                if ps:
                    return r.choice(ps)
            lv = self.some_of(t.to, 12)
            if lv is not None and const is False and lv.obj.where == 'local' and False:
                lv = None
        if lv is None:
            return '0', NULL
        idx, n, base = lv.arr or (0, 1, None)
        pv = PV(lv.obj, lv.off, lv.ty, idx, n)
        if base is not None and r.random() < .5 and base[0] != '(':
            return '%s + %d' % (base, idx), pv
        if re.match(r'^\(\*\w+\)$', lv.s):
            return lv.s[2:-1] if r.random() < .5 else '&' + lv.s, pv
        return '&' + lv.s, pv

    # ---- observations
    def observe(self, lv, label=''):
        v = self.read(lv)
        if v is None:
            return None
        if lv.ty.kind == 'ptr':
            if v.obj is None:
                self.expected.append(bits_of(1, self.tg.INT))
                s = 'out(%s == 0);' % lv.s
            elif v.off % v.ty.size == 0 and v.obj.name and self.nameable(v.obj):
                self.expected.append(bits_of(v.off, self.tg.LLONG))
                s = 'out((u64)((char *)%s - (char *)&%s));' % (lv.s, v.obj.name)
            else:
                return None
        else:
            t = lv.ty.t
            if t.flo:
                self.expected.append('%016x' % int.from_bytes(pack(t, v), 'little'))
                s = '%s(%s);' % ('outf' if t.size == 4 else 'outg', lv.s)
            else:
                self.expected.append(bits_of(v, t))
                s = 'out((u64)%s);' % lv.s
        self.labels.append((label or 'read') + ' ' + lv.s)
        self.ops.add('read ' + lv.ty.key())
        return s

    def nameable(self, obj):
        return obj in self.all_objs() and obj.where != 'heap'

    def dump(self, obj, maxn=16):
        """Reads leaves of a whole object."""
        ls = list(leaves(obj.ty))
        if len(ls) > maxn:
            ls = self.r.sample(ls, maxn)
        out = []
        for p, o, t in ls:
            s = self.observe(LV(obj.name + p, obj, o, t), 'dump')
            if s:
                out.append(s)
        return out

    # ---- objects
    def newobj(self, where, ty=None):
        r = self.r
        if ty is None:
            k = r.random()
            if k < .5:
                ty = r.choice(self.tgen.recs)
            elif k < .8:
                el = r.choice(self.tgen.recs) if r.random() < .4 else self.tgen.scalar()
                n = r.choice([1, 2, 3, 5, 8])
                ty = Arr(el, n)
                if r.random() < .3 and ty.size <= 100:
                    ty = Arr(ty, r.choice([2, 3]))
                    if r.random() < .3 and ty.size <= 100:
                        ty = Arr(ty, 2)
            else:
                ty = self.tgen.scalar()
        o = Obj(self.fresh('o'), ty, where)
        return o

    def init(self, obj, const):
        ig = InitGen(self.r, self.lit, self.scval, lambda t: self.ptrval(t, const))
        s, st = ig.gen(obj.ty)
        self.apply_init(obj, 0, obj.ty, st)
        self.ops |= {'init ' + x for x in ig.ops} | {'init ' + obj.ty.key()}
        return s

    def gobjs(self):
        r = self.r
        for _ in range(r.randrange(3, 8)):
            o = self.newobj('global')
            if r.random() < .3:
                self.zero(o, 0, o.ty)
                self.glob.append('%s%s;' % (r.choice(['', 'static ']), o.ty.decl(o.name)))
            else:
                s = self.init(o, True)
                self.glob.append('%s%s = %s;' % (r.choice(['', 'static ']), o.ty.decl(o.name), s))
            self.scopes[0].objs.append(o)

    # ---- helper functions over a record type
    def helper(self, kind, ty):
        k = (kind, ty.tag)
        if k in self.helpers:
            return self.helpers[k]
        r = self.r
        T = ty.name()
        n = self.fresh('h')
        info = None
        ls = [(p, o, t) for p, o, t in leaves(ty) if t.kind == 'sc']
        if kind == 'mod':          # modifies its copy, returns it
            if not ls:
                p = None
                body = 'return a;'
            else:
                p = r.choice(ls)
                v = self.scval(p[2].t)
                body = 'a%s = %s; return a;' % (p[0], self.lit(v, p[2].t))
                p = (p, v)
            extra = r.choice([('', []), ('int x, ', ['3']), ('double d, int y, ', ['2.5', '-1']),
                              ('int a0, int a1, int a2, int a3, int a4, int a5, ', ['1', '2', '3', '4', '5', '6'])])
            tail = r.choice([('', []), (', long z', ['7L']), (', char c, float f', ["'x'", '1.5f'])])
            self.hlines.append('static %s %s(%s%s a%s) { %s }' % (T, n, extra[0], T, tail[0], body))
            info = (n, extra[1], tail[1], p)
        elif kind == 'set':        # *p = v
            self.hlines.append('static void %s(%s *p, %s v) { *p = v; }' % (n, T, T))
            info = (n,)
        elif kind == 'get':        # struct through pointer, returned
            self.hlines.append('static %s %s(const %s *p) { return *p; }' % (T, n, T))
            info = (n,)
        elif kind == 'swap':
            self.hlines.append('static void %s(%s *p, %s *q) { %s t = *p; *p = *q; *q = t; }' % (n, T, T, T))
            info = (n,)
        elif kind == 'pick':       # many structs by value
            self.hlines.append('static %s %s(int k, %s a, %s b, double d, %s c) { return k == 0 ? a : k == 1 ? b : c; }' % (
                T, n, T, T, T))
            info = (n,)
        elif kind == 'fp':
            m = self.helper('get', ty)[0]
            self.hlines.append('static %s (*%s[2])(const %s *) = {%s, %s};' % (T, n, T, m, m))
            info = (n,)
        self.helpers[k] = info
        return info

    # ---- statements
    def stmt(self, depth=0):
        r = self.r
        k = r.choice(['leaf', 'leaf', 'leaf', 'leafcopy', 'read', 'read', 'read', 'aggr', 'aggr', 'call', 'call', 'ptr', 'ptr',
                      'ptrarith', 'pdiff', 'complit', 'cond', 'block', 'arrfn', 'vla', 'member_of_call', 'memset', 'wrap',
                      'heap', 'decl', 'incr', 'sizeof'])
        f = getattr(self, 's_' + k)
        for _ in range(3):
            s = f(depth)
            if s:
                self.ops.add('stmt ' + k)
                return s
        return ''

    def s_sizeof(self, depth):
        lv = self.root()
        while not lv.ty.leaf and self.r.random() < .6:
            lv = self.down(lv)
        self.expected.append(bits_of(lv.ty.size, self.tg.LLONG))
        self.labels.append('sizeof ' + lv.s)
        return 'out(sizeof %s);' % lv.s if self.r.random() < .5 else 'out(sizeof(%s));' % lv.s

    def s_leaf(self, depth):
        lv = self.to_leaf(self.root())
        if lv is None:
            return ''
        if lv.ty.kind == 'ptr':
            s, v = self.ptrval(lv.ty)
            if v.obj is not None and v.obj.where != 'global' and lv.obj.where == 'global':
                return ''
            if not self.outlives(v, lv.obj):
                return ''
            self.store(lv.obj, lv.off, lv.ty, v)
            return '%s = %s;' % (lv.s, s)
        v = self.scval(lv.ty.t)
        self.store(lv.obj, lv.off, lv.ty, v)
        return '%s = %s;' % (lv.s, self.lit(v, lv.ty.t))

    def outlives(self, v, obj):
        """Keeps pointers in longer-lived objects from pointing to shorter-lived ones."""
        if v.obj is None:
            return True
        return self.level(v.obj) <= self.level(obj)

    def level(self, obj):
        for i, s in enumerate(self.scopes):
            if obj in s.objs:
                return i
        return 0 if obj.where == 'heap' else 99

    def s_leafcopy(self, depth):
        a, b = self.to_leaf(self.root()), self.to_leaf(self.root())
        if a is None or b is None or a.ty.kind != 'sc' or b.ty.kind != 'sc':
            return ''
        v = self.read(b)
        if v is None:
            return ''
        try:
            v = convert(v, b.ty.t, a.ty.t)
        except Exception:
            return ''
        self.store(a.obj, a.off, a.ty, v)
        return '%s = %s;' % (a.s, b.s)

    def s_incr(self, depth):
        a = self.to_leaf(self.root())
        if a is None or a.ty.kind != 'sc' or a.ty.t.flo or a.ty.t.name == '_Bool':
            return ''
        v = self.read(a)
        if v is None:
            return ''
        t = a.ty.t
        d = self.r.choice([1, -1])
        if t.signed and t.rank >= 3 and not t.fits(v + d):
            return ''
        n = convert(v + d, t, t)
        self.store(a.obj, a.off, a.ty, n)
        post = self.r.random() < .5
        self.expected.append(bits_of(v if post else n, t))
        self.labels.append('incr ' + a.s)
        op = '++' if d > 0 else '--'
        return 'out((u64)(%s));' % ((a.s + op) if post else (op + a.s))

    def s_read(self, depth):
        lv = self.to_leaf(self.root())
        if lv is None:
            return ''
        return self.observe(lv) or ''

    def aggr_pair(self):
        t = self.r.choice(self.tgen.recs)
        a, b = self.some_of(t), self.some_of(t)
        if a is None or b is None:
            return None
        # partial overlap cannot be: both are whole objects of type t
        if a.obj is b.obj and a.off != b.off and abs(a.off - b.off) < t.size:
            return None
        if not self.ptrs_ok(b, a):
            return None
        return t, a, b

    def ptrs_ok(self, src, dst):
        for o, v in src.obj.ptrs.items():
            if src.off <= o < src.off + src.ty.size and v.obj is not None and not self.outlives(v, dst.obj):
                return False
        return True

    def s_aggr(self, depth):
        p = self.aggr_pair()
        if not p:
            return ''
        t, a, b = p
        self.ops.add('assign ' + t.key())
        self.blit(a.obj, a.off, b.obj, b.off, t.size)
        if self.r.random() < .3:
            # the value of the assignment
            ls = [(x, o, tt) for x, o, tt in leaves(t) if tt.kind == 'sc']
            if ls:
                x, o, tt = self.r.choice(ls)
                v = self.read(LV('', a.obj, a.off + o, tt))
                if v is not None and not tt.t.flo:
                    self.expected.append(bits_of(v, tt.t))
                    self.labels.append('member of assignment')
                    return 'out((u64)(%s = %s)%s);' % (a.s, b.s, x)
        return '%s = %s;' % (a.s, b.s)

    def s_cond(self, depth):
        p = self.aggr_pair()
        if not p:
            return ''
        t, a, b = p
        c = self.some_of(t)
        if c is None or not self.ptrs_ok(c, a):
            return ''
        if c.obj is a.obj and c.off != a.off and abs(c.off - a.off) < t.size:
            return ''
        y = self.r.random() < .5
        src = b if y else c
        s = '%s = %s ? %s : %s;' % (a.s, 'yes' if y else 'no', b.s, c.s)
        self.blit(a.obj, a.off, src.obj, src.off, t.size)
        return s

    def s_call(self, depth):
        r = self.r
        p = self.aggr_pair()
        if not p:
            return ''
        t, a, b = p
        k = r.choice(['mod', 'mod', 'set', 'get', 'swap', 'pick', 'fp'])
        if k == 'mod':
            n, ex, tl, m = self.helper('mod', t)
            self.blit(a.obj, a.off, b.obj, b.off, t.size)
            if m is not None:
                (pp, o, tt), v = m
                self.store(a.obj, a.off + o, tt, v)
            return '%s = %s(%s);' % (a.s, n, ', '.join(ex + [b.s] + tl))
        if k == 'set':
            n, = self.helper('set', t)
            self.blit(a.obj, a.off, b.obj, b.off, t.size)
            return '%s(&%s, %s);' % (n, a.s, b.s)
        if k == 'get':
            n, = self.helper('get', t)
            self.blit(a.obj, a.off, b.obj, b.off, t.size)
            return '%s = %s(&%s);' % (a.s, n, b.s)
        if k == 'fp':
            n, = self.helper('fp', t)
            self.blit(a.obj, a.off, b.obj, b.off, t.size)
            return '%s = %s(&%s);' % (a.s, r.choice([n + '[k1]', '(*%s[1])' % n, '(*%s)' % n]), b.s)
        if k == 'swap':
            if not self.ptrs_ok(a, b) or (a.obj is b.obj and a.off == b.off):
                return ''
            n, = self.helper('swap', t)
            tmp = Obj('', t, 'tmp')
            self.blit(tmp, 0, a.obj, a.off, t.size)
            self.blit(a.obj, a.off, b.obj, b.off, t.size)
            self.blit(b.obj, b.off, tmp, 0, t.size)
            return '%s(&%s, &%s);' % (n, a.s, b.s)
        n, = self.helper('pick', t)
        c = self.some_of(t)
        if c is None or not self.ptrs_ok(c, a) or not self.ptrs_ok(b, a):
            return ''
        ch = r.randrange(3)
        args = [b, c, a]
        src = args[ch]
        s = '%s = %s(%d, %s, %s, 1.5, %s);' % (a.s, n, ch, b.s, c.s, a.s)
        self.blit(a.obj, a.off, src.obj, src.off, t.size)
        return s

    def s_member_of_call(self, depth):
        r = self.r
        t = r.choice(self.tgen.recs)
        b = self.some_of(t)
        if b is None:
            return ''
        ls = [(x, o, tt) for x, o, tt in leaves(t) if tt.kind == 'sc' and not tt.t.flo]
        if not ls:
            return ''
        x, o, tt = r.choice(ls)
        v = self.read(LV('', b.obj, b.off + o, tt))
        if v is None:
            return ''
        n, = self.helper('get', t)
        self.expected.append(bits_of(v, tt.t))
        self.labels.append('member of call result')
        return 'out((u64)%s(&%s)%s);' % (n, b.s, x)

    def s_ptr(self, depth):
        ps = self.all_pvars()
        if not ps:
            return ''
        i = self.r.randrange(len(ps))
        n, t, pv = ps[i]
        s, v = self.ptrval(t)
        if v.obj is not None and self.level(v.obj) > self.pvar_level(n):
            return ''
        self.set_pvar(n, v)
        return '%s = %s;' % (n, s)

    def pvar_level(self, n):
        for i, s in enumerate(self.scopes):
            if any(x[0] == n for x in s.pvars):
                return i

    def set_pvar(self, n, v):
        for s in self.scopes:
            for i, x in enumerate(s.pvars):
                if x[0] == n:
                    s.pvars[i] = (n, x[1], v)

    def s_ptrarith(self, depth):
        r = self.r
        ps = [p for p in self.all_pvars() if p[2].obj is not None and p[2].n > 1]
        if not ps:
            return ''
        n, t, pv = r.choice(ps)
        j = r.randrange(pv.n + 1) if r.random() < .3 else r.randrange(pv.n)
        d = j - pv.idx
        self.set_pvar(n, PV(pv.obj, pv.off + d * pv.ty.size, pv.ty, j, pv.n))
        if d == 1 and r.random() < .7:
            return r.choice(['%s++;', '++%s;', '%s += k1;']) % n
        if d == -1 and r.random() < .7:
            return r.choice(['%s--;', '--%s;', '%s -= k1;']) % n
        if d >= 0:
            return r.choice(['%s += %d;', '%s = %%s + %d;' % (n, d) if False else '%s += (char)%d;', '%s += %dL;']) % (n, d)
        return r.choice(['%s -= %d;', '%s -= (short)%d;']) % (n, -d)

    def s_pdiff(self, depth):
        r = self.r
        ps = [p for p in self.all_pvars() if p[2].obj is not None and p[2].ty is not None]
        if not ps:
            return ''
        n, t, pv = r.choice(ps)
        # compare with another pointer into the same array
        qs = [p for p in ps if p[2].obj is pv.obj and p[2].n == pv.n and p[2].ty is pv.ty and
              (p[2].off - p[2].idx * pv.ty.size) == (pv.off - pv.idx * pv.ty.size)]
        m, _, qv = r.choice(qs)
        d = pv.idx - qv.idx
        k = r.randrange(4)
        if k == 0:
            self.expected.append(bits_of(d, self.tg.LLONG))
            s = 'out((u64)(%s - %s));' % (n, m)
        elif k == 1:
            op = r.choice(['<', '<=', '>', '>=', '==', '!='])
            self.expected.append(bits_of(int(eval('%d %s 0' % (d, op))), self.tg.INT))
            s = 'out(%s %s %s);' % (n, op, m)
        elif k == 2:
            self.expected.append(bits_of(1, self.tg.INT))
            s = 'out(%s);' % r.choice(['!!%s', '%s != 0', '%s && 1', '%s ? 1 : 0']) % n
        else:
            self.expected.append(bits_of(pv.off - qv.off, self.tg.LLONG))
            s = 'out((u64)((char *)%s - (char *)%s));' % (n, m)
        self.labels.append('pointers %s %s' % (n, m))
        return s

    def s_complit(self, depth):
        r = self.r
        t = r.choice(self.tgen.recs)
        a = self.some_of(t)
        if a is None:
            return ''
        tmp = Obj('', t, 'tmp')
        ig = InitGen(r, self.lit, self.scval, self.ptrval)
        s, st = ig.gen(t)
        self.apply_init(tmp, 0, t, st)
        for o, v in tmp.ptrs.items():
            if v.obj is not None and not self.outlives(v, a.obj):
                return ''
        self.ops |= {'complit ' + x for x in ig.ops}
        self.blit(a.obj, a.off, tmp, 0, t.size)
        k = r.randrange(3)
        if k == 0:
            return '%s = *&(%s)%s;' % (a.s, t.name(), s)
        if k == 1:
            n, = self.helper('set', t)
            return '%s(&%s, (%s)%s);' % (n, a.s, t.name(), s)
        return '%s = (%s)%s;' % (a.s, t.name(), s)

    def s_memset(self, depth):
        lv = self.some(lambda l: not has_ptr(l.ty))
        if lv is None:
            return ''
        # whole bytes: only where every leaf tolerates it
        self.clear(lv.obj, lv.off, lv.ty.size)
        return 'memset(&%s, 0, sizeof(%s));' % (lv.s, lv.s)

    def s_wrap(self, depth):
        if depth > 2:
            return ''
        r = self.r
        body = '\n'.join(x for x in (self.stmt(depth + 1) for _ in range(r.randrange(1, 4))) if x)
        k = r.randrange(5)
        if k == 0:
            return 'if (yes) {\n%s\n}' % body
        if k == 1:
            return 'do {\n%s\n} while (no);' % body
        if k == 2:
            return 'for (int q = 0; q < yes; ++q) {\n%s\n}' % body
        if k == 3:
            return 'if (no) { out(12345); } else {\n%s\n}' % body
        return 'switch (k%d) { case %d:\n%s\nbreak; default: out(54321); }' % ((n := r.randrange(8)), n, '{%s}' % body)

    def declare(self, static_ok=True):
        """Declares a local object or pointer in the innermost scope; returns its text."""
        r = self.r
        if r.random() < .35:
            to = self.tgen.pointee()
            t = Ptr(to, self.tg.long_size)
            s, v = self.ptrval(t)
            n = self.fresh('p')
            self.scopes[-1].pvars.append((n, t, v))
            return '%s%s = %s;' % (r.choice(['', '', 'register ']), t.decl(n), s)
        o = self.newobj('local')
        if static_ok and r.random() < .12:
            s = self.init(o, True)
            self.scopes[-1].objs.append(o)
            return 'static %s = %s;' % (o.ty.decl(o.name), s)
        k = r.random()
        if k < .7:
            s = self.init(o, False)
            self.scopes[-1].objs.append(o)
            return '%s = %s;' % (o.ty.decl(o.name), s)
        if k < .8 and o.ty.kind == 'arr' and o.ty.el.kind == 'sc' and o.ty.n > 0:
            # unsized
            t = o.ty
            k = t.n
            ig = InitGen(r, self.lit, self.scval, self.ptrval)
            items = [self.scval(t.el.t) for _ in range(k)]
            for i, v in enumerate(items):
                self.store(o, i * t.el.size, t.el, v)
            self.scopes[-1].objs.append(o)
            self.ops.add('unsized array')
            return '%s = {%s};' % (Arr(t.el, None).decl(o.name), ', '.join(self.lit(v, t.el.t) for v in items))
        if k < .9:
            src = self.some_of(o.ty) if o.ty.kind == 'rec' else None
            if src is not None:
                self.blit(o, 0, src.obj, src.off, o.ty.size)
                self.scopes[-1].objs.append(o)
                return '%s = %s;' % (o.ty.decl(o.name), src.s)
        # left uninitialised
        self.scopes[-1].objs.append(o)
        return '%s;' % o.ty.decl(o.name)

    def s_decl(self, depth):
        if depth > 0:
            return ''
        return self.declare()

    def s_block(self, depth):
        if depth > 2:
            return ''
        r = self.r
        self.scopes.append(Scope())
        lines = [self.declare() for _ in range(r.randrange(1, 4))]
        for _ in range(r.randrange(2, 7)):
            lines.append(self.stmt(depth + 1))
        for o in self.scopes[-1].objs:
            lines += self.dump(o, 4)
        self.kill_scope()
        return '{\n%s\n}' % '\n'.join(x for x in lines if x)

    def kill_scope(self):
        s = self.scopes.pop()
        for o in s.objs:
            o.dead = True

    def s_arrfn(self, depth):
        """A function that sums an array given by pointer and length, also of two dimensions."""
        r = self.r
        lv = self.some(lambda l: l.ty.kind == 'arr' and l.ty.el.kind == 'sc' and not l.ty.el.t.flo)
        if lv is None:
            return ''
        t = lv.ty.el.t
        vals = [self.read(LV('', lv.obj, lv.off + i * lv.ty.el.size, lv.ty.el)) for i in range(lv.ty.n)]
        if None in vals:
            return ''
        k = ('sum', t.name)
        if k not in self.helpers:
            n = self.fresh('h')
            self.helpers[k] = n
            self.hlines.append('static u64 %s(%s%s, int n) { u64 s = 0; %s return s; }' % (
                n, t.name, r.choice([' *a', ' a[]', ' a[7]']),
                r.choice(['for (int i = 0; i < n; ++i) s = s * 31 + (u64)a[i];',
                          'for (; n > 0; --n) s = s * 31 + (u64)*a++;',
                          '%s *e = a + n; while (a != e) { s = s * 31 + (u64)*a; a += 1; }' % t.name,
                          'while (n-- > 0) s = s * 31 + (u64)*(a++);'])))
        n = self.helpers[k]
        s = 0
        for v in vals:
            s = (s * 31 + v) & ((1 << 64) - 1)
        self.expected.append('%016x' % s)
        self.labels.append('sum of ' + lv.s)
        return 'out(%s(%s, %d));' % (n, r.choice(['%s', '&%s[0]', '%s + 0']) % lv.s, lv.ty.n)

    def s_vla(self, depth):
        r = self.r
        if not self.vla or depth > 1:
            return ''
        n = r.randrange(1, 8)
        nm = self.fresh('v')
        kind = r.randrange(3)
        t = self.tgen.scalar().t
        while t.flo or t.name == '_Bool':
            t = self.tgen.scalar().t
        mul, add = r.randrange(1, 9), r.randrange(0, 50)
        self.scopes.append(Scope())
        lines = []
        if kind == 0 or (kind == 2 and not self.alloca):
            o = Obj(nm, Arr(Sc(t), n), 'vla')
            size = self.index(n) if n < 8 else n
            if r.random() < .3:
                size = nm + 'n'
                lines.append('%sconst %s %s = %s;' % (r.choice(['', 'static ']), r.choice(['int', 'long', 'unsigned char', 'unsigned long']), size, n if r.random() < .6 else '%d + %d' % (n - 1, 1)))
                self.ops.add('VLA const')
            lines.append('%s %s[%s];' % (t.name, nm, size))
            self.expected.append(bits_of(n * t.size, self.tg.LLONG))
            self.labels.append('sizeof VLA')
            lines.append('out(sizeof(%s));' % nm)
            lines.append('for (int i = 0; i < %d; ++i) %s[i] = (%s)(i * %d + %d);' % (n, nm, t.name, mul, add))
            for i in range(n):
                self.store(o, i * t.size, Sc(t), convert(i * mul + add, self.tg.INT, t))
            self.ops.add('VLA')
        elif kind == 1:
            m = r.randrange(1, 5)
            o = Obj(nm, Arr(Arr(Sc(t), m), n), 'vla')
            lines.append('%s %s[k%d][%d];' % (t.name, nm, n, m))
            self.expected.append(bits_of(n * m * t.size, self.tg.LLONG))
            self.labels.append('sizeof VLA')
            lines.append('out(sizeof(%s));' % nm)
            lines.append('for (int i = 0; i < %d; ++i) for (int j = 0; j < %d; ++j) %s[i][j] = (%s)(i * %d + j * %d);' % (
                n, m, nm, t.name, mul, add))
            for i in range(n):
                for j in range(m):
                    self.store(o, (i * m + j) * t.size, Sc(t), convert(i * mul + j * add, self.tg.INT, t))
            self.ops.add('VLA 2')
        else:
            o = Obj('', Arr(Sc(t), n), 'vla')
            o.name = ''
            lines.append('%s *%s = alloca(k%d * sizeof(%s));' % (t.name, nm, n, t.name))
            lines.append('for (int i = 0; i < %d; ++i) %s[i] = (%s)(i * %d + %d);' % (n, nm, t.name, mul, add))
            for i in range(n):
                self.store(o, i * t.size, Sc(t), convert(i * mul + add, self.tg.INT, t))
            self.scopes[-1].pvars.append((nm, Ptr(Sc(t), self.tg.long_size), PV(o, 0, o.ty.el, 0, n)))
            self.ops.add('alloca')
            self.scopes[-1].objs.append(o)
            o = None
        if o is not None:
            self.scopes[-1].objs.append(o)
        # VLA objects are not named from &obj forms with casts: they are arrays, fine
        if o is None:
            keep = self.scopes[-1].objs.pop()
            self.vkeep = keep
        for _ in range(r.randrange(2, 6)):
            lines.append(self.stmt(2))
        if o is not None:
            lines += self.dump(o, 6)
        else:
            for i in range(n):
                s = self.observe(LV('%s[%d]' % (nm, i), keep, i * t.size, Sc(t)))
                lines.append(s if self.pv_is(nm, keep) else '')
                if s and not self.pv_is(nm, keep):
                    self.expected.pop()
                    self.labels.pop()
            keep.dead = True
        self.kill_scope()
        return '{\n%s\n}' % '\n'.join(x for x in lines if x)

    def pv_is(self, n, obj):
        for p in self.all_pvars():
            if p[0] == n:
                return p[2].obj is obj and p[2].idx == 0
        return False

    def s_heap(self, depth):
        r = self.r
        if depth > 1:
            return ''
        t = r.choice(self.tgen.recs)
        n = r.randrange(1, 5)
        o = Obj('', Arr(t, n), 'heap')
        nm = self.fresh('p')
        self.scopes.append(Scope())
        lines = []
        if r.random() < .5 and not has_ptr(t):
            lines.append('%s *%s = calloc(%d, sizeof(%s));' % (t.name(), nm, n, t.name()))
            self.clear(o, 0, o.ty.size)
        else:
            lines.append('%s *%s = malloc(sizeof(%s[%d]));' % (t.name(), nm, t.name(), n))
        self.scopes[-1].pvars.append((nm, Ptr(t, self.tg.long_size), PV(o, 0, t, 0, n)))
        base = self.fresh('b')
        lines.append('void *%s = %s;' % (base, nm))
        for _ in range(r.randrange(2, 6)):
            lines.append(self.stmt(2))
        o.dead = True
        self.kill_scope()
        lines.append('free(%s);' % base)
        # nothing may keep pointing into it
        for x in self.all_objs():
            for off in [k for k, v in x.ptrs.items() if v.obj is o]:
                del x.ptrs[off]
        for s in self.scopes:
            s.pvars = [(a, b, NULLD if c.obj is o else c) for a, b, c in s.pvars]
        return '{\n%s\n}' % '\n'.join(x for x in lines if x)

    # ---- functions
    def function(self, idx, nstmts):
        r = self.r
        self.scopes.append(Scope())
        ks = list(range(8))
        head = []
        for k in ks:
            head.append('%s k%d = kk[%d];' % (r.choice(['int', 'int', 'long', 'unsigned char', 'short', 'const int']), k, k))
        params, args, pobjs = [], [], []
        for _ in range(r.randrange(0, 4)):
            if r.random() < .5:
                t = r.choice(self.tgen.recs)
                src = self.some_of(t)
                if src is None or src.obj.where != 'global':
                    continue
                o = Obj(self.fresh('o'), t, 'local')
                self.blit(o, 0, src.obj, src.off, t.size)
                args.append(self.global_text(src))
                if args[-1] is None:
                    args.pop()
                    continue
                params.append(t.decl(o.name))
                pobjs.append(o)
            else:
                t = self.tgen.scalar()
                v = self.scval(t.t)
                o = Obj(self.fresh('o'), t, 'local')
                self.store(o, 0, t, v)
                params.append(t.decl(o.name))
                args.append(self.lit(v, t.t))
                pobjs.append(o)
        self.scopes[-1].objs += pobjs
        lines = [self.declare() for _ in range(r.randrange(1, 5))]
        for _ in range(nstmts):
            lines.append(self.stmt())
        for o in self.scopes[-1].objs:
            lines += self.dump(o, 8)
        for o in self.scopes[0].objs:
            if r.random() < .4:
                lines += self.dump(o, 6)
        self.kill_scope()
        name = 'f%d' % idx
        self.forget_locals()
        body = '%svoid %s(%s) {\n%s\n%s\n}' % (r.choice(['', 'static ']), name, ', '.join(params) or 'void', ' '.join(head),
                                              '\n'.join(x for x in lines if x))
        return body, '%s(%s);' % (name, ', '.join(args))

    def global_text(self, lv):
        import re
        return lv.s if not re.search(r'\bk\d|\bp\d', lv.s) else None

    def forget_locals(self):
        for x in self.scopes[0].objs:
            for off in [k for k, v in x.ptrs.items() if v.obj is not None and v.obj.dead]:
                del x.ptrs[off]

    def final_dump(self, calls):
        for o in self.scopes[0].objs:
            calls += self.dump(o, 24)


class _Dead:
    dead = True
    name = ''


NULLD = PV(_Dead(), 0, None, 1, 0)
