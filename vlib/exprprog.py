"""Whole programs made of cexpr function bodies, and the log they must print."""
from .cexpr import Gen, Var, LP64, Undefined, bits_of, convert, f32
import math

PRELUDE = r'''
#include <unistd.h>
typedef unsigned long long u64;
static char obuf[8192]; static int on;
static void flush(void) { int o = 0; while (o < on) { int n = (int)write(1, obuf + o, on - o); if (n <= 0) break; o += n; } on = 0; }
static void out(u64 v) {
  for (int i = 60; i >= 0; i -= 4) obuf[on++] = "0123456789abcdef"[(v >> i) & 15];
  obuf[on++] = '\n';
  if (on > 8000) flush();
}
'''
PRELUDE_F = PRELUDE + r'''
static void outd(double d) {
  union { double d; u64 u; } x; x.d = d;
  if (d != d) { obuf[on++] = 'n'; obuf[on++] = 'a'; obuf[on++] = 'n'; obuf[on++] = '\n'; return; }
  out(x.u);
}
'''


class Prog:
    def __init__(self, rng, tg=LP64, floats=False, nfuncs=5, nstmts=14, big_frames=True):
        self.r, self.tg, self.floats = rng, tg, floats
        self.expected = []       # lines
        self.labels = []         # what each line is
        self.ops = set()
        self.glob = []           # global decl text
        self.body = []
        self.big = big_frames
        self.nv = 0
        funcs = []
        idtypes = tg.ints + (tg.flos if floats else [])
        for i, t in enumerate(idtypes):
            nm = 'id_' + t.name.replace(' ', '_')
            self.glob.append('static %s %s(%s x) { return x; }' % (t.name, nm, t.name))
            funcs.append((nm, [t], t, lambda x: x))
        self.glob.append('static unsigned int mix3(unsigned int a, unsigned int b, unsigned int c) { return a * 3u + (b ^ c); }')
        funcs.append(('mix3', [tg.UINT] * 3, tg.UINT, lambda a, b, c: (a * 3 + (b ^ c)) & 0xffffffff))
        self.glob.append('static long long sel(_Bool c, long long a, long long b) { if (c) return a; return b; }')
        funcs.append(('sel', [tg.BOOL, tg.LLONG, tg.LLONG], tg.LLONG, lambda c, a, b: a if c else b))
        self.funcs = funcs
        calls = []
        for i in range(nfuncs):
            calls.append(self.function(i, nstmts))
        main = 'int main(void) {\n' + ''.join('  ' + c + '\n' for c in calls) + '  flush();\n  return 0;\n}\n'
        pre = PRELUDE_F if floats else PRELUDE
        self.source = pre + '\n'.join(self.glob) + '\n' + '\n'.join(self.body) + '\n' + main

    def fresh(self, p):
        self.nv += 1
        return '%s%d' % (p, self.nv)

    def outstmt(self, s, t, v, label):
        self.expected.append(bits_of(v, t))
        self.labels.append(label)
        if t.flo:
            return 'outd(%s);' % s
        return 'out((u64)%s);' % s

    def function(self, idx, nstmts):
        r, tg = self.r, self.tg
        g = Gen(r, tg, floats=self.floats, fcalls=self.funcs)
        decl, init, args, params = [], [], [], []
        self.g = g

        def rv():
            t = r.choice(g.types)
            return t, g.rand_val(t)
        # parameters
        for _ in range(r.randrange(0, 11)):
            t, v = rv()
            n = self.fresh('p')
            params.append('%s %s' % (t.name, n))
            args.append(g.literal(v, t))
            g.vars.append(Var(n, t, v))
        # locals
        nloc = r.choice([2, 4, 6, 10, 20])
        for _ in range(nloc):
            t, v = rv()
            n = self.fresh('l')
            k = r.randrange(3)
            if k == 0:
                gs = self.fresh('g')
                self.glob.append('%s%s %s = %s;' % (r.choice(['', 'static ', 'volatile ']), t.name, gs, g.literal(v, t)))
                decl.append('%s%s %s = %s;' % (r.choice(['', '', 'register ', 'volatile ']), t.name, n, gs))
            else:
                decl.append('%s %s = %s;' % (t.name, n, g.literal(v, t)))
            g.vars.append(Var(n, t, v))
        # globals
        for _ in range(r.randrange(1, 5)):
            t, v = rv()
            n = self.fresh('g')
            self.glob.append('%s%s %s = %s;' % (r.choice(['', 'static ', 'volatile ']), t.name, n, g.literal(v, t)))
            g.vars.append(Var(n, t, v))
        # arrays
        if r.random() < .7:
            t, _ = rv()
            n = self.fresh('a')
            ln = r.choice([2, 3, 5, 8, 17, 40])
            vals = [g.rand_val(t) for _ in range(ln)]
            where = r.random() < .5
            d = '%s %s[%d] = {%s};' % (t.name, n, ln, ', '.join(g.literal(v, t) for v in vals))
            if where:
                self.glob.append('static ' + d)
            else:
                decl.append(d)
            for i in r.sample(range(ln), min(3, ln)):
                k = r.randrange(3)
                if k == 0:
                    g.vars.append(Var('%s[%d]' % (n, i), t, vals[i]))
                elif k == 1:
                    ix = self.fresh('i')
                    it = r.choice([tg.INT, tg.UCHAR, tg.LONG, tg.SHORT, tg.UINT, tg.ULLONG, tg.SCHAR])
                    decl.append('%s %s = %d;' % (it.name, ix, i))
                    g.vars.append(Var('%s[%s]' % (n, ix), t, vals[i]))
                else:
                    pp = self.fresh('q')
                    j = r.randrange(ln)
                    decl.append('%s *%s = &%s[%d];' % (t.name, pp, n, j))
                    g.vars.append(Var('%s[%d]' % (pp, i - j), t, vals[i]))
        # structs
        if r.random() < .75:
            sn = self.fresh('S')
            mem, names = [], []
            for _ in range(r.randrange(2, 6)):
                t, v = rv()
                m = self.fresh('m')
                if not t.flo and r.random() < .4 and t.name != 'char':
                    w = r.randrange(1, t.bits + 1) if t.name != '_Bool' else 1
                    if r.random() < .15 and names:
                        mem.append('%s : 0;' % tg.INT.name)
                    mem.append('%s %s : %d;' % (t.name, m, w))
                    x = Var(None, t, 0, w)
                    x.store(v, t)
                    names.append((m, t, x.value, w))
                else:
                    if r.random() < .25 and self.big:
                        mem.append('char pad_%s[%d];' % (m, r.choice([1, 3, 120, 128, 200, 2040, 2048, 4088, 4096, 33000])))
                    mem.append('%s %s;' % (t.name, m))
                    names.append((m, t, v, None))
            self.glob.append('struct %s { %s };' % (sn, ' '.join(mem)))
            so = self.fresh('s')
            where = r.random() < .5
            if where:
                self.glob.append('static struct %s %s;' % (sn, so))
            else:
                decl.append('struct %s %s;' % (sn, so))
            ptr = None
            if r.random() < .5:
                ptr = self.fresh('q')
                decl.append('struct %s *%s = &%s;' % (sn, ptr, so))
            for m, t, v, w in names:
                lv = ('%s->%s' % (ptr, m)) if ptr and r.random() < .6 else '%s.%s' % (so, m)
                init.append('%s = %s;' % (lv, g.literal(v, t)))
                g.vars.append(Var(lv, t, v, w))
        # pointer to local
        if r.random() < .5 and g.vars:
            t, v = rv()
            n, pn = self.fresh('l'), self.fresh('q')
            decl.append('%s %s = %s; %s *%s = &%s;' % (t.name, n, g.literal(v, t), t.name, pn, n))
            g.vars.append(Var('(*%s)' % pn, t, v))
        stm = []
        for k in range(nstmts):
            stm.append(self.stmt(g, idx, 2 + r.randrange(3)))
        for v in g.vars:
            t = v.t
            stm.append(self.outstmt(v.src, t, v.value, 'f%d: final value of %s' % (idx, v.src)))
        rt = r.choice(g.types)
        for _ in range(50):
            g.begin()
            st = [(x, x.value) for x in g.vars]
            try:
                s, t, v = g.expr(3)
                rval = convert(v, t, rt)
                break
            except Undefined:
                for x, y in st:
                    x.value = y
                continue
        else:
            rval = g.rand_val(rt)
            s = g.literal(rval, rt)
        body = '\n  '.join(decl + init + stm + ['return %s;' % s])
        self.body.append('%s%s f%d(%s) {\n  %s\n}' % (
            r.choice(['', 'static ']), rt.name, idx, ', '.join(params) or 'void', body))
        self.ops |= g.ops
        call = 'f%d(%s)' % (idx, ', '.join(args))
        return self.outstmt(call, rt, rval, 'f%d: return value' % idx)

    def stmt(self, g, idx, depth, nest=0):
        r = self.r
        k = r.randrange(20)
        if k < 9:
            return g.assign(depth)
        if k < 16 or nest > 1:
            g.begin()
            s, t, v = g.expr(depth)
            return self.outstmt(s if s.startswith('(') else '(%s)' % s, t, v, 'f%d: %s' % (idx, s))
        g.begin()
        s, t, v = g.expr(depth)
        taken = v != 0
        # both arms are generated; only the taken one counts
        arms = []
        for truth in (True, False):
            st = [(x, x.value) for x in g.vars]
            ne = len(self.expected)
            a = ' '.join(self.stmt(g, idx, depth, nest + 1) for _ in range(r.randrange(1, 3)))
            if truth != taken:
                for x, y in st:
                    x.value = y
                del self.expected[ne:]
                del self.labels[ne:]
            arms.append(a)
        form = r.randrange(3)
        if form == 0:
            return 'if (%s) { %s } else { %s }' % (s, arms[0], arms[1])
        if form == 1:
            return 'if (!%s) { %s } else { %s }' % (s, arms[1], arms[0])
        return 'for (;;) { if (%s) { %s break; } %s break; }' % (s, arms[0], arms[1])
