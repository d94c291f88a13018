"""Programs made of calls.  Functions with random signatures live in two translation units; every call goes through an
assembly thunk that watches the stack alignment, top-level functions are entered through a guard that watches the
callee-saved registers, and probes trash every register a callee may trash.  The log of all parameters, variadic
arguments, results and surviving locals is known from an interpretation of the same program."""
import math
import struct
from .cexpr import LP64, Gen, Undefined, convert, bits_of
from .ctypes import Sc, Arr, Rec, pack, unpack, leaves

COMMON = r'''
#include <stdarg.h>
typedef unsigned long long u64;
void out(u64 v);
void outd(double d);
void probe(void);
extern char base[256];
'''
MAIN = r'''
#include <unistd.h>
#include <string.h>
typedef unsigned long long u64;
static char obuf[1 << 16]; static int on;
char base[256];
static void flush(void) { int o = 0; while (o < on) { int n = (int)write(1, obuf + o, on - o); if (n <= 0) break; o += n; } on = 0; }
void out(u64 v) {
  for (int i = 60; i >= 0; i -= 4) obuf[on++] = "0123456789abcdef"[(v >> i) & 15];
  obuf[on++] = '\n';
  if (on > 65000) flush();
}
void outd(double d) { u64 u; memcpy(&u, &d, 8); out(u); }
extern u64 bad_align, n_calls;
u64 guard_call(void (*f)(void));
'''
ASM = r'''
.text
.globl guard_call
guard_call:
  push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15
  sub $24, %rsp
  mov %rsp, saved_sp(%rip)
  movabs $0x1111222233334444, %rbx
  movabs $0x5555666677778888, %rbp
  movabs $0x9999aaaabbbbcccc, %r12
  movabs $0xddddeeeeffff0000, %r13
  movabs $0x0123456789abcdef, %r14
  movabs $0xfedcba9876543210, %r15
  call *%rdi
  xor %eax, %eax
  movabs $0x1111222233334444, %rcx
  cmp %rcx, %rbx; je 1f; or $1, %eax; 1:
  movabs $0x5555666677778888, %rcx
  cmp %rcx, %rbp; je 1f; or $2, %eax; 1:
  movabs $0x9999aaaabbbbcccc, %rcx
  cmp %rcx, %r12; je 1f; or $4, %eax; 1:
  movabs $0xddddeeeeffff0000, %rcx
  cmp %rcx, %r13; je 1f; or $8, %eax; 1:
  movabs $0x0123456789abcdef, %rcx
  cmp %rcx, %r14; je 1f; or $16, %eax; 1:
  movabs $0xfedcba9876543210, %rcx
  cmp %rcx, %r15; je 1f; or $32, %eax; 1:
  cmp saved_sp(%rip), %rsp; je 1f; or $64, %eax; 1:
  mov saved_sp(%rip), %rsp
  add $24, %rsp
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx
  ret
.globl probe
probe:
  mov %rsp, %r11
  and $15, %r11
  cmp $8, %r11
  je 1f
  incq bad_align(%rip)
1:
  incq n_calls(%rip)
  movabs $0xdeaddeaddeaddead, %rax
  mov %rax, %rcx; mov %rax, %rdx; mov %rax, %rsi; mov %rax, %rdi
  mov %rax, %r8; mov %rax, %r9; mov %rax, %r10; mov %rax, %r11
  %XMM%
  movq %rax, -8(%rsp); movq %rax, -64(%rsp); movq %rax, -128(%rsp); movq %rax, -200(%rsp)
  ret
.macro THUNK n
.globl \n
\n:
  mov %rsp, %r11
  and $15, %r11
  cmp $8, %r11
  je 1f
  incq bad_align(%rip)
1:
  incq n_calls(%rip)
  movabs $0xbadbadbadbadbad, %r11
  mov %r11, %r10
  jmp \n\()_impl
.endm
.data
.globl bad_align
.globl n_calls
bad_align: .quad 0
n_calls: .quad 0
saved_sp: .quad 0
.text
.section .note.GNU-stack,"",@progbits
.text
'''.replace('%XMM%', '; '.join('movq %%rax, %%xmm%d' % i for i in range(16)))


class P:
    """Pointer into base[]."""
    leaf = True
    kind = 'ptr'
    size = align = 8

    def __init__(self):
        pass

    def decl(self, n):
        return 'char *' + n

    def key(self):
        return 'ptr'


PT = P()


class F:
    pass


class CallProg:
    def __init__(self, rng, structs, tg=LP64, nf=8, vastructs=True):
        self.vastructs = vastructs
        self.r, self.tg, self.structs = rng, tg, structs
        self.g = Gen(rng, tg, floats=True)
        self.expected, self.labels, self.ops = [], [], set()
        self.recs = []
        if structs:
            for i in range(rng.randrange(1, 5)):
                ms = []
                for j in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
                    t = Sc(rng.choice(tg.ints + tg.flos * 3))
                    if rng.random() < .2:
                        t = Arr(t, rng.choice([1, 2, 3, 5]))
                    ms.append(('m%d' % j, t))
                self.recs.append(Rec('R%d' % i, rng.random() < .1, ms))
        self.fns = []
        for i in range(nf):
            self.fns.append(self.make(i))
        self.tops = [self.top(i) for i in range(rng.randrange(2, 6))]
        for t in self.tops:
            self.run(t, [])
            self.expected.append(bits_of(0, tg.LLONG))
            self.labels.append('callee-saved registers after ' + t.name)
        self.expected.append(bits_of(0, tg.LLONG))
        self.labels.append('calls on a misaligned stack')
        self.ncalls = 0

    # ---- types and values
    def ty(self, ret=False):
        r = self.r
        k = r.random()
        if ret and k < .1:
            return None
        if k < .5:
            return Sc(r.choice(self.tg.ints))
        if k < .75:
            return Sc(r.choice(self.tg.flos))
        if k < .85 or not self.recs:
            return PT
        return r.choice(self.recs)

    def val(self, t):
        if t.kind == 'sc':
            return self.g.rand_val(t.t)
        if t.kind == 'ptr':
            return self.r.randrange(256)
        b = bytearray(t.size)
        for _, o, l in leaves(t):
            b[o:o + l.size] = pack(l.t, self.g.rand_val(l.t))
        if t.union:
            b = bytearray(t.size)
            l = next(iter(leaves(t.members[0][1])))
        return bytes(b)

    def cst(self, t, v):
        """Constant expression text."""
        if t.kind == 'sc':
            return self.g.literal(v, t.t)
        if t.kind == 'ptr':
            return 'base + %d' % v if self.r.random() < .5 else '&base[%d]' % v
        parts = []
        seen = 0
        for p, o, l in leaves(t):
            if t.union and o + l.size > t.members[0][1].size:
                continue
            if t.union and not p.startswith('.m0'):
                continue
            parts.append('%s = %s' % (p, self.g.literal(unpack(l.t, v[o:o + l.size]), l.t)))
        return '(struct %s){%s}' % (t.tag, ', '.join(parts)) if not t.union else '(union %s){%s}' % (t.tag, ', '.join(parts))

    # ---- programs
    def make(self, i):
        r = self.r
        f = F()
        f.idx = i
        f.name = 'f%d' % i
        f.ret = self.ty(True)
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20])
        bias = r.choice([None, None, 'int', 'flo'])
        f.params = []
        for _ in range(n):
            t = self.ty()
            if bias == 'int' and r.random() < .7:
                t = Sc(r.choice(self.tg.ints))
            elif bias == 'flo' and r.random() < .7:
                t = Sc(r.choice(self.tg.flos))
            f.params.append(t)
        f.va = None
        if f.params and r.random() < .3:
            f.va = []
            for _ in range(r.choice([0, 1, 2, 3, 6, 9, 14])):
                k = r.random()
                f.va.append(Sc(r.choice([self.tg.INT, self.tg.UINT, self.tg.LONG, self.tg.ULONG, self.tg.LLONG, self.tg.ULLONG]))
                            if k < .55 else Sc(self.tg.DOUBLE) if k < .85 else PT if k < .95 or not self.recs or not self.vastructs else r.choice(self.recs))
            if f.params[-1].kind == 'sc' and f.params[-1].t in (self.tg.FLOAT, self.tg.CHAR, self.tg.SCHAR, self.tg.UCHAR,
                                                              self.tg.SHORT, self.tg.USHORT, self.tg.BOOL):
                f.params[-1] = Sc(self.tg.INT)
        f.unit = r.randrange(2)
        f.rec = f.va is None and r.random() < .2 and any(t.kind == 'sc' and t.t is self.tg.INT for t in f.params)
        self.ops.add('sig %d%s ret %s' % (min(n, 9), ' va%d' % len(f.va) if f.va is not None else '', f.ret.key() if f.ret else 'void'))
        f.ops = self.body(f)
        return f

    def top(self, i):
        f = F()
        f.idx = len(self.fns)
        f.name = 'top%d' % i
        f.ret, f.params, f.va, f.rec = None, [], None, False
        f.unit = self.r.randrange(2)
        f.ops = self.body(f, 5)
        return f

    def body(self, f, ncalls=None):
        r = self.r
        ops = []
        f.locals = []
        env = [('p%d' % i, t) for i, t in enumerate(f.params)]
        for i, (n, t) in enumerate(env):
            ops.append(('log', n, t))
        r.shuffle(ops)
        if f.va is not None:
            ops.insert(r.randrange(len(ops) + 1), ('va', r.randrange(3)))
        for _ in range(r.randrange(0, 4)):
            t = self.ty()
            v = self.val(t)
            n = 'l%d' % len(f.locals)
            f.locals.append((n, t))
            ops.insert(0, ('let', n, t, v))
            env.append((n, t))
        at = len([o for o in ops if o[0] == 'let'])
        callees = [g for g in self.fns if g.idx < f.idx]
        extra = []
        for _ in range(r.randrange(0, 3) if ncalls is None else ncalls):
            if not callees:
                break
            g = r.choice(callees) if r.random() < .5 else r.choice(callees[-3:])
            args = []
            for t in g.params:
                args.append(self.disguise(self.arg(t, env, callees if ncalls and not any(a[0] == 'f' for a in args) else [])))
            va = []
            for t in g.va or []:
                va.append(self.disguise(self.vaarg(t, env)))
            dest = None
            if g.ret is not None and r.random() < .8:
                dest = 'l%d' % len(f.locals)
                f.locals.append((dest, g.ret))
            extra.append(('call', g, args, va, dest, r.randrange(4)))
            if dest:
                extra.append(('log', dest, g.ret))
        if r.random() < .5:
            extra.insert(r.randrange(len(extra) + 1), ('probe',))
        # logs that must survive the calls
        for o in extra:
            pass
        tail = ops[at:]
        mid = r.randrange(len(tail) + 1)
        ops = ops[:at] + tail[:mid] + extra + tail[mid:]
        if r.random() < .5:
            ops.append(('probe',))
        for n, t in env:
            if r.random() < .4:
                ops.append(('log', n, t))
        if f.rec:
            k = [i for i, t in enumerate(f.params) if t.kind == 'sc' and t.t is self.tg.INT][0]
            ops.append(('rec', k))
        if f.ret is not None:
            c = [(n, t) for n, t in env if t is f.ret or (t.kind == 'sc' and f.ret.kind == 'sc' and t.t is f.ret.t)]
            if c and r.random() < .6:
                ops.append(('ret', ('v',) + r.choice(c)))
            else:
                ops.append(('ret', ('c', f.ret, self.val(f.ret))))
        return ops

    def arg(self, t, env, nested):
        r = self.r
        c = [(n, x) for n, x in env if x is t or (x.kind == 'sc' and t.kind == 'sc' and (x.t is t.t or r.random() < .2))]
        if c and r.random() < .6:
            n, x = r.choice(c)
            return ('v', n, x)
        if nested and r.random() < .15:
            g = [g for g in nested if g.ret is not None and (g.ret is t or (g.ret.kind == 'sc' and t.kind == 'sc' and g.ret.t is t.t)) and
                 g.va is None and len(g.params) < 7]
            if g:
                g = r.choice(g)
                self.ops.add('call as argument')
                return ('f', g, [self.arg(x, env, []) for x in g.params])
        return ('c', t, self.val(t))

    def vaarg(self, t, env):
        r = self.r
        if t.kind == 'sc' and t.t is self.tg.INT and r.random() < .4:
            # narrower types are promoted
            s = Sc(r.choice([self.tg.CHAR, self.tg.UCHAR, self.tg.SHORT, self.tg.USHORT, self.tg.SCHAR, self.tg.BOOL]))
            return ('c', s, self.val(s))
        if t.kind == 'sc' and t.t is self.tg.DOUBLE and r.random() < .4:
            s = Sc(self.tg.FLOAT)
            c = [(n, x) for n, x in env if x.kind == 'sc' and x.t is self.tg.FLOAT]
            if c and r.random() < .6:
                return ('v',) + r.choice(c)
            return ('c', s, self.val(s))
        c = [(n, x) for n, x in env if x is t or (x.kind == 'sc' and t.kind == 'sc' and x.t is t.t)]
        if c and r.random() < .6:
            return ('v',) + r.choice(c)
        return ('c', t, self.val(t))

    def disguise(self, a):
        """The same value as an expression; every base[i] is 0 (0.0 - z is -0.0 with gcc)."""
        r = self.r
        if a[0] == 'f' or r.random() < .6:
            return a
        t = a[1] if a[0] == 'c' else a[2]
        z, k = 'base[%d]' % r.randrange(256), r.choice([0, 1, 5, 77])
        if t.kind == 'ptr':
            form = r.choice(['(%s) + z', '(%s) - z', 'z ? 0 : (%s)', 'z, (%s)', '(%s) + (z >> 1)'])
        elif t.kind != 'sc':
            form = r.choice(['z, %s'] + (['*&%s', '*(z ? 0 : &%s)', '(&%s)[z]'] if a[0] == 'v' else []))
        elif t.t.flo:
            form = r.choice(['(%s) * (z + 1)', '(%s) / (1 - z)', 'z ? 5 : (%s)', 'z, (%s)', '!z ? (%s) : 0'])
        else:
            form = r.choice(['(%s) >> z', '(%s) << z', '(%s) / (z + 1)', '(%s) * (z + 1)', '(%s) - z', '(%s) ^ z', 'z ? 5 : (%s)', 'z, (%s)', '(z >> 3) + (%s)', '(%s) | (z % 3)',
                             '(%s) & ~z', 'z * 3 + (%s)', '(%s) - (z << 2)', '!z ? (%s) : 7', '(%s) >> (z / 2)', '(%s) + z / (5 - z)'])
        self.ops.add('argument ' + form)
        form = form.replace('z', z)
        cast = '(%s)' % t.decl('').strip() if t.kind == 'sc' else ''
        return ('x', a, lambda x: '%s(%s)' % (cast, form.replace('%s', x, 1)))

    # ---- meaning
    def ev(self, a, env):
        if a[0] == 'c':
            return a[1], a[2]
        if a[0] == 'v':
            return a[2], env[a[1]]
        if a[0] == 'x':
            return self.ev(a[1], env)
        g = a[1]
        return g.ret, self.call(g, a[2], [], env)

    def conv(self, x, frm, to):
        if to.kind == 'sc':
            return convert(x, frm.t, to.t)
        return x

    def call(self, g, args, va, env):
        # arguments without side effects except nested calls: at most one of those logs per call is safe to order;
        # the generator calls nested functions into temporaries first (see text), in order
        vs = []
        for a, t in zip(args, g.params):
            ty, v = self.ev(a, env)
            try:
                vs.append(self.conv(v, ty, t))
            except Undefined:
                raise
        ws = []
        for a, t in zip(va, g.va or []):
            ty, v = self.ev(a, env)
            ws.append(self.conv(v, ty, t))
        return self.run(g, vs, ws)

    def emit(self, t, v, label):
        if t.kind == 'sc':
            if t.t.flo:
                self.expected.append(struct.pack('>d', v).hex())
            else:
                self.expected.append(bits_of(v, self.tg.LLONG))
            self.labels.append(label)
        elif t.kind == 'ptr':
            self.expected.append(bits_of(v, self.tg.LLONG))
            self.labels.append(label)
        else:
            for p, o, l in self.logged(t):
                self.emit(l, unpack(l.t, v[o:o + l.size]), label + p)

    def logged(self, t):
        ls = list(leaves(t))
        if t.union:
            ls = [x for x in ls if x[0].startswith('.m0')]
        return ls

    def run(self, f, args, va=(), depth=0):
        if len(self.expected) > 3000:
            raise TooBig
        env = {'p%d' % i: v for i, v in enumerate(args)}
        for o in f.ops:
            k = o[0]
            if k == 'log':
                self.emit(o[2], env[o[1]], '%s: %s' % (f.name, o[1]))
            elif k == 'let':
                env[o[1]] = o[3]
            elif k == 'va':
                for rep in range(2 if o[1] == 1 else 1):
                    for i, (t, v) in enumerate(zip(f.va, va)):
                        self.emit(t, v, '%s: variadic argument %d' % (f.name, i))
            elif k == 'call':
                v = self.call(o[1], o[2], o[3], env)
                if o[4]:
                    env[o[4]] = v
            elif k == 'rec':
                i = o[1]
                n = env['p%d' % i]
                if 0 < n <= 3:
                    a = [env['p%d' % j] for j in range(len(f.params))]
                    a[i] = n - 1
                    self.run(f, a, (), depth + 1)
            elif k == 'ret':
                a = o[1]
                return a[2] if a[0] == 'c' else env[a[1]]
        return None

    # ---- text
    def at(self, a, pre):
        if a[0] == 'c':
            return self.cst(a[1], a[2])
        if a[0] == 'v':
            return a[1]
        if a[0] == 'x':
            return a[2](self.at(a[1], pre))
        g = a[1]
        return '%s(%s)' % (g.name, ', '.join(self.at(x, pre) for x in a[2]))

    def logtext(self, n, t):
        if t.kind == 'sc':
            return ('outd(%s);' if t.t.flo else 'out((u64)(long long)%s);' if t.t.signed else 'out((u64)%s);') % n
        if t.kind == 'ptr':
            return 'out((u64)(%s - base));' % n
        return ' '.join(self.logtext(n + p, l) for p, o, l in self.logged(t))

    def sig(self, f, impl, names=True):
        ps = [(t.decl('p%d' % i) if names else t.decl('')).strip() for i, t in enumerate(f.params)]
        if f.va is not None:
            ps.append('...')
        return (f.ret.decl('') if f.ret else 'void ').rstrip() + ' ' + f.name + ('_impl' if impl else '') + '(%s)' % (', '.join(ps) or 'void')

    def fptr(self, f, n):
        ps = [t.decl('').strip() for t in f.params]
        if f.va is not None:
            ps.append('...')
        return (f.ret.decl('') if f.ret else 'void ').rstrip() + ' (*%s)(%s)' % (n, ', '.join(ps) or 'void')

    def text(self, f, impl=True):
        out = []
        nt = 0
        for n, t in f.locals:
            out.append(t.decl(n) + ';')
        for k, o in enumerate(f.ops):
            if o[0] == 'let':
                out.append('%s = %s;' % (o[1], self.cst(o[2], o[3])))
            elif o[0] == 'log':
                out.append(self.logtext(o[1], o[2]))
            elif o[0] == 'probe':
                out.append('probe();')
            elif o[0] == 'va':
                last = 'p%d' % (len(f.params) - 1)
                ss = ['va_list ap;', 'va_start(ap, %s);' % last]
                if o[1] == 1:
                    ss += ['va_list ap2;', 'va_copy(ap2, ap);']
                if o[1] == 2:
                    ss.append('%s_va(ap);' % f.name)
                else:
                    for t in f.va:
                        ss.append('{ %s = va_arg(ap, %s); %s }' % (t.decl('x'), t.decl('').strip(), self.logtext('x', t)))
                if o[1] == 1:
                    for t in f.va:
                        ss.append('{ %s = va_arg(ap2, %s); %s }' % (t.decl('x'), t.decl('').strip(), self.logtext('x', t)))
                    ss.append('va_end(ap2);')
                ss.append('va_end(ap);')
                out.append('{ %s }' % ' '.join(ss))
            elif o[0] == 'call':
                g = o[1]
                args = []
                for a in o[2] + o[3]:
                    args.append(self.at(a, out))
                if o[5] == 0:
                    nt += 1
                    out.append('%s = %s;' % (self.fptr(g, 'q%d' % nt), g.name))
                    call = 'q%d(%s)' % (nt, ', '.join(args))
                elif o[5] == 1:
                    call = '(*&%s)(%s)' % (g.name, ', '.join(args))
                else:
                    call = '%s(%s)' % (g.name, ', '.join(args))
                out.append((o[4] + ' = ' if o[4] else '') + call + ';')
            elif o[0] == 'rec':
                a = ['p%d' % j for j in range(len(f.params))]
                a[o[1]] += ' - 1'
                out.append('if (p%d > 0 && p%d <= 3) %s(%s);' % (o[1], o[1], f.name, ', '.join(a)))
            elif o[0] == 'ret':
                a = o[1]
                out.append('return %s;' % (self.cst(a[1], a[2]) if a[0] == 'c' else a[1]))
        pre = ''
        vs = [o for o in f.ops if o[0] == 'va' and o[1] == 2]
        if vs:
            pre = 'static void %s_va(va_list ap) {\n  %s\n}\n' % (f.name, '\n  '.join(
                '{ %s = va_arg(ap, %s); %s }' % (t.decl('x'), t.decl('').strip(), self.logtext('x', t)) for t in f.va))
        return pre + self.sig(f, impl) + ' {\n  ' + '\n  '.join(out) + '\n}'

    def sources(self):
        allf = self.fns + self.tops
        head = COMMON + '\n'.join(x.body() + ';' for x in self.recs) + '\n' + '\n'.join(self.sig(f, False, False) + ';' for f in allf) + '\n'
        a, b = ([self.text(f) for f in allf if f.unit == u] for u in (0, 1))
        main = MAIN + '\n'.join('void %s(void);' % t.name for t in self.tops) + '\nint main(void) {\n' + '\n'.join(
            '  out(guard_call(%s));' % t.name for t in self.tops) + '\n  out(bad_align);\n  flush();\n  return 0;\n}\n'
        asm = ASM + '\n'.join('THUNK ' + f.name for f in allf) + '\n'
        return head + '\n'.join(a) + '\n', head + '\n'.join(b) + '\n', main, asm


    def cross(self):
        """Plain C, for a machine that watches the calling convention by itself: .source and .files."""
        allf = self.fns + self.tops
        head = COMMON + '\n'.join(x.body() + ';' for x in self.recs) + '\n' + '\n'.join(self.sig(f, False, False) + ';' for f in allf) + '\n'
        a, b = (head + '\n'.join(self.text(f, False) for f in allf if f.unit == u) + '\n' for u in (0, 1))
        self.source = MAIN.replace('extern u64 bad_align, n_calls;', 'static u64 bad_align;').replace(
            'u64 guard_call(void (*f)(void));', 'static u64 guard_call(void (*f)(void)) { f(); return 0; }\nvoid probe(void) {}') + \
            '\n'.join('void %s(void);' % t.name for t in self.tops) + '\nint main(void) {\n' + '\n'.join(
            '  out(guard_call(%s));' % t.name for t in self.tops) + '\n  out(bad_align);\n  flush();\n  return 0;\n}\n'
        self.files = {'a.c': a, 'b.c': b}


class TooBig(Exception):
    pass


def generate(rng, structs, vastructs=True, tg=LP64):
    while True:
        try:
            return CallProg(rng, structs, tg, nf=rng.choice([3, 6, 9]), vastructs=vastructs)
        except (Undefined, TooBig):
            pass
