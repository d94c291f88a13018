"""Programs that access volatile objects, and a runtime that watches every access to them.

The objects live on a page that is closed: an access faults, the runtime records what is accessed and how, lets a device
change the object when it is read, opens the page for that one instruction (single step) and closes it again.
"""
import re

RT = r'''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <stdint.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
unsigned char vp[4096] __attribute__((aligned(4096), section("vpage"))) = { 0 };
static char pad[8192] __attribute__((aligned(4096)));
@SYMS@
struct obj { short ofs, size, kind, device; };
static const struct obj objs[] = { @OBJS@ };
static char *logtop, *lp, *logend; static int in, cw, armed; static unsigned seq; static unsigned char before[4096];
static unsigned long cofs; static long count;
static unsigned rnd = 12345;
static void device(unsigned long ofs) {
  for (int i = 0; i < (int)(sizeof(objs) / sizeof(*objs)); i++) {
    const struct obj *o = &objs[i];
    if (ofs < (unsigned)o->ofs || ofs >= (unsigned)(o->ofs + o->size) || !o->device) continue;
    rnd = rnd * 1103515245 + 12345; int v = rnd >> 16 & 63; void *p = vp + o->ofs;
    switch (o->kind) {
    case 'f': *(float*)p = v; break;
    case 'd': *(double*)p = v; break;
    default: memset(p, 0, o->size); *(unsigned char*)p = v; break;
    }
  }
}
static void on_segv(int s, siginfo_t *si, void *c) {
  ucontext_t *u = c; uintptr_t a = (uintptr_t)si->si_addr, page = (uintptr_t)vp;
  if (!armed || in || a < page || a >= page + 4096) { static const char m[] = "CRASH\n"; write(1, m, 6); _exit(99); }
  cofs = a - page; cw = (u->uc_mcontext.gregs[REG_ERR] & 2) != 0;
  mprotect(vp, 4096, PROT_READ | PROT_WRITE);
  if (!cw) device(cofs);
  memcpy(before, vp, 4096);
  in = 1; u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_trap(int s, siginfo_t *si, void *c) {
  ucontext_t *u = c;
  u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; in = 0;
  if (logend - lp < 8192 || ++count > 20000) { static const char m[] = "RUNAWAY\n"; write(1, m, 8); _exit(98); }
  lp += sprintf(lp, "%c %lu", cw ? 'W' : 'R', cofs);
  if (memcmp(before, vp, 4096) != 0) for (int i = 0; i < 512; i++) if (vp[i] != before[i]) lp += sprintf(lp, " %d=%02x", i, vp[i]);
  *lp++ = '\n';
  mprotect(vp, 4096, PROT_NONE);
}
void sink(int id, long long x) { lp += sprintf(lp, "s%d %llx\n", id, x); }
void sinkd(int id, double x) { lp += sprintf(lp, "d%d %a\n", id, x); }
void part(int id) { lp += sprintf(lp, "-- %d\n", id); rnd = id * 7919 + 3; }
void run(void);
int main(void) {
  static char stack[65536]; stack_t ss = { .ss_sp = stack, .ss_size = sizeof stack }; sigaltstack(&ss, 0);
  logtop = lp = malloc(1 << 22); logend = logtop + (1 << 22);
  struct sigaction sa = { .sa_sigaction = on_segv, .sa_flags = SA_SIGINFO | SA_ONSTACK }; sigaction(SIGSEGV, &sa, 0);
  sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, 0);
  for (int i = 0; i < 512; i++) vp[i] = 0;
  for (int i = 0; i < (int)(sizeof(objs) / sizeof(*objs)); i++) {
    void *p = vp + objs[i].ofs; int v = 3 + i * 5 % 50;
    if (objs[i].kind == 'f') *(float*)p = v; else if (objs[i].kind == 'd') *(double*)p = v; else if (objs[i].kind == 'i') *(unsigned char*)p = v;
  }
  mprotect(vp, 4096, PROT_NONE); armed = 1;
  run();
  armed = 0; mprotect(vp, 4096, PROT_READ | PROT_WRITE);
  lp += sprintf(lp, "end"); for (int i = 0; i < 512; i++) lp += sprintf(lp, "%02x", vp[i]); *lp++ = '\n';
  fwrite(logtop, 1, lp - logtop, stdout);
  return 0;
}
'''
INTS = [('char', 1), ('signed char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2), ('int', 4), ('unsigned', 4), ('long', 8), ('unsigned long', 8), ('long long', 8)]


class Prog:
    def __init__(self, r, abs_=False):
        self.r = r
        self.abs = abs_    # the objects are at absolute addresses (wasm): no long, no pointers as objects
        self.objs = []     # (ofs, size, kind, device)
        self.syms = []
        self.decls = []
        self.lv = []       # (text, 'i'/'f', device)
        self.ofs = 0
        self.kinds = set()
        self.nparts = 0
        self.sid = 0
        self.lines = []
        self.layout()
        self.parens()

    def place(self, size, kind, device):
        self.ofs = (self.ofs + size - 1) // size * size
        o = self.ofs
        self.ofs += size
        self.objs.append((o, size, kind, device))
        return o

    def sym(self, name, ofs):
        self.at = getattr(self, 'at', {})
        self.at[name] = ofs
        self.syms.append('__asm__(".globl %s\\n.set %s, vp+%d");' % (name, name, ofs))

    def layout(self):
        r = self.r
        for i in range(r.randint(4, 8)):
            if r.random() < .2:
                t, size, kind = r.choice([('float', 4, 'f'), ('double', 8, 'd')])
            else:
                (t, size), kind = r.choice(INTS), 'i'
            dev = r.random() < .5
            o = self.place(size, kind, dev)
            n = 'g%d' % i
            self.sym(n, o)
            if r.random() < .25:
                # volatile only by the type of the access
                self.decls.append('extern %s %s;' % (t, n))
                self.lv.append(('*(volatile %s*)&%s' % (t, n), kind != 'i', dev, t))
                self.decls.append('typedef volatile %s T%d;' % (t, i))
                self.lv.append(('*(T%d*)&%s' % (i, n), kind != 'i', dev, t))
            else:
                tn = t
                if r.random() < .3:     # named through a typedef
                    tn = 'N%d' % i
                    self.decls.append('typedef %s %s;' % (t, tn))
                self.decls.append(r.choice(['extern volatile %s %s;', 'extern %s volatile %s;']) % (tn, n))
                self.lv.append((n, kind != 'i', dev, t))
                self.decls.append(r.choice(['static volatile %s *p%d = &%s;', 'static %s volatile *p%d = &%s;']) % (tn, i, n))
                self.lv.append((r.choice(['*p%d' % i, 'p%d[0]' % i, '(*&*p%d)' % i, '*(p%d + 0)' % i]), kind != 'i', dev, t))
        for i in range(r.randint(0, 2)):
            t, size = r.choice(INTS)
            self.ofs = (self.ofs + 7) // 8 * 8
            dev = r.random() < .4
            base = [self.place(size, 'i', dev) for _ in range(4)][0]
            self.sym('a%d' % i, base)
            self.decls.append('extern volatile %s a%d[4];' % (t, i))
            for x in ['a%d[2]', 'a%d[loc & 3]', '*(a%d + 1)', '(3)[a%d]', '*a%d']:
                if r.random() < .5:
                    self.lv.append((x % i, False, dev, t))
        if r.random() < .4:
            dev = r.random() < .5
            self.sym('en', self.place(4, 'i', dev))
            self.decls += ['enum EN { E0, E5 = 5, E9 = -9 };', r.choice(['extern volatile enum EN en;', 'extern enum EN volatile en;', 'typedef enum EN TE; extern volatile TE en;'])]
            self.lv.append(('en', False, dev, 'int'))
        if r.random() < .4:
            # pointers that are themselves volatile, and arrays of a qualified type named by a typedef
            self.ofs = (self.ofs + 3) // 4 * 4
            base = [self.place(4, 'i', False) for _ in range(3)][0]
            self.sym('ta', base)
            self.decls += ['typedef int TA[3];', r.choice(['extern volatile TA ta;', 'extern TA volatile ta;', 'typedef const volatile int CV; extern volatile int ta[3];'])]
            for x in ['ta[1]', '*ta', '(*(volatile TA*)&ta)[2]', '(&ta)[0][1]']:
                self.lv.append((x, False, False, 'int'))
        self.vptr = None
        if not self.abs and r.random() < .5:
            t, size = r.choice(INTS)
            self.vptr = size
            self.sym('vq', self.place(8, 'p', False))
            self.decls.append(r.choice(['extern %s *volatile vq;', 'typedef %s *PT; extern volatile PT vq;', 'typedef %s *PT; extern PT volatile vq;']) % t)
        for i in range(r.randint(0, 2)):
            # members: qualified each, or the whole structure
            whole = r.random() < .5
            ms = [r.choice(INTS) for _ in range(3)]
            self.ofs = (self.ofs + 7) // 8 * 8
            dev = r.random() < .4
            base = self.ofs
            for t, size in ms:
                self.place(size, 'i', dev)
            self.ofs = (self.ofs + 7) // 8 * 8
            self.sym('s%d' % i, base)
            q = '' if whole else 'volatile '
            nest = r.random() < .4
            body = '%s%s a; ' % (q, ms[0][0]) + ('struct { %s%s b; %s%s c; }%s;' if False else '%s%s b; %s%s c;') % (q, ms[1][0], q, ms[2][0])
            self.decls.append('struct S%d { %s };' % (i, body))
            sn = 'struct S%d' % i
            if r.random() < .4:
                sn = 'NS%d' % i
                self.decls.append('typedef struct S%d NS%d;' % (i, i))
            self.decls.append('extern %s%s s%d;' % ('volatile ' if whole else '', sn, i))
            self.decls.append('static %s%s *ps%d = &s%d;' % ('volatile ' if whole else '', sn, i, i))
            for m, (t, _) in zip('abc', ms):
                self.lv.append((r.choice(['s%d.%s' % (i, m), 'ps%d->%s' % (i, m), '(*ps%d).%s' % (i, m), '(&s%d)->%s' % (i, m)]), False, dev, t))

    def parens(self):
        self.lv = [('(%s)' % x[0] if x[0][0] in '*' else x[0], *x[1:]) for x in self.lv]

    def L(self, ints=False):
        while True:
            x = self.r.choice(self.lv)
            if not (ints and x[1]):
                return x

    def put(self, s):
        self.lines.append('  ' * self.ind + s)

    def sinkof(self, e, flo=False):
        self.sid += 1
        self.put('%s(%d, %s);' % ('sinkd' if flo else 'sink', self.sid, e))

    def val(self):
        """an expression with at most one volatile access"""
        r = self.r
        x = self.L()
        return r.choice(['%s', '%s', '%s + 1', '(int)%s', '(%s)', '-%s', '!%s', '(char)%s', '(void*)0 == 0 ? %s : 0']) % x[0] if r.random() < .7 else r.choice(['loc', '5', 'loc + 3', '1'])

    def cond(self):
        r = self.r
        x = self.L()[0]
        return r.choice(['%s', '!%s', '%s > 20', '%s == 7', '%s && 1', '%s || 0', '0 || %s', '1 && %s', '%s != %s' % ('%s', '30')]) % x

    def stmt(self, depth=0):
        r = self.r
        k = r.choice(['drop', 'drop', 'void', 'unused', 'read', 'write', 'write', 'op', 'op', 'incdec', 'incdec', 'if', 'while', 'for', 'switch',
                      'comma', 'ternary', 'logic', 'zero', 'noeval', 'addr', 'call', 'call', 'chain', 'twice', 'copy', 'dead', 'cast', 'args', 'do', 'ret', 'const', 'same', 'vptr', 'vptr'])
        x, flo, dev, t = self.L()
        if depth > 1 and k in ('if', 'while', 'for', 'switch', 'do'):
            k = 'op'
        self.kinds.add((k, t, 'ptr' if '*' in x or '->' in x else 'sub' if '[' in x else 'mem' if '.' in x else 'var'))
        sub = lambda: [self.nest(depth) for _ in range(r.randint(1, 2))]
        if k == 'drop':
            self.put(r.choice(['%s;', '+%s;', '(%s);', '%s + 1;', '(%s, 1);', '!%s;', '-%s;', '(long)%s;', '{ %s; }', '%s == 3;', '0 + %s;', '%s * 1;']) % x)
        elif k == 'void':
            self.put(r.choice(['(void)%s;', '(void)(%s + loc);', '(void)!%s;']) % x)
        elif k == 'unused':
            self.sid += 1
            self.put(r.choice(['{ %s u%d = %s; }' % (t, self.sid, x), '{ %s u%d = %s; (void)u%d; }' % (t, self.sid, x, self.sid), 'dummy = %s;' % x]))
        elif k == 'read':
            if r.random() < .5 and not flo:
                self.put('loc = %s;' % x)
                self.sinkof('loc')
            else:
                self.sinkof(x, flo)
        elif k == 'write':
            self.put('%s = %s;' % (x, self.val()))
        elif k == 'dead':
            self.put('%s = %d; %s = %d;' % (x, r.randrange(100), x, r.randrange(100)))
        elif k == 'vptr' and self.vptr:
            self.put(r.choice(['vq = (void*)64;', 'vq++;', '--vq;', 'vq += 2;', 'vq -= 1;', 'vq;', '(void)vq;', 'dummy = vq == 0;', 'if (vq) dummy = 1;', 'loc = (long)vq;', 'loc = (long)(vq + loc % 4);', 'vq = vq;', 'vq = 0;',
                               'vq = vq ? (void*)128 : (void*)256;', 'dummy = !vq;', '{ void *q = vq; (void)q; }', 'loc = (long)&vq[1];', 'loc = (long)&*vq;', 'while (vq) vq = 0;', 'dummy = vq && loc;', '(long)vq;', '(char*)vq;', 'vq + 1;']))
            self.sinkof('loc')
        elif k == 'same':
            self.put('loc = %s; dummy = %s; loc = loc == %s;' % (x, x, x))
            self.sinkof('loc')
        elif k == 'op':
            op = r.choice(['+', '-', '*']) if flo else r.choice(['+', '-', '|', '&', '^', '*', '/', '%', '<<', '>>'])
            v = str(r.randint(1, 5)) if op in '/%<<>>*' else r.choice(['loc & 7', '3', '1'])
            if op in ('*', '<<', '>>'):
                self.put('%s = %d;' % (x, r.randrange(20)))
                if t in ('char', 'signed char') or op == '<<':
                    v = '1'
            self.put('%s %s= %s;' % (x, op, v))
        elif k == 'incdec':
            if r.random() < .3:
                self.put('%s = 9;' % x)
            self.put(r.choice(['%s++;', '++%s;', '%s--;', '--%s;', 'dummy = %s++;', '(void)%s--;']) % x)
        elif k == 'if':
            self.put('if (%s) {' % self.cond())
            self.ind += 1
            sub()
            self.ind -= 1
            if r.random() < .5:
                self.put('} else {')
                self.ind += 1
                sub()
                self.ind -= 1
            self.put('}')
        elif k in ('while', 'do', 'for'):
            self.sid += 1
            i = 'n%d' % self.sid
            self.put('{ int %s = 0;' % i)
            c = '%s++ < %d && (%s)' % (i, r.randint(1, 4), self.cond())
            self.put('while (%s) {' % c if k == 'while' else 'do {' if k == 'do' else 'for (%s; %s; %s) {' % (self.L()[0], c, self.L()[0]))
            self.ind += 1
            sub()
            if r.random() < .3:
                self.put('if (%s) %s;' % (self.cond(), r.choice(['break', 'continue'])))
            self.ind -= 1
            self.put('} while (%s);' % c if k == 'do' else '}')
            self.put('}')
        elif k == 'switch':
            y = self.L(True)[0]
            self.put('switch (%s) {' % r.choice(['%s & 3', '(int)%s', '%s']) % y)
            for v in range(r.randint(0, 3)):
                self.put('case %d:' % r.choice([v, v + 10 * v]))
                self.nest(depth)
                if r.random() < .6:
                    self.put('break;')
            self.put('default: ;')
            self.nest(depth)
            self.put('}')
        elif k == 'comma':
            self.put('dummy = (%s, %s);' % (x, self.L()[0]))
            self.put('%s, %s;' % (self.L()[0], self.L()[0]))
        elif k == 'ternary':
            a, b, c = self.cond(), self.L(True), self.L(True)
            self.put('loc = %s ? (int)%s : (int)%s;' % (a, b[0], c[0]))
            self.sinkof('loc')
            if r.random() < .5:
                self.put(r.choice(['%s ? %s : %s;' % (a, b[0], c[0]), '%s ? (void)%s : (void)%s;' % (a, b[0], c[0]), '%s ? 1 : 1;' % a, 'loc = %s ? 4 : 4;' % a, '%s ? (%s = 4) : 0;' % (a, b[0])]))
        elif k == 'logic':
            a, b = self.cond(), self.cond()
            self.put(r.choice(['loc = %s && %s;', 'loc = (%s) || (%s);', '(%s) || (%s);', '%s && %s;', 'loc = ((%s) && (%s)) || 1;', 'if ((%s) && 0 && (%s)) ;', 'if ((%s) || (%s)) ;', 'loc = !((%s) && (%s));']) % (a, b))
        elif k == 'zero':
            self.put('loc = %s;' % (r.choice(['%s * 0', '0 * %s', '%s && 0', '%s || 1']) % x if flo else r.choice(['%s * 0', '%s & 0', '0 & %s', '%s * 0L', '%s && 0', '%s || 1', '%s %% 1', '(%s, 0)', '0 / (%s | 1)', '%s | -1', '%s >= 0U', '%s << 0']) % x))
            self.sinkof('loc')
        elif k == 'noeval':
            self.put(r.choice(['loc = sizeof(%s);', 'loc = 0 && %s;', 'loc = 1 || %s;', 'if (0) dummy = %s;', '1 ? (void)0 : (void)%s;', 'loc = sizeof %s;', 'while (0) %s;', 'loc = 0 ? (int)%s : 5;']) % x)
        elif k == 'addr':
            self.put(r.choice(['(void)&(%s);', 'dummy = (&(%s) != 0);', '*&(%s);', '*&(%s) = 6;']) % x)
        elif k == 'call':
            if flo:
                self.put(r.choice(['fd(%s);', 'dummy = fd(%s);', 'fnod(%s);']) % x)
            else:
                self.put(r.choice(['fi(%s);', 'dummy = fi(%s);', 'fno(%s);', 'loc = fp_((volatile void*)&(%s));', 'fno2(3, %s);', 'dummy = fin(%s);']) % x)
        elif k == 'args':
            self.put('fno2((loc, %s), 4);' % x)
        elif k == 'chain':
            # whether the value of an assignment is read back from the object is not specified
            self.put('%s = (%s, 4);' % (x, self.L()[0]))
        elif k == 'twice':
            y = self.L(True)
            self.put('%s = 21;' % y[0])
            if not y[2]:
                self.put(r.choice(['loc = %s == %s;', 'loc = %s - %s;', 'loc = (%s ^ %s) + 1;', 'loc = %s - %s + 2;']) % (y[0], y[0]))
                self.sinkof('loc')
        elif k == 'copy':
            self.put('%s = %s;' % (x, self.L()[0]))
        elif k == 'cast':
            self.put('loc = %s;' % r.choice(['(unsigned char)%s', '(short)%s', '(int)(long)%s', '(_Bool)%s', '(unsigned)(int)%s']) % x)
            self.sinkof('loc')
        elif k == 'ret':
            y = self.L(True)
            self.sid += 1
            self.funcs.append('static int r%d(int loc, int c) { double dummy; (void)loc; (void)dummy; if (c) return %s; %s; return 0; }' % (self.sid, y[0], self.L()[0]))
            self.put('%s r%d(1, %d);' % (r.choice(['', 'loc =', '(void)']), self.sid, r.randrange(2)))
        elif k == 'const':
            self.put('{ const volatile %s *cp = &(%s); *cp; dummy = *cp; }' % (t, x))

    def nest(self, depth):
        self.stmt(depth + 1)

    def source(self):
        r = self.r
        self.funcs = []
        self.ind = 1
        self.np, self.ns = r.choice([(24, 1), (12, 4), (5, 10)])
        parts = []
        for p in range(self.np):
            self.lines = []
            for _ in range(r.randint(1, self.ns)):
                self.stmt()
            self.put('(void)loc; (void)dummy;')
            parts.append('static void part%d(int loc) {\n  double dummy = 0;\n  part(%d);\n%s\n}' % (p, p, '\n'.join(self.lines)))
        pre = ['void sink(int, long long); void sinkd(int, double); void part(int);'] + self.decls + [
            'static inline int fi(int x) { return x + 1; }', 'static inline int fin(int x) { return 3; }', 'static void fno(int x) { (void)x; }', 'static inline void fno2(int x, int y) { (void)x; (void)y; }',
            'static inline double fd(double x) { return x * 2; }', 'static void fnod(double x) { (void)x; }', 'static int fp_(volatile void *p) { return p != 0; }']
        if self.abs:
            protos = pre.pop(0)
            pre = [self.absolute(d) for d in pre]
            pre[:0] = ['#ifdef __wasm', '#define WV __attribute__((import_module("wasi_snapshot_preview1")))', 'WV void hook(int, int); WV void sink(int, long long); WV void sinkd(int, double); WV void part(int);',
                       '#define VP 0x200000', '#else', 'static void hook(int a, int b) {}', 'extern unsigned char vp[];', '#define VP vp', protos, '#endif']
        text = '\n'.join(pre + self.funcs + parts + ['void run(void) {'] + ['  part%d(%d);' % (i, r.randrange(50)) for i in range(len(parts))] + ['}']) + '\n'
        if self.abs:
            text = text.replace('void run(void) {\n', 'void run(void) {\n  hook(-1, 0);\n')
            text = re.sub(r'\blong long\b', 'long', text)
            text = re.sub(r'\blong\b', 'long long', text)
        return text

    def absolute(self, d):
        m = re.match(r'(?s)(.*?)extern (.*?)\b(\w+)((?:\[\d+\])?);$', d)
        if m is None or m.group(3) not in self.at:
            return d
        t, n, dim = m.group(2), m.group(3), m.group(4)
        return '%s\n#define %s (*(%s %s)(VP + %d))' % (m.group(1), n, t, '(*)' + dim if dim else '*', self.at[n])

    def runtime(self):
        return RT.replace('@SYMS@', '\n'.join(self.syms)).replace('@OBJS@', ', '.join("{ %d, %d, '%s', %d }" % (o, s, k, d) for o, s, k, d in self.objs))
