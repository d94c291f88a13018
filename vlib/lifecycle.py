"""Programs with constructors, destructors, exit handlers and non-local jumps, with the trace the rules prescribe."""


class Life:
    """Several units with constructors and destructors; handlers registered at random moments; ended in random ways."""

    def __init__(self, r):
        self.r = r
        nu = r.randint(1, 4)
        self.units, self.expected = [], []
        self.labels, self.ops = [], set()
        exp = self.expected
        cxa = r.random() < .3          # the two kinds of handler are kept apart: their relative order is not specified
        handlers, bodies = [], []
        ctors, dtors = [], []
        total = [0]

        def newhandler(depth=0):
            i = len(handlers)
            handlers.append(None)
            regs = []
            if depth < 2 and r.random() < .3:
                regs = [newhandler(depth + 1) for _ in range(r.randint(1, 2))]
            handlers[i] = regs
            return i

        def reg(i):
            return ('__cxa_atexit(c%d, (void*)&arg[%d], &arg)' % (i, i)) if cxa else 'atexit(h%d)' % i
        calls = [[] for _ in range(nu)]
        for u in range(nu):
            body = []
            for k in range(r.choice([0, 0, 1, 2, 3])):
                name = 'ct%d_%d' % (u, k)
                regs = [newhandler() for _ in range(r.choice([0, 0, 1]))]
                body.append('__attribute__((constructor)) %svoid %s(void) { say("C%s"); %s }' % (
                    '' if r.random() < .5 else 'static ', name, name, ' '.join(self.regstmt(reg(i)) for i in regs)))
                ctors.append((u, name, regs))
            for k in range(r.choice([0, 0, 1, 2])):
                name = 'dt%d_%d' % (u, k)
                body.append('__attribute__((destructor)) static void %s(void) { say("D%s"); }' % (name, name))
                dtors.append((u, name))
            r.shuffle(body)
            bodies.append(body)
        # expected: constructors in link order and in order of definition
        pending = []
        for u in range(nu):
            for line in bodies[u]:
                for cu, name, regs in ctors:
                    if cu == u and ' %s(void)' % name in line:
                        exp.append('C' + name)
                        for i in regs:
                            pending.append(i)
                            exp.append('r0')
        main = []
        exp.append('M')
        for _ in range(r.choice([0, 1, 3, 6, 10])):
            i = newhandler()
            main.append(self.regstmt(reg(i)))
            pending.append(i)
            exp.append('r0')
        if r.random() < .15:
            # up to the limit every program may rely on, the same handler several times
            n = 32 - len(pending) - 6
            if n > 0 and handlers:
                i = newhandler_simple = len(handlers)
                handlers.append([])
                main.append('for (int k = 0; k < %d; ++k) { %s }' % (n, self.regstmt(reg(i))))
                for _ in range(n):
                    pending.append(i)
                    exp.append('r0')
        self.exit = r.choice([0, 1, 7, 42, 127, 128, 200, 255])
        raw = r.choice([self.exit, self.exit, self.exit + 256, self.exit - 256, self.exit + 65536])
        how = r.choice(['return', 'exit', 'nested', 'deep'])
        self.ops.add((how, nu, len(ctors), len(dtors), len(handlers)))
        end = 'return %d;' % raw if how == 'return' else 'exit(%d);' % raw if how == 'exit' else 'leave(%d, %d);' % (raw, 0 if how == 'nested' else r.randint(1, 60))
        while pending:
            i = pending.pop()
            exp.append('H%d' % i)
            for j in handlers[i]:
                pending.append(j)
                exp.append('r0')
        order = []
        for u in range(nu):
            for line in bodies[u]:
                for du, name in dtors:
                    if du == u and ' %s(void)' % name in line:
                        order.append('D' + name)
        exp.extend(reversed(order))
        hs = []
        for i, regs in enumerate(handlers):
            hs.append('void h%d(void);' % i)
        for i, regs in enumerate(handlers):
            if cxa:
                hs.append('void c%d(void *p) { if (p != (void*)&arg[%d]) say("wrong argument"); say("H%d"); %s }' % (
                    i, i, i, ' '.join(self.regstmt(reg(j)) for j in regs)))
            else:
                hs.append('void h%d(void) { say("H%d"); %s }' % (i, i, ' '.join(self.regstmt(reg(j)) for j in regs)))
        pro = '#include <stdlib.h>\n#include <unistd.h>\n#include <string.h>\nvoid say(const char *s);\nextern char arg[%d];\nint __cxa_atexit(void (*)(void *), void *, void *);\n' % (len(handlers) + 1)
        pro += ''.join('void h%d(void); void c%d(void*);\n' % (i, i) for i in range(len(handlers)))
        mu = r.randrange(nu)
        for u in range(nu):
            src = pro + '\n'.join(bodies[u]) + '\n'
            if u == mu:
                src += 'char arg[%d];\nvoid say(const char *s) { write(1, s, strlen(s)); write(1, "\\n", 1); }\n' % (len(handlers) + 1)
                src += '\n'.join(h for h in hs if not h.endswith(';') or '{' in h) + '\n'
                src += 'static void leave(int c, int d) { char pad[100]; memset(pad, d, 100); if (d > 0) leave(c, d - 1); else exit(c); say("back"); }\n'
                src += 'int main(void) { say("M"); %s %s }\n' % ('\n  '.join(main), end)
            self.units.append(src)

    def regstmt(self, call):
        return 'say(%s ? "r1" : "r0");' % call


class Jumps:
    """Non-local jumps from random depths; the model follows the same decisions."""

    def __init__(self, r):
        self.r = r
        self.expected, self.labels, self.ops = [], [], set()
        self.exit = 0
        nbuf = r.randint(1, 4)
        nround = r.randint(3, 12)
        vals = [r.choice([0, 1, 2, -1, 5, 255, 256, 2147483647, -2147483648, r.randint(-1000, 1000)]) for _ in range(nround)]
        depths = [r.choice([0, 1, 2, 7, 40, 300]) for _ in range(nround)]
        kinds = [r.randrange(4) for _ in range(nround)]
        nk = r.randint(1, 9)        # locals that are never changed after setjmp
        nv = r.randint(1, 4)        # volatile locals
        types = [r.choice(['int', 'long', 'unsigned char', 'short', 'double', 'float', 'char *', 'unsigned long']) for _ in range(nk)]
        init = []
        for t in types:
            if t in ('double', 'float'):
                init.append(r.choice(['1.5', '-2.25', '1e10', '0.125', '3.0']))
            elif t == 'char *':
                init.append('(char*)(base + %d)' % r.randint(0, 50))
            else:
                init.append(str(r.randint(-100, 100) if t in ('int', 'long', 'short') else r.randint(0, 200)))
        ubuf = r.random() < .5
        L = ['#include <setjmp.h>', '#include <stdio.h>', '#include <stdlib.h>', 'static jmp_buf jb[%d];' % nbuf, 'static char base[64];', 'static int junk;',
             'static long eat(long a, long b, long c, long d, double e, double f) { volatile long x = a * 3 + b; volatile double y = e + f; return x + c + d + (long)y; }',
             'static void deep(jmp_buf *b, int v, int d, int kind, double z) {',
             '  long p = d * 3, q = d * 5, s = d + 7, t = d - 9, u = d * d; double g = d * 0.5, h = g + 1; char pad[37]; pad[d % 37] = (char)d;',
             '  if (d > 0) deep(b, v, d - 1, kind, z + g);',
             '  else if (kind == 1) { void (*f)(jmp_buf, int) = longjmp; f(*b, v); }' if False else '  else if (kind == 1) { junk = eat(p, q, s, t, g, h); longjmp(*b, v); }',
             '  else if (kind == 2) { jmp_buf c; for (int i = 0; i < (int)(sizeof(c) / sizeof(c[0])); ++i) c[i] = (*b)[i]; longjmp(c, v); }' if r.random() < .3 else '  else if (kind == 2) longjmp(b[0], v);',
             '  else longjmp(*b, v);',
             '  junk += (int)(p + q + s + t + u + (long)(g + h) + pad[d % 37]); printf("returned\\n");', '}',
             'static int act(int k) {']
        used = [r.randrange(nbuf) for _ in range(nround)]
        for i in range(nround):
            L.append('  if (k == %d) { deep(&jb[%d], %s, %d, %d, 0.5); return -1; }' % (i, used[i], lit(vals[i]), depths[i], kinds[i]))
        L.append('  return 0;')
        L.append('}')
        dec = ['  %s k%d = %s;' % (t, i, v) for i, (t, v) in enumerate(zip(types, init))]
        chk = ' && '.join('k%d == (%s)%s' % (i, t, v) for i, (t, v) in enumerate(zip(types, init)))
        exp = self.expected
        # one function per buffer; each does its rounds one after another
        L.append('static int rounds(int b, int first, int pa, double pd) {')
        L += dec
        for i in range(nv):
            L.append('  volatile int v%d = 0;' % i)
        L.append('  volatile int step = first;')
        L.append('  volatile int done = 0;')
        form = r.randrange(4)
        getv = 'int x = setjmp(jb[b]);' if form < 2 else 'volatile int x = 0; switch (setjmp(jb[b])) { case 0: x = 0; break; case 1: x = 1; break; default: x = 2; }' if form == 2 else 'volatile int x = 3; if (setjmp(jb[b]) == 0) x = 0;'
        L.append('  %s' % getv)
        L.append('  printf("%%d %%d %%d %%d %%d\\n", b, x, (int)step, pa, %s);' % chk)
        L.append('  if (pd != pa * 0.5) printf("parameter lost\\n");')
        for i in range(nv):
            L.append('  v%d = v%d + %d; printf("v%d=%%d\\n", v%d);' % (i, i, i + 1, i, i))
        L.append('  if (done) return (int)step;')
        L.append('  { int s = step; step = s + 1; if (s + 1 >= %d || nextbuf[s + 1] != b) done = 1; act(s); }' % nround)
        L.append('  printf("not reached\\n"); return -1;')
        L.append('}')
        L.insert(6, 'static int nextbuf[] = {%s};' % ', '.join(map(str, used)))
        # the caller of the function that jumps keeps values in registers of its own
        nw = r.choice([1, 4, 6, 7, 9, 13, 16])
        wf = [r.random() < .2 for _ in range(nw)]
        L.append('static int busy(int i, int p, long q) {')
        for j in range(nw):
            L.append('  %s w%d = %s;' % (('double', j, 'p * 0.5 + %d' % j) if wf[j] else ('long', j, 'q * %d + p' % (j + 1))))
        L.append('  int n = rounds(nextbuf[i], i, p, p * 0.5);')
        L.append('  return %s ? n : -1000 - n;' % ' && '.join(('w%d == p * 0.5 + %d' if wf[j] else 'w%d == q * %d + p') % (j, j + (not wf[j])) for j in range(nw)))
        L.append('}')
        L.append('int main(void) {')
        L.append('  int i = 0; double keep = 7.25; long keep2 = 991;')
        L.append('  while (i < %d) { int p = i * 2 + 1; int n = busy(i, p, p * 77L); if (n < 0) { printf("values of the caller lost\\n"); n = -1000 - n; } i = n; printf("after %%d %%d\\n", i, keep == 7.25 && keep2 == 991); }' % nround)
        L.append('  return 0;')
        L.append('}')
        self.source = '\n'.join(L) + '\n'
        i = 0
        while i < nround:
            b, pa = used[i], i * 2 + 1
            vs = [0] * nv
            x, step, done = 0, i, False
            while True:
                xx = x if form < 2 else (0 if x == 0 else 1 if x == 1 else 2) if form == 2 else (0 if x == 0 else 3)
                exp.append('%d %d %d %d 1' % (b, xx, step, pa))
                if form == 3 and False:
                    pass
                for j in range(nv):
                    vs[j] += j + 1
                    exp.append('v%d=%d' % (j, vs[j]))
                if done:
                    break
                s = step
                step = s + 1
                if s + 1 >= nround or used[s + 1] != b:
                    done = True
                x = vals[s] or 1
            i = step
            exp.append('after %d 1' % i)
        if form == 3:
            # x is volatile and keeps 0 from the first return
            self.expected = [self.fix3(e) for e in exp]
        self.labels = [''] * len(exp)
        self.ops = {('busy', nw)} | {('jump', form, min(d, 41), k, v == 0) for d, k, v in zip(depths, kinds, vals)}

    def fix3(self, e):
        f = e.split()
        if len(f) == 5 and f[1] == '3':
            f[1] = '0'
        return ' '.join(f)


def lit(v):
    return '(-2147483647 - 1)' if v == -2147483648 else str(v)
