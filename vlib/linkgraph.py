"""Random link graphs (C and assembly units, objects and archives) with a model of symbol resolution."""

MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define MAXU 64
static void (*ops[MAXU])(int);
static long *tabs[MAXU];
static void *seen[128][MAXU];
static int nseen[128];
int see(int i, void *p) {
  int k;
  for (k = 0; k < nseen[i]; ++k)
    if (seen[i][k] == p)
      return k;
  seen[i][nseen[i]++] = p;
  return k;
}
void reg(int u, void (*op)(int)) { ops[u] = op; printf("ctor %d\n", u); }
void regtab(int u, long *tab) { tabs[u] = tab; printf("ctor %d\n", u); }
void lost(int u, const char *what, int k) { printf("u%d %s %d is damaged\n", u, what, k); }
// bytes of a generated blob
static int pat(int seed, long i) { return (unsigned char)(seed * 29 + i * 7 + (i >> 8)); }
static void tab(int u, long *t, int phase) {
  for (long n = *t++; n-- > 0; t += 4) {
    long kind = t[0], arg = t[1], arg2 = t[2];
    unsigned char *p = (unsigned char*)t[3];
    switch (kind) {
    case 0: if (phase == 1) printf("u%d f%ld %d #%d\n", u, arg, ((int(*)(void))p)(), see(arg, p)); break;
    case 1: if (phase == 1) printf("u%d v%ld %d #%d\n", u, arg, ((int*)p)[-arg2], see(64 + arg, (int*)p - arg2)); break;
    case 2: if (phase == 1) printf("u%d w%ld %d\n", u, arg, p == NULL ? -1 : *(int*)p); break;
    case 3: if (phase == 0) printf("u%d align %ld %d\n", u, arg, (int)((uintptr_t)p % arg)); break;
    case 4:
    case 5:    // read only, writable
    case 6:    // zeroed
      if (phase == 0 || (phase == 3 && kind == 4)) {
        for (long i = 0; i < arg2; ++i)
          if (p[i] != (kind == 6 ? 0 : pat(arg, i))) { printf("u%d blob %ld: byte %ld is %d\n", u, arg, i, p[i]); break; }
      } else if (phase == 2 && kind != 4) {
        for (long i = 0; i < arg2; ++i) p[i] = pat(arg + 77, i);
      } else if (phase == 3) {
        for (long i = 0; i < arg2; ++i)
          if (p[i] != pat(arg + 77, i)) { printf("u%d blob %ld: byte %ld is overwritten\n", u, arg, i); break; }
      }
      break;
    }
  }
}
int main(int argc, char *argv[]) {
  for (int phase = 0; phase < 4; ++phase) {
    printf("phase %d\n", phase);
    for (int u = 0; u < MAXU; ++u) {
      if (ops[u] != NULL) ops[u](phase);
      if (tabs[u] != NULL) tab(u, tabs[u], phase);
    }
    if (phase == 2) {
      for (int i = 0; i < 20; ++i) {
        char *p = malloc(1 << i);
        memset(p, 0xa5, 1 << i);
      }
    }
  }
  printf("end\n");
  return 0;
}
'''


class Unit:
    def __init__(self, u):
        self.u = u
        self.defs = {}       # name -> (kind, size, value); kind: strong weak common static
        self.refs = []
        self.weakrefs = []
        self.lang = 'c'
        self.common = False
        self.main = False


def name_no(n):
    return int(n[1:])


IDLE = [
    'static int ja@[4]; static void ju@(int k) { ja@[k & 3] = #; } static void (*const jp@)(int) = ju@;',
    'static int ka@ = #; static int ku@(void) { return ++ka@; } static int (*const kp@[])(void) = {ku@, 0, &ku@};',
    'static int la@; static int *lb@ = &la@; static int **lc@ = &lb@;',
    'static inline int ma@(int x) { static int n = #; n += x; return n; } static inline int mb@(int x) { return ma@(x + 1); }',
    'static inline int na@(void) { return #; } static int (*nb@)(void) = na@;',
    'struct oa@ { int (*f)(int); const char *s; }; static int of@(int x) { return x; } static const struct oa@ ob@[] = {{of@, "of"}, {0, 0}};',
    'static int pa@(int); static int pb@(int n) { return n > 0 ? pa@(n - 1) : #; } static int pa@(int n) { return n > 0 ? pb@(n - 1) : 1; }',
    'static double qa@[3]; static double qb@(void) { static double *q = qa@ + 1; return *q + #.5; } static double (*qc@)(void) = qb@;',
    'static const char *const ra@[] = {"a", "b#"}; static unsigned rb@(void) { return sizeof(ra@); }',
    'static int sa@(void) { static const char *t[] = {"x", "y"}; return t[0][0]; } static char sb@[sizeof(sa@()) + #];',
    'extern int nowhere_@(void); extern int nothing_@[]; static unsigned ta@ = sizeof(nowhere_@());',
]


class Graph:
    def __init__(self, r, wasm=False):
        self.r = r
        self.wasm = wasm
        nf, nv = r.randint(2, 8), r.randint(2, 8)
        names = ['f%d' % i for i in range(nf)] + ['v%d' % i for i in range(nv)]
        nu = r.randint(2, 10)
        self.units = [Unit(u) for u in range(nu)]
        for u in self.units:
            u.lang = 's' if not wasm and r.random() < .3 else 'c'
            u.common = not wasm and u.lang == 'c' and r.random() < .4
        m = Unit(nu)
        m.main = True
        self.units.append(m)
        # input files: objects and archives in command-line order
        self.files = []
        order = list(self.units)
        r.shuffle(order)
        nar = r.choice([0, 1, 1, 2, 3])
        ars = [[] for _ in range(nar)]
        for u in order:
            if nar and r.random() < .5:
                r.choice(ars).append(u)
            else:
                self.files.append(u)
        for a in ars:
            if a:
                # archives late more often, so that they get used
                self.files.insert(r.choice([len(self.files), len(self.files), r.randint(0, len(self.files))]), a)
        self.where = {}
        for k, f in enumerate(self.files):
            for u in (f if isinstance(f, list) else [f]):
                self.where[u.u] = (k, isinstance(f, list))
        self.csize = {n: r.choice([1, 2, 3, 4, 7, 20, 100]) for n in names}      # of common symbols in wasm
        self.define(names)
        self.reference(names)
        self.link()

    # -- who defines what
    def define(self, names):
        r = self.r
        body = [u for u in self.units if not u.main]
        for n in names:
            p = r.random()
            var = n[0] == 'v'
            cand = list(body)
            r.shuffle(cand)
            used = []
            arch = lambda u: self.where[u.u][1]
            if p < .05:
                pass                                    # nowhere: undefined if anything refers to it
            else:
                s = cand.pop()
                used.append(s)
                kind = 'strong'
                if var and s.common and r.random() < .5:
                    kind = 'common'
                elif r.random() < .15 and not (var and s.lang == 'c'):
                    kind = 'weak'
                self.put(s, n, kind)
                kinds = [kind]
                extra = r.choice([0, 0, 0, 1, 1, 2, 3])
                for _ in range(extra):
                    if not cand:
                        break
                    u = cand.pop()
                    # archives: whether a member counts may depend on the order of extraction if a name is in several
                    if any(arch(x) for x in used):
                        if arch(u) or 'common' in kinds or var:
                            continue
                    elif arch(u) and ('common' in kinds or var):
                        continue
                    if arch(u):
                        kinds.append('strong' if r.random() < .15 else 'weak')
                        self.put(u, n, kinds[-1])
                        used.append(u)
                        continue
                    if var and u.common:
                        self.put(u, n, 'common')
                        kinds.append('common')
                    elif (u.lang == 's' or not var) and r.random() < .9:
                        self.put(u, n, 'weak')
                    elif r.random() < .08:
                        self.put(u, n, 'strong')
                    else:
                        continue
                    used.append(u)
            for u in cand:
                if u.lang == 'c' and r.random() < .12:
                    self.put(u, n, 'static')
        # the biggest one provides the storage of common symbols, and the real definition is at least as big
        for n in names:
            if n[0] == 'v':
                mx = max([d.defs[n][1] for d in body if n in d.defs and d.defs[n][0] == 'common'], default=0)
                for d in body:
                    if n in d.defs and d.defs[n][0] in ('strong', 'weak') and d.defs[n][1] < mx:
                        d.defs[n] = (d.defs[n][0], mx, d.defs[n][2])

    def put(self, u, n, kind):
        i = name_no(n)
        size = self.r.choice([1, 2, 3, 4, 7, 20, 100]) if n[0] == 'v' else 0
        val = 0 if kind == 'common' or (n[0] == 'v' and self.r.random() < .2 and not (kind == 'strong' and u.common)) else 1000 * (u.u + 1) + i + (100000 if kind == 'static' else 0)
        if self.wasm and n[0] == 'v':
            size = self.csize[n]
        u.defs[n] = (kind, size, val)

    def reference(self, names):
        r = self.r
        for u in self.units:
            if u.main:
                continue
            for n in names:
                if n in u.defs:
                    continue
                defined = any(n in d.defs and d.defs[n][0] != 'static' for d in self.units)
                if r.random() < (.3 if defined else .02):
                    u.refs.append(n)
            if u.lang == 's':
                u.weakrefs = [n for n in ['w0'] + names if n[0] in 'wv' and n not in u.refs and n not in u.defs and r.random() < .15]

    # -- resolution
    def link(self, roots=()):
        defined, undef, dups = {}, set(roots) if self.wasm else set(['main']), []
        self.included = []
        PR = {'weak': 0, 'common': 1, 'strong': 2}

        def add(u):
            self.included.append(u)
            exp = {n: d for n, d in u.defs.items() if d[0] != 'static'}
            if u.main:
                exp = {'main': ('strong', 0, 0), 'reg': ('strong', 0, 0), 'regtab': ('strong', 0, 0), 'see': ('strong', 0, 0), 'lost': ('strong', 0, 0)}
            for n, d in exp.items():
                undef.discard(n)
                if n not in defined:
                    defined[n] = (u, d)
                    continue
                o = defined[n][1]
                if o[0] == d[0] == 'strong':
                    dups.append(n)
                elif PR[d[0]] > PR[o[0]] or (d[0] == o[0] == 'common' and d[1] > o[1]):
                    defined[n] = (u, d)
            refs = list(u.refs)
            if not u.main:
                refs += ['reg', 'see', 'lost'] if u.lang == 'c' else ['regtab']
            for n in refs:
                if n not in defined:
                    undef.add(n)

        for f in self.files:
            if not isinstance(f, list):
                add(f)
                continue
            left = list(f)
            while True:
                for u in left:
                    if any(n in undef for n, d in u.defs.items() if d[0] != 'static') or (u.main and undef & {'main', 'reg', 'regtab', 'see', 'lost'}):
                        left.remove(u)
                        add(u)
                        break
                else:
                    break
        if 'main' not in defined and self.wasm:      # the start-up code comes last there
            undef.add('__main_argc_argv')
        if 'reg' in undef:          # every unit needs it, and only some need the others
            undef -= {'see', 'lost'}
        self.defined, self.undef, self.dups = defined, undef, sorted(set(dups))

    # -- text
    def source(self, u):
        if u.main:
            return MAIN
        return self.c_source(u) if u.lang == 'c' else self.s_source(u)

    def c_source(self, u):
        r = self.r
        o = ['#include <stdio.h>', '#include <string.h>', 'void reg(int, void (*)(int));', 'int see(int, void*);', 'void lost(int, const char*, int);']
        decl, body = [], []
        rep, fill, ver, ini = [], [], [], []
        for n in list(u.defs) + u.refs:
            i = name_no(n)
            d = u.defs.get(n)
            if n[0] == 'f':
                if d is None:
                    decl.append(r.choice(['int %s(void);', 'extern int %s(void);']) % n)
                else:
                    pre = {'strong': '', 'weak': '__attribute__((weak)) ', 'static': 'static '}[d[0]]
                    if d[0] == 'weak':
                        decl.append('%sint %s(void) { return %d; }' % (pre, n, d[2]))
                    elif r.random() < .5:
                        decl.append('%sint %s(void) { return %d; }' % (pre, n, d[2]))
                    else:
                        decl.append('%sint %s(void);' % (pre, n))
                        body.append('%sint %s(void) { return %d; }' % (pre, n, d[2]))
                decl.append('static int (*p%s)(void) = %s%s;' % (n, r.choice(['', '&']), n))
                rep.append('  printf("u%d %s %%d #%%d\\n", %s(), see(%d, (void*)%s));' % (u.u, n, n, i, n))
                rep.append('  if (p%s != %s || p%s() != %s()) printf("pointer to %s differs\\n");' % (n, n, n, n, n))
            else:
                k = r.randint(0, 4)
                if d is None:
                    decl.append('extern int %s[];' % n)
                else:
                    init = '' if d[2] == 0 else ' = {%s}' % ', '.join(str(d[2] + 7 * j) for j in range(d[1]))
                    if d[0] == 'static' or not init or r.random() < .5:
                        decl.append('%sint %s[%d]%s;' % ('static ' if d[0] == 'static' else '', n, d[1], init))
                        if not init and d[0] != 'static' and r.random() < .3:
                            decl.append('extern int %s[%d];' % (n, d[1]))
                    else:
                        decl.append('extern int %s[];' % n)
                        body.append('int %s[%d]%s;' % (n, d[1], init))
                decl.append('static int *p%s = %s;' % (n, '&%s[%d]' % (n, k) if k else n))
                rep.append('  printf("u%d %s %%d #%%d\\n", %s[0], see(%d, %s));' % (u.u, n, n, 64 + i, n))
                rep.append('  if (p%s != &%s[%d] || *(p%s - %d) != %s[0]) printf("pointer to %s differs\\n");' % (n, n, k, n, k, n, n))
                owner = d is not None and (d[0] == 'static' or self.defined.get(n, (None,))[0] is u)
                if owner:
                    if d[2]:
                        ini.append('  for (int i = 0; i < %d; ++i) if (%s[i] != %d + 7 * i) { lost(%d, "%s", i); break; }' % (d[1], n, d[2], u.u, n))
                    else:
                        ini.append('  for (int i = 0; i < %d; ++i) if (%s[i] != 0) { lost(%d, "%s", i); break; }' % (d[1], n, u.u, n))
                    fill.append('  for (int i = 0; i < %d; ++i) %s[i] = %d - i;' % (d[1], n, 3000 + u.u * 50 + i))
                    ver.append('  for (int i = 0; i < %d; ++i) if (%s[i] != %d - i) { lost(%d, "%s", i); break; }' % (d[1], n, 3000 + u.u * 50 + i, u.u, n))
        for j in range(r.randint(0, 4)):
            t = r.choice(['char', 'short', 'int', 'long', 'double', 'long long'])
            ln = r.choice([1, 2, 3, 5, 8, 17, 64, 200])
            q = r.choice(['', 'const ', 'zero'])
            if q == 'zero':
                ln *= r.choice([1, 1, 30, 300])
                decl.append('static %s z%d[%d];' % (t, j, ln))
                ini.append('  if ((unsigned long)z%d %% sizeof(%s)) lost(%d, "alignment of z", %d);' % (j, t, u.u, j))
                ini.append('  for (int i = 0; i < %d; ++i) if (z%d[i] != 0) { lost(%d, "z", %d); break; }' % (ln, j, u.u, j))
                fill.append('  for (int i = 0; i < %d; ++i) z%d[i] = (i * 3 + %d) %% 100;' % (ln, j, u.u + j))
                ver.append('  for (int i = 0; i < %d; ++i) if (z%d[i] != (i * 3 + %d) %% 100) { lost(%d, "z", %d); break; }' % (ln, j, u.u + j, u.u, j))
            else:
                decl.append('static %s%s d%d[%d] = {%s};' % (q, t, j, ln, ', '.join(str((7 * i + u.u + j) % 101) for i in range(ln))))
                ini.append('  if ((unsigned long)d%d %% sizeof(%s)) lost(%d, "alignment of d", %d);' % (j, t, u.u, j))
                c = '  for (int i = 0; i < %d; ++i) if (d%d[i] != (7 * i + %d) %% 101) { lost(%d, "d", %d); break; }' % (ln, j, u.u + j, u.u, j)
                ini.append(c)
                if q:
                    ver.append(c)
                else:
                    fill.append('  for (int i = 0; i < %d; ++i) d%d[i] = (i * 5 + %d) %% 99;' % (ln, j, u.u + j))
                    ver.append('  for (int i = 0; i < %d; ++i) if (d%d[i] != (i * 5 + %d) %% 99) { lost(%d, "d", %d); break; }' % (ln, j, u.u + j, u.u, j))
        if r.random() < .5:                                 # a name of its own, defined at the end
            t = r.choice(['char', 'short', 'int', 'long', 'double', 'long long', 'double', 'long long'])
            v = r.choice([' = %d' % r.randint(1, 99), ''])
            decl.append('extern %s last%d;' % (t, u.u))
            body.append('%s last%d%s;' % (t, u.u, v))
            ini.append('  if ((unsigned long)&last%d %% sizeof(%s)) lost(%d, "alignment of last", 0);' % (u.u, t, u.u))
            ini.append('  if (last%d != %s) lost(%d, "value of last", 0);' % (u.u, v[3:] or '0', u.u))
        for j in range(r.choice([0, 0, 1, 2, 4])):          # things nothing uses, or only each other
            decl.append(r.choice(IDLE).replace('@', str(j)).replace('#', str(r.randint(0, 1000))))
        o += decl
        o += ['static void ini(void) {'] + ini + ['}', 'static void rep(void) {'] + rep + ['}', 'static void fill(void) {'] + fill + ['}', 'static void ver(void) {'] + ver + ['}']
        o += ['static void op(int phase) { switch (phase) { case 0: ini(); break; case 1: rep(); break; case 2: fill(); break; case 3: ver(); break; } }',
              '__attribute__((constructor)) static void ctor(void) { reg(%d, op); }' % u.u,
              '__attribute__((destructor)) static void dtor(void) { printf("dtor %d\\n"); }' % u.u]
        o += body
        return '\n'.join(o) + '\n'

    def s_source(self, u):
        r = self.r
        text, data, tab = [], [], []
        u.blobs = []

        def sec(kind):
            return {'text': r.choice(['.text', '.section .text', '.section .text.hot, "ax"', '.text']),
                    'data': r.choice(['.data', '.data', '.section mydata, "aw"', '.section .data.x, "aw"']),
                    'ro': r.choice(['.section .rodata', '.section .rodata, "a"', '.section myro, "a"']),
                    'bss': '.bss'}[kind]

        out = []

        def align(big=.15):
            k = r.choice([0, 1, 2, 3, 4]) if r.random() > big else r.randint(5, 14)
            return k

        def blob(kind):
            k = align()
            lab = 'b%d_%d' % (u.u, len(u.blobs))
            n = r.choice([1, 3, 8, 30, 100, 700])
            if kind == 'bss':
                n *= r.choice([1, 10, 100])
            sd = r.randint(1, 200)
            out.append(sec(kind))
            if k:
                out.append('.p2align %d' % k)
            out.append(lab + ':')
            if kind == 'bss':
                out.append('.zero %d' % n)
            else:
                for a in range(0, n, 16):
                    out.append('.byte ' + ', '.join(str((sd * 29 + i * 7 + (i >> 8)) & 255) for i in range(a, min(n, a + 16))))
            u.blobs.append(lab)
            tab.append((3, 1 << k, 0, lab))
            tab.append(({'ro': 4, 'text': 4, 'data': 5, 'bss': 6}[kind], sd, n, lab))
            u.aligns.append(1 << k)

        u.aligns = []
        for n, d in u.defs.items():
            bind = {'strong': '.globl', 'weak': '.weak'}[d[0]]
            if n[0] == 'f':
                out.append(sec('text'))
                k = align(.05)
                if k:
                    out.append('.p2align %d' % k)
                out += ['%s %s' % (bind, n), '.type %s, @function' % n, n + ':', '\tmov $%d, %%eax' % d[2], '\tret']
                tab.append((0, name_no(n), 0, n))
            else:
                out.append(sec('data' if d[2] else 'bss'))
                k = r.choice([2, 2, 3, 4, 5])
                out += ['.p2align %d' % k, '%s %s' % (bind, n), '.type %s, @object' % n, n + ':']
                out += ['\t.long ' + ', '.join(str(d[2] + 7 * j) for j in range(d[1]))] if d[2] else ['\t.zero %d' % (4 * d[1])]
                off = r.choice([0, 0, 1, d[1]])
                tab.append((1, name_no(n), off, '%s+%d' % (n, 4 * off) if off else n))
            for _ in range(r.randint(0, 1)):
                blob(r.choice(['text', 'ro', 'data', 'bss']))
        for n in u.refs:
            if n[0] == 'f':
                # directly, or through a jump in this unit
                if r.random() < .4:
                    out += [sec('text'), 'j%s:' % n, '\tjmp %s' % n]
                tab.append((0, name_no(n), 0, n))
            else:
                off = r.choice([0, 1, 5])
                tab.append((1, name_no(n), off, '%s+%d' % (n, 4 * off) if off else n))
        for n in u.weakrefs:
            out.append('.weak %s' % n)
            tab.append((2, name_no(n), 0, n))
        for _ in range(r.randint(0, 3)):
            blob(r.choice(['text', 'ro', 'data', 'bss']))
        out += ['.section .data' if False else '.data', '.p2align 3', 'tab:', '\t.quad %d' % len(tab)]
        for a, b, c, l in tab:
            out.append('\t.quad %d, %d, %d, %s' % (a, b, c, l))
        out += ['.text', 'ctor:', '\tmov $%d, %%edi' % u.u, '\tlea tab(%rip), %rsi', '\tjmp regtab',
                '.section .init_array, "aw"', '.p2align 3', '\t.quad ctor']
        u.tab = tab
        return '\n'.join(out) + '\n'

    # -- what the program must print between "phase 0" and the end, unit by unit
    def expected(self):
        seen = {}

        def see(key, who):
            l = seen.setdefault(key, [])
            if who not in l:
                l.append(who)
            return l.index(who)

        inc = sorted(self.included, key=lambda u: u.u)
        out = ['phase 0']
        for u in inc:
            if u.lang == 's':
                for k, a, b, l in u.tab:
                    if k == 3:
                        out.append('u%d align %d 0' % (u.u, a))
        out.append('phase 1')
        for u in inc:
            if u.main:
                continue

            def one(n):
                if n in u.defs and u.defs[n][0] == 'static':
                    return ('u', u.u), u.defs[n][2]
                d = self.defined[n]
                return d[0].u, d[1][2]

            if u.lang == 'c':
                for n in list(u.defs) + u.refs:
                    who, v = one(n)
                    out.append('u%d %s %d #%d' % (u.u, n, v, see(n, who)))
            else:
                for k, a, b, l in u.tab:
                    if k == 2:
                        d = self.defined.get(l)
                        out.append('u%d w%d %d' % (u.u, a, -1 if d is None else d[1][2]))
                    elif k < 2:
                        n = 'fv'[k] + str(a)
                        who, v = one(n)
                        out.append('u%d %s %d #%d' % (u.u, n, v, see(n, who)))
        out += ['phase 2', 'phase 3', 'end']
        return out
