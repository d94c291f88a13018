"""Random control flow.  Programs are generated as an AST, printed as C and,
independently, flattened to a little jump code that a Python machine runs to
obtain the trace the C abstract machine produces."""

PRELUDE = r'''
#include <unistd.h>
typedef unsigned long long u64;
static char obuf[8192]; static int on;
static void flush(void) { int o = 0; while (o < on) { int n = (int)write(1, obuf + o, on - o); if (n <= 0) break; o += n; } on = 0; }
static void dec(int v) { char b[12]; int n = 0; unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v; if (v < 0) obuf[on++] = '-';
  do { b[n++] = (char)('0' + u % 10); u /= 10; } while (u); while (n) obuf[on++] = b[--n]; }
static int tr(int id, int v) { dec(id); obuf[on++] = ' '; dec(v); obuf[on++] = '\n'; if (on > 8000) flush(); return v; }
'''

M = 0xffffffff
# operands of the floating conditions; exact in float, and set up at run time
DV = [0.0, -0.0, 1.5, float('nan'), -2.25, float('inf'), float('-inf'), 1e30 * 0 + 3.0, float('nan')]
FDECL = ('static double D[%d] = {0, -0.0, 1.5, 0, -2.25, 0, 0, 3, 0}; static float F[%d];\nstatic double fzero;\nstatic void finit(void) { D[3] = fzero / fzero; D[5] = 1 / fzero; D[6] = -1 / fzero; '
         'D[8] = -D[3]; for (int i = 0; i < %d; ++i) F[i] = (float)D[i]; }\n' % (len(DV), len(DV), len(DV)))


def s32(v):
    v &= M
    return v - (1 << 32) if v >> 31 else v


class TooLong(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


# expressions are tuples; all values are int (32 bit), computed so that no
# signed overflow happens (arithmetic goes through unsigned)
class FlowProg:
    def __init__(self, rng, nfuncs=4, goto=True, stmtexpr=True, maxtrace=1200, deep=False, wasm=False, asm=False):
        self.r = rng
        self.asm = asm and rng.random() < .3
        self.goto, self.stmtexpr, self.wasm = goto, stmtexpr, wasm
        self.maxtrace = maxtrace
        self.deep = deep
        self.ops = set()
        for attempt in range(60):
            self.nid = 0
            self.nlab = 0
            self.funcs = []
            self._se = {}
            self.nf = nfuncs
            self.calls = [(rng.choice([0, 2, 5, 12]), nfuncs - 1 if rng.random() < .6 else rng.randrange(nfuncs),
                           [rng.choice([0, 1, 2, 3, -1, 7, 100, -5]) for _ in range(4)]) for _ in range(6)]
            self.globs = ['g%d' % i for i in range(3)]
            for i in range(nfuncs):
                self.funcs.append(self.gen_func(i))
            self.trace = []
            self.steps = 0
            self.G = {g: 0 for g in self.globs}
            self.G['fuel'] = 0
            self.statics = {}
            try:
                self.code = [self.flatten(f) for f in self.funcs]
                self.depth = 0
                for fuel, fi, args in self.calls:
                    self.G['fuel'] = fuel
                    v = self.call(fi, args[:len(self.funcs[fi]['params'])])
                    self.trace.append('%d %d' % (0, v))
                    if self.steps > 12000:
                        raise TooLong
                if len(self.trace) < 25:
                    raise TooLong
                break
            except TooLong:
                self.maxtrace = maxtrace
                continue
        else:
            raise RuntimeError('no terminating program found')
        self.expected = self.trace
        self.labels = ['trace event (id value)'] * len(self.trace)
        self.source = PRELUDE + self.print_all()
        self.collect()

    # ------------------------------------------------------------ generation
    def tid(self):
        self.nid += 1
        return self.nid

    def gen_func(self, idx):
        r = self.r
        f = {'idx': idx, 'params': ['p%d' % i for i in range(r.randrange(1, 5))],
             'locals': ['v%d' % i for i in range(r.randrange(2, 6))], 'labels': [], 'rec': False,
             'static': r.random() < .3}
        self.f = f
        self.vars = f['params'] + f['locals'] + self.globs
        self.ro = set()
        self.nloop = 0
        self.loopdepth = 0
        self.inswitch = 0
        self.pending = []
        self.ctx_labels = []
        body = self.block(3 if not self.deep else 5, top=True)
        f['body'] = body
        return f

    def var(self):
        return self.r.choice(self.vars)

    def wvar(self):
        c = [v for v in self.vars if v not in self.ro]
        return self.r.choice(c) if c else self.globs[0]

    def const(self):
        r = self.r
        return r.choice([0, 1, 2, 3, -1, 5, 7, r.randrange(-20, 20), r.randrange(-1000, 1000), r.choice([127, 128, 255, 256, 65536, 2147483647, -2147483648])])

    def expr(self, d, pure=False):
        r = self.r
        k = r.randrange(100)
        if d <= 0 or k < 14:
            return ('v', self.var()) if r.random() < .65 else ('c', self.const())
        if k < 40:
            return ('bop', r.choice('+-*&|^'), self.expr(d - 1, True), self.expr(d - 1, True))
        if k < 52:
            return ('cmp', r.choice(['<', '<=', '>', '>=', '==', '!=']), self.expr(d - 1, True), self.expr(d - 1, True))
        if k < 58:
            return ('mod', self.expr(d - 1, True), r.choice([2, 3, 4, 5, 7, 8]))
        if k < 60:
            return self.fc(d - 1)
        if k < 64:
            return ('not', self.expr(d - 1, pure))
        if k < 74:
            return (r.choice(['&&', '||']), self.expr(d - 1, pure), self.expr(d - 1, pure))
        if k < 81:
            return ('?', self.expr(d - 1, pure), self.expr(d - 1, pure), self.expr(d - 1, pure))
        if pure:
            return ('v', self.var())
        if k < 89:
            return ('tr', self.tid(), self.expr(d - 1))
        if k < 92:
            return (',', ('tr', self.tid(), self.expr(d - 1)), self.expr(d - 1))
        if k < 94:
            return self.asg(d - 1)
        if k < 96 and self.stmtexpr:
            return ('se', [('e', ('tr', self.tid(), self.expr(d - 1))) for _ in range(r.randrange(1, 3))] + self.se_extra(d), self.expr(d - 1))
        if r.random() < .35:
            return ('rcall', self.f['idx'] if r.random() < .6 else r.randrange(self.nf), [self.expr(0, True) for _ in range(4)], self.const())
        if self.f['idx'] > 0:
            c = r.randrange(self.f['idx'])
            return ('call', c, [self.expr(0, True) for _ in self.funcs[c]['params']])
        return ('tr', self.tid(), self.expr(d - 1))

    def fc(self, d):
        r = self.r
        return ('fc', r.choice(['<', '<=', '>', '>=', '==', '!=']), r.choice('DF'), self.expr(min(d, 1), True), self.expr(min(d, 1), True))

    def asg(self, d, pure=False):
        v = self.wvar()
        self.ro.add(v)        # not assigned again by its own right-hand side
        e = self.expr(d, pure)
        self.ro.discard(v)
        return ('asg', v, e)

    def se_extra(self, d):
        if self.r.random() < .4:
            return [('if', self.expr(d - 1), [('e', ('tr', self.tid(), ('c', 1)))], [('e', self.asg(0, True))] if self.r.random() < .5 else None)]
        return []

    def cond(self, d=2):
        r = self.r
        k = r.random()
        if k < .06:
            return ('c', r.choice([0, 1, 2, -1]))
        if k < .4:
            return (r.choice(['&&', '||']), self.expr(d), self.expr(d))
        if k < .5:
            e = self.fc(d)
            return ('not', e) if r.random() < .3 else (r.choice(['&&', '||']), e, self.fc(d)) if r.random() < .3 else e
        return self.expr(d)

    def block(self, depth, top=False, n=None):
        r = self.r
        out = []
        # labels of this block become visible for forward jumps from inside it
        mylab = None
        if self.goto and r.random() < (.35 if not top else .6):
            mylab = self.newlabel()
            self.ctx_labels.append(mylab)
        n = n or r.randrange(1, 5 if not top else 9)
        pos = r.randrange(n) if n else 0
        for i in range(n):
            out.append(self.stmt(depth))
            if mylab is not None and i == max(pos, n // 2):
                self.ctx_labels.remove(mylab)
                out.append(('label', mylab))
                mylab = None
        if mylab is not None:
            self.ctx_labels.remove(mylab)
            out.append(('label', mylab))
        if top:
            out.append(('ret', self.expr(2)))
        return out

    def newlabel(self):
        self.nlab += 1
        l = 'L%d' % self.nlab
        return l

    def loopvar(self):
        n = 'i%d' % self.nloop
        self.nloop += 1
        self.f['locals'].append(n)
        return n

    def stmt(self, depth):
        r = self.r
        k = r.randrange(100)
        if depth <= 0 or k < 22:
            kk = r.randrange(8)
            if kk < 3:
                return ('e', ('tr', self.tid(), self.expr(2)))
            if kk < 6:
                return ('e', self.asg(3))
            if kk == 6:
                return ('e', ('inc', self.wvar(), r.choice([1, -1]), r.random() < .5))
            return ('e', self.expr(3))
        if k < 40:
            return ('if', self.cond(), self.block(depth - 1), self.block(depth - 1) if r.random() < .55 else None)
        if k < 62:
            i = self.loopvar()
            self.vars.append(i)
            self.ro.add(i)
            self.loopdepth += 1
            sv, self.inswitch = self.inswitch, 0
            body = self.block(depth - 1)
            self.inswitch = sv
            self.loopdepth -= 1
            n = r.randrange(0, 5)
            kind = r.choice(['for', 'for', 'while', 'do', 'forinf', 'down', 'dow2'])
            extra = self.cond(1) if r.random() < .25 else None
            self.ro.discard(i)
            self.vars.remove(i)
            return (kind, i, n, extra, body)
        if k < 76:
            return self.switch(depth)
        if k < 84 and (self.loopdepth or self.inswitch):
            kind = 'break' if (self.inswitch or r.random() < .5) or not self.loopdepth else 'continue'
            return ('if', self.cond(1), [(kind,)], None) if r.random() < .85 else (kind,)
        if k < 89 and self.ctx_labels:
            l = r.choice(self.ctx_labels)
            return ('if', self.cond(1), [('goto', l)], None) if r.random() < .8 else ('goto', l)
        if k < 93:
            return ('if', self.cond(1), [('ret', self.expr(2))], None)
        if k < 95 and self.goto:
            # backward jump with a counter
            i = self.loopvar()
            l = self.newlabel()
            return ('back', l, i, r.randrange(1, 4), self.block(depth - 1), self.cond(1))
        if k < 96:
            return ('block', self.block(depth - 1))
        if k < 98 and not self.wasm:
            # case labels inside a loop inside the switch
            i = self.loopvar()
            self.vars.append(i)
            self.ro.add(i)
            self.loopdepth += 1
            sv, self.inswitch = self.inswitch, 0
            parts = [[self.stmt(depth - 1 if r.random() < .3 else 0) for _ in range(r.randrange(0, 3))] for _ in range(r.randrange(2, 6))]
            self.inswitch = sv
            self.loopdepth -= 1
            self.ro.discard(i)
            self.vars.remove(i)
            return ('duff', i, r.randrange(1, 4), self.expr(2), r.choice([-1] + list(range(len(parts)))), parts)
        if self.asm:
            v = [x for x in self.f['params'] + self.f['locals'] if x not in self.ro]
            if v:
                return ('asm', r.choice(v), self.const(), r.randrange(3))
        return ('e', self.asg(3))

    def switch(self, depth):
        r = self.r
        style = r.randrange(6)
        big = False
        if style == 0:      # dense
            base = r.choice([0, 0, 1, -2, -5, 100, -128])
            vals = [base + i for i in range(r.randrange(3, 12))]
        elif style == 1:    # sparse
            vals = r.sample(range(-1000, 1000), r.randrange(2, 9))
        elif style == 2:
            vals = r.sample(range(-4, 8), r.randrange(1, 6))
        elif style == 3:    # extremes
            vals = r.sample([0, 1, -1, 2147483647, -2147483648, 2147483646, 65536, 255, 256, -256, 1 << 30], r.randrange(2, 8))
        elif style == 4:    # 64 bit
            big = True
            b = r.choice([0, 1 << 32, 1 << 40, -(1 << 35), (1 << 63) - 8, -(1 << 63)])
            vals = sorted({b + r.randrange(8) for _ in range(r.randrange(2, 8))} | ({0, 1} if r.random() < .5 else set()))
        else:               # dense with holes, more than one cluster
            vals = [i for i in range(0, 14) if r.random() < .7] + [200 + i for i in range(8) if r.random() < .7]
            vals = vals or [3]
        vals = list(vals)
        if r.random() < .3:
            r.shuffle(vals)
        # selector that hits the cases often
        if r.random() < .25:
            sel = self.expr(2)
            if r.random() < .5:
                sel = ('tr', self.tid(), sel)
        else:
            lim = 1 << (63 if big else 31)
            sel = ('pick', self.expr(2), [max(-lim, min(lim - 1, r.choice(vals + [r.choice(vals) + 1, r.choice(vals) - 1])))
                                          for _ in range(r.choice([2, 4, 8]))])
        ty = 'long long' if big else r.choice(['int', 'int', 'int', 'long', 'unsigned', 'char', 'unsigned char', 'short'])
        hasdef = r.random() < .6
        items = []
        sv, self.inswitch = self.inswitch, 1
        order = [('case', v) for v in vals]
        if hasdef:
            order.insert(r.randrange(len(order) + 1), ('default', None))
        for kk, v in order:
            items.append((kk, v))
            if r.random() < .75:
                for _ in range(r.randrange(1, 3)):
                    items.append(self.stmt(depth - 1 if r.random() < .4 else 0))
                if r.random() < .7:
                    items.append(('break',))
        self.inswitch = sv
        duff = None
        return ('switch', sel, ty, items, big)

    # ------------------------------------------------------------ printing
    def cl(self, v, big=False):
        if v == -2147483648 and not big:
            return '(-2147483647 - 1)'
        if v == -(1 << 63):
            return '(-9223372036854775807LL - 1)'
        s = '%dLL' % v if big and abs(v) > 2147483647 else '%d' % v
        return '(%s)' % s if v < 0 else s

    def pe(self, e):
        k = e[0]
        if k == 'v':
            return e[1]
        if k == 'c':
            return self.cl(e[1])
        if k == 'bop':
            return '(int)((unsigned)%s %s (unsigned)%s)' % (self.pp(e[2]), e[1], self.pp(e[3])) if e[1] in '+-*' else \
                '(%s %s %s)' % (self.pp(e[2]), e[1], self.pp(e[3]))
        if k == 'cmp':
            return '(%s %s %s)' % (self.pp(e[2]), e[1], self.pp(e[3]))
        if k == 'fc':
            return '(%s[(unsigned)%s %% %du] %s %s[(unsigned)%s %% %du])' % (e[2], self.pp(e[3]), len(DV), e[1], e[2], self.pp(e[4]), len(DV))
        if k == 'mod':
            return '(int)((unsigned)%s %% %du)' % (self.pp(e[1]), e[2])
        if k == 'not':
            return '!%s' % self.pp(e[1])
        if k in ('&&', '||'):
            return '(%s %s %s)' % (self.pp(e[1]), k, self.pp(e[2]))
        if k == '?':
            return '(%s ? %s : %s)' % (self.pp(e[1]), self.pp(e[2]), self.pp(e[3]))
        if k == 'tr':
            return 'tr(%d, %s)' % (e[1], self.pe(e[2]))
        if k == ',':
            return '(%s, %s)' % (self.pe(e[1]), self.pe(e[2]))
        if k == 'asg':
            return '(%s = %s)' % (e[1], self.pe(e[2]))
        if k == 'inc':
            op = '++' if e[2] > 0 else '--'
            return op + e[1] if e[3] else e[1] + op
        if k == 'se':
            return '({ %s %s; })' % (' '.join(self.ps(s, 0).strip() for s in e[1]), self.pe(e[2]))
        if k == 'call':
            return 'f%d(%s)' % (e[1], ', '.join(self.pe(a) for a in e[2]))
        if k == 'rcall':
            return '(fuel > 0 ? (fuel = fuel - 1, f%d(%s)) : %s)' % (
                e[1], ', '.join(self.pe(a) for a in e[2][:len(self.funcs[e[1]]['params'])]), self.cl(e[3]))
        raise AssertionError(k)

    def pp(self, e):
        s = self.pe(e)
        return s if e[0] in ('v', 'tr', 'call') or (s.startswith('(') and e[0] in ('cmp', 'fc', '&&', '||', '?', ',', 'asg', 'se')) or \
            (e[0] == 'c' and e[1] >= 0) else '(%s)' % s

    def pblock(self, b, ind):
        return '{\n' + ''.join(self.ps(s, ind + 1) for s in b) + '  ' * ind + '}'

    def ps(self, s, ind):
        sp = '  ' * ind
        k = s[0]
        if k == 'e':
            return '%s%s;\n' % (sp, self.pe(s[1]))
        if k == 'if':
            t = '%sif (%s) %s' % (sp, self.pe(s[1]), self.pblock(s[2], ind) if len(s[2]) != 1 or s[2][0][0] in ('if', 'label', 'for', 'while', 'forinf', 'down', 'back', 'duff', 'dow2', 'do', 'switch', 'block') else '\n' + self.ps(s[2][0], ind + 1).rstrip('\n'))
            if s[3] is not None:
                t += '\n%selse %s' % (sp, self.pblock(s[3], ind))
            return t + '\n'
        if k in ('for', 'while', 'do', 'forinf', 'down', 'dow2'):
            i, n, extra, body = s[1:]
            x = ' && %s' % self.pp(extra) if extra is not None else ''
            b = self.pblock(body, ind)
            if k == 'for':
                return '%sfor (%s = 0; %s < %d%s; ++%s) %s\n' % (sp, i, i, n, x, i, b)
            if k == 'down':
                return '%sfor (%s = %d; %s-- > 0%s;) %s\n' % (sp, i, n, i, x, b)
            if k == 'while':
                return '%s%s = 0;\n%swhile (%s++ < %d%s) %s\n' % (sp, i, sp, i, n, x, b)
            if k == 'do':
                return '%s%s = 0;\n%sdo %s while (++%s < %d%s);\n' % (sp, i, sp, b, i, n, x)
            if k == 'dow2':
                return '%s%s = %d;\n%sdo %s while (%s-- > 0%s);\n' % (sp, i, n, sp, b, i, x)
            if k == 'forinf':
                inner = '{\n%s  if (%s >= %d%s) break;\n%s  ++%s;\n' % (sp, i, n, ' || !%s' % self.pp(extra) if extra is not None else '', sp, i)
                return '%sfor (%s = 0;;) %s%s%s}\n' % (sp, i, inner, ''.join(self.ps(t, ind + 1) for t in body), sp)
        if k == 'switch':
            sel, ty, items, big = s[1:]
            if sel[0] == 'pick':
                arr = 't%d' % id(s)
                self.ntab += 1
                arr = 'sel%d' % self.ntab
                self.tabs.append('static const %s %s[%d] = {%s};' % (
                    'long long' if big else 'int', arr, len(sel[2]), ', '.join(self.cl(v, big) for v in sel[2])))
                se = '%s[(unsigned)%s %% %du]' % (arr, self.pp(sel[1]), len(sel[2]))
                if ty not in ('int', 'long long'):
                    se = '(%s)%s' % (ty, se)
            else:
                se = self.pe(sel)
                if ty not in ('int',):
                    se = '(%s)%s' % (ty, self.pp(sel))
            t = '%sswitch (%s) {\n' % (sp, se)
            for it in items:
                if it[0] == 'case':
                    t += '%scase %s:\n' % (sp, self.cl(it[1], big))
                elif it[0] == 'default':
                    t += '%sdefault:\n' % sp
                else:
                    t += self.ps(it, ind + 1)
            if items and items[-1][0] in ('case', 'default'):
                t += sp + '  ;\n'
            return t + sp + '}\n'
        if k == 'duff':
            i, n, sel, dfl, parts = s[1:]
            t = '%s%s = 0;\n%sswitch ((unsigned)%s %% %du) {\n' % (sp, i, sp, self.pp(sel), len(parts) + 1)
            for j, b in enumerate(parts):
                t += '%s%scase %d:%s\n' % (sp, 'default: ' if j == dfl else '', j, ' do {' if j == 0 else '')
                t += ''.join(self.ps(x, ind + 1) for x in b) or sp + '  ;\n'
            return t + '%s  } while (++%s < %d);\n%s}\n' % (sp, i, n, sp)
        if k == 'asm':
            return '%s__asm(%s : "=a"(%s));\n' % (sp, [
                '"mov $%d, %%%%eax"' % s[2], '"push %%%%rcx\\n mov $%d, %%%%ecx\\n mov %%%%ecx, %%%%eax\\n pop %%%%rcx"' % s[2],
                '"xor %%%%eax, %%%%eax\\n" "add $%d, %%%%eax\\n"' % s[2]][s[3]], s[1])
        if k == 'break' or k == 'continue':
            return '%s%s;\n' % (sp, k)
        if k == 'goto':
            return '%sgoto %s;\n' % (sp, s[1])
        if k == 'label':
            return '%s: ;\n' % s[1]
        if k == 'ret':
            return '%sreturn %s;\n' % (sp, self.pe(s[1]))
        if k == 'block':
            return sp + self.pblock(s[1], ind) + '\n'
        if k == 'back':
            l, i, n, body, c = s[1:]
            return '%s%s = 0;\n%s: ;\n%s%sif (++%s < %d && %s) goto %s;\n' % (
                sp, i, l, ''.join(self.ps(t, ind) for t in body), sp, i, n, self.pp(c), l)
        raise AssertionError(k)

    def print_all(self):
        self.tabs = []
        self.ntab = 0
        fs = []
        for f in self.funcs:
            body = ''.join(self.ps(s, 1) for s in f['body'])
            fs.append('%sint f%d(%s) {\n  int %s;\n%s}\n' % (
                'static ' if f['static'] else '', f['idx'], ', '.join('int ' + p for p in f['params']),
                ', '.join('%s = %d' % (v, j) for j, v in enumerate(f['locals'])), body))
        main = 'int main(void) {\n  finit();\n' + ''.join('  fuel = %d; tr(0, f%d(%s));\n' % (
            fu, fi, ', '.join(str(v) for v in a[:len(self.funcs[fi]['params'])])) for fu, fi, a in self.calls) + '  flush(); return 0;\n}\n'
        proto = ''.join('%sint f%d(%s);\n' % ('static ' if f['static'] else '', f['idx'], ', '.join(['int'] * len(f['params']))) for f in self.funcs)
        return FDECL + 'int fuel, %s;\n' % ', '.join(self.globs) + proto + '\n'.join(self.tabs) + '\n' + '\n'.join(fs) + main

    # ------------------------------------------------------------ execution
    def flatten(self, f):
        code, lab = [], {}
        cnt = [0]

        def new():
            cnt[0] += 1
            return '$%d' % cnt[0]

        def st(s, brk, cont):
            k = s[0]
            if k == 'e':
                code.append(('e', s[1]))
            elif k == 'if':
                a, b = new(), new()
                code.append(('jf', s[1], a))
                bl(s[2], brk, cont)
                if s[3] is not None:
                    code.append(('j', b))
                lab[a] = len(code)
                if s[3] is not None:
                    bl(s[3], brk, cont)
                    lab[b] = len(code)
            elif k in ('for', 'while', 'do', 'forinf', 'down', 'dow2'):
                i, n, extra, body = s[1:]
                top, con, end = new(), new(), new()
                if k == 'for':
                    code.append(('set', i, 0))
                    lab[top] = len(code)
                    code.append(('jge', i, n, end))
                    if extra is not None:
                        code.append(('jf', extra, end))
                    bl(body, end, con)
                    lab[con] = len(code)
                    code.append(('add', i, 1))
                    code.append(('j', top))
                elif k == 'down':
                    code.append(('set', i, n))
                    lab[top] = lab[con] = len(code)
                    code.append(('postdec_jle0', i, end))
                    if extra is not None:
                        code.append(('jf', extra, end))
                    bl(body, end, con)
                    code.append(('j', top))
                elif k == 'while':
                    code.append(('set', i, 0))
                    lab[top] = lab[con] = len(code)
                    code.append(('postinc_jge', i, n, end))
                    if extra is not None:
                        code.append(('jf', extra, end))
                    bl(body, end, con)
                    code.append(('j', top))
                elif k == 'do':
                    code.append(('set', i, 0))
                    lab[top] = len(code)
                    bl(body, end, con)
                    lab[con] = len(code)
                    code.append(('add', i, 1))
                    code.append(('jge', i, n, end))
                    if extra is not None:
                        code.append(('jf', extra, end))
                    code.append(('j', top))
                elif k == 'dow2':
                    code.append(('set', i, n))
                    lab[top] = len(code)
                    bl(body, end, con)
                    lab[con] = len(code)
                    code.append(('postdec_jle0', i, end))
                    if extra is not None:
                        code.append(('jf', extra, end))
                    code.append(('j', top))
                else:
                    code.append(('set', i, 0))
                    lab[top] = lab[con] = len(code)
                    code.append(('jge', i, n, end))
                    if extra is not None:
                        code.append(('jf', extra, end))
                    code.append(('add', i, 1))
                    bl(body, end, con)
                    code.append(('j', top))
                lab[end] = len(code)
            elif k == 'switch':
                sel, ty, items, big = s[1:]
                end = new()
                tabl, dflt = {}, end
                pend = []
                at = len(code)
                code.append(None)
                for it in items:
                    if it[0] == 'case':
                        l = new()
                        lab[l] = len(code)
                        tabl[it[1]] = l
                    elif it[0] == 'default':
                        dflt = new()
                        lab[dflt] = len(code)
                    else:
                        st(it, end, cont)
                lab[end] = len(code)
                code[at] = ('sw', sel, ty, tabl, dflt)
            elif k == 'duff':
                i, n, sel, dfl, parts = s[1:]
                con, end = new(), new()
                at = len(code) + 1
                code.append(('set', i, 0))
                code.append(None)
                tabl = {}
                for j, b in enumerate(parts):
                    l = tabl[j] = new()
                    lab[l] = len(code)
                    bl(b, end, con)
                lab[con] = len(code)
                code.append(('add', i, 1))
                code.append(('jge', i, n, end))
                code.append(('j', tabl[0]))
                lab[end] = len(code)
                code[at] = ('sw', ('mod', sel, len(parts) + 1), 'int', tabl, tabl[dfl] if dfl >= 0 else end)
            elif k == 'asm':
                code.append(('e', ('asg', s[1], ('c', s[2]))))
            elif k == 'break':
                code.append(('j', brk))
            elif k == 'continue':
                code.append(('j', cont))
            elif k == 'goto':
                code.append(('j', s[1]))
            elif k == 'label':
                lab[s[1]] = len(code)
            elif k == 'ret':
                code.append(('ret', s[1]))
            elif k == 'block':
                bl(s[1], brk, cont)
            elif k == 'back':
                l, i, n, body, c = s[1:]
                end = new()
                code.append(('set', i, 0))
                lab[l] = len(code)
                bl(body, brk, cont)
                code.append(('add', i, 1))
                code.append(('jge', i, n, end))
                code.append(('jf', c, end))
                code.append(('j', l))
                lab[end] = len(code)
            else:
                raise AssertionError(k)

        def bl(b, brk, cont):
            for s in b:
                st(s, brk, cont)
        bl(f['body'], None, None)
        return code, lab

    def call(self, idx, args):
        f = self.funcs[idx]
        code, lab = self.code[idx]
        self.depth += 1
        if self.depth > 60:
            raise TooLong
        env = dict(zip(f['params'], args))
        for j, v in enumerate(f['locals']):
            env[v] = j
        r = self.run(code, lab, env)
        self.depth -= 1
        return r

    def run(self, code, lab, env):
        pc = 0
        while True:
            self.steps += 1
            if self.steps > 12000 or len(self.trace) > self.maxtrace:
                raise TooLong
            if pc >= len(code):
                return 0
            c = code[pc]
            pc += 1
            k = c[0]
            if k == 'e':
                self.ev(c[1], env)
            elif k == 'jf':
                if self.ev(c[1], env) == 0:
                    pc = lab[c[2]]
            elif k == 'j':
                pc = lab[c[1]]
            elif k == 'set':
                env[c[1]] = c[2]
            elif k == 'add':
                env[c[1]] += c[2]
            elif k == 'jge':
                if env[c[1]] >= c[2]:
                    pc = lab[c[3]]
            elif k == 'postinc_jge':
                v = env[c[1]]
                env[c[1]] = v + 1
                if v >= c[2]:
                    pc = lab[c[3]]
            elif k == 'postdec_jle0':
                v = env[c[1]]
                env[c[1]] = v - 1
                if v <= 0:
                    pc = lab[c[2]]
            elif k == 'sw':
                sel, ty, tabl, dflt = c[1:]
                if sel[0] == 'pick':
                    v = sel[2][(self.ev(sel[1], env) & M) % len(sel[2])]
                else:
                    v = self.ev(sel, env)
                if ty not in ('int', 'long long', 'long'):
                    # converted to ty, then promoted; case constants are converted
                    # to the promoted type
                    bits = {'unsigned': 32, 'char': 8, 'unsigned char': 8, 'short': 16}[ty]
                    v &= (1 << bits) - 1
                    if ty in ('char', 'short') and v >> (bits - 1):
                        v -= 1 << bits
                if ty == 'unsigned':
                    t2 = {x & M: l for x, l in tabl.items()}
                else:
                    t2 = tabl
                pc = lab[t2.get(v, dflt)]
            elif k == 'ret':
                return self.ev(c[1], env)

    def ev(self, e, env):
        k = e[0]
        if k == 'v':
            n = e[1]
            return env[n] if n in env else self.G[n]
        if k == 'c':
            return e[1]
        if k == 'bop':
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            o = e[1]
            return s32(a + b if o == '+' else a - b if o == '-' else a * b if o == '*' else
                       a & b if o == '&' else a | b if o == '|' else a ^ b)
        if k == 'cmp':
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            o = e[1]
            return int(a < b if o == '<' else a <= b if o == '<=' else a > b if o == '>' else
                       a >= b if o == '>=' else a == b if o == '==' else a != b)
        if k == 'fc':
            a, b, o = DV[(self.ev(e[3], env) & M) % len(DV)], DV[(self.ev(e[4], env) & M) % len(DV)], e[1]
            return int(a < b if o == '<' else a <= b if o == '<=' else a > b if o == '>' else
                       a >= b if o == '>=' else a == b if o == '==' else a != b)
        if k == 'mod':
            return (self.ev(e[1], env) & M) % e[2]
        if k == 'not':
            return int(not self.ev(e[1], env))
        if k == '&&':
            return int(bool(self.ev(e[1], env) and self.ev(e[2], env)))
        if k == '||':
            return int(bool(self.ev(e[1], env) or self.ev(e[2], env)))
        if k == '?':
            return self.ev(e[2], env) if self.ev(e[1], env) else self.ev(e[3], env)
        if k == 'tr':
            v = self.ev(e[2], env)
            self.trace.append('%d %d' % (e[1], v))
            if len(self.trace) > self.maxtrace:
                raise TooLong
            return v
        if k == ',':
            self.ev(e[1], env)
            return self.ev(e[2], env)
        if k == 'asg':
            v = self.ev(e[2], env)
            self.put(e[1], v, env)
            return v
        if k == 'inc':
            n = e[1]
            old = env[n] if n in env else self.G[n]
            if old + e[2] > 2147483647 or old + e[2] < -2147483648:
                raise TooLong     # would overflow: try another program
            self.put(n, old + e[2], env)
            return old + e[2] if e[3] else old
        if k == 'se':
            code, lab = self.se_code(e)
            self.run_se(code, lab, env)
            return self.ev(e[2], env)
        if k == 'call':
            return self.call(e[1], [self.ev(a, env) for a in e[2]])
        if k == 'rcall':
            if self.G['fuel'] > 0:
                self.G['fuel'] -= 1
                return self.call(e[1], [self.ev(a, env) for a in e[2][:len(self.funcs[e[1]]['params'])]])
            return e[3]
        raise AssertionError(k)

    def se_code(self, e):
        c = getattr(self, '_se', None)
        if c is None:
            c = self._se = {}
        if id(e) not in c:
            c[id(e)] = (self.flatten({'body': e[1]}), e)
        return c[id(e)][0]

    def run_se(self, code, lab, env):
        self.run(code, lab, env)

    def put(self, n, v, env):
        if n in env:
            env[n] = v
        else:
            self.G[n] = v

    def collect(self):
        ops = self.ops

        def w(s, path):
            k = s[0]
            sig = (path[-2:], k)
            if k == 'switch':
                sig += (s[2], min(len(s[3]), 12), s[4])
            ops.add(('flow',) + sig)
            for x in s[1:]:
                if isinstance(x, list):
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            w(y, path + (k,))
                elif isinstance(x, tuple) and x and isinstance(x[0], str):
                    w(x, path + (k,))
        for f in self.funcs:
            for s in f['body']:
                w(s, ())
