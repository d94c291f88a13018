"""Programs with big frames, many live values and far branches.  Every value is known while generating."""
SZ = [('signed char', 8, True), ('unsigned char', 8, False), ('short', 16, True), ('unsigned short', 16, False), ('int', 32, True),
      ('unsigned', 32, False), ('long', 64, True), ('unsigned long', 64, False)]
HEAD = r'''
#include <unistd.h>
#include <string.h>
typedef unsigned long long u64;
static char obuf[1 << 13]; static int on;
static void flush(void) { int o = 0; while (o < on) { int n = (int)write(1, obuf + o, on - o); if (n <= 0) break; o += n; } on = 0; }
static void out(u64 v) {
  for (int i = 60; i >= 0; i -= 4) obuf[on++] = "0123456789abcdef"[(v >> i) & 15];
  obuf[on++] = '\n';
  if (on > 8000) flush();
}
static void outd(double d) { u64 u; memcpy(&u, &d, 8); out(u); }
'''


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


class BigProg:
    exit = 0

    def __init__(self, r, nf=3):
        self.r = r
        self.expected, self.labels, self.ops = [], [], set()
        fs = []
        calls = []
        for i in range(nf):
            fs.append(self.func(i))
            calls.append(fs[-1][1])
        self.source = HEAD + '\n'.join(f[0] for f in fs) + '\nint main(void) {\n' + '\n'.join(calls) + '\n  flush();\n  return 0;\n}\n'

    def log(self, v, label, flo=False):
        import struct
        self.expected.append(struct.pack('>d', v).hex() if flo else '%016x' % (v & (2 ** 64 - 1)))
        self.labels.append(label)

    def lit(self, v, t):
        n, bits, s = t
        if s and v < 0:
            return '(%s)(%d - 1)' % (n, v + 1) if bits < 64 else '(-%dL - 1)' % -(v + 1)
        return '%d%s' % (v, {'unsigned': 'U', 'long': 'L', 'unsigned long': 'UL'}.get(n, ''))

    def rv(self, t):
        n, bits, s = t
        k = self.r.randrange(4)
        v = self.r.getrandbits(bits) if k < 2 else self.r.choice([0, 1, 2, -1, -2, 1 << (bits - 1), (1 << (bits - 1)) - 1]) if k == 2 \
            else self.r.choice([1, -1]) << self.r.randrange(bits)
        return wrap(v, bits, s)

    def func(self, i):
        r = self.r
        name = 'f%d' % i
        L = []
        params, args, model = [], [], {}
        for k in range(r.choice([0, 3, 8, 12, 20])):
            n = 'p%d' % k
            if r.random() < .4:
                ft = r.choice(['float', 'double'])
                v = float(r.randrange(-1 << 20, 1 << 20)) / 8
                params.append('%s %s' % (ft, n))
                args.append('%r%s' % (v, 'f' if ft == 'float' else ''))
                model[n] = (v, None)
            else:
                t = r.choice(SZ)
                v = self.rv(t)
                params.append('%s %s' % (t[0], n))
                args.append(self.lit(v, t))
                model[n] = (v, t)
        arrays = {}
        scal = dict(model)
        for k in range(r.choice([1, 2, 4, 8])):
            t = r.choice(SZ)
            cnt = r.choice([1, 3, 10, 30, 31, 32, 33, 60, 64, 100, 255, 256, 257, 300, 511, 512, 600, 1000, 2000, 4095, 4096, 4097, 9000, 33000, 70000])
            arrays['a%d' % k] = (t, cnt, {})
            L.append('%s a%d[%d];' % (t[0], k, cnt))
            self.ops.add('array %s %d bytes' % (t[0], cnt * t[1] // 8))
        for k in range(r.choice([0, 4, 12, 30, 60])):
            n = 'v%d' % k
            if r.random() < .3:
                v = float(r.randrange(-1 << 20, 1 << 20)) / 4
                L.append('double %s = %r;' % (n, v))
                scal[n] = (v, None)
            else:
                t = r.choice(SZ)
                v = self.rv(t)
                L.append('%s %s = %s;' % (t[0], n, self.lit(v, t)))
                scal[n] = (v, t)
        names = list(scal)
        takes = [n for n in names if r.random() < .2]
        for n in takes:
            t = scal[n][1]
            ty = t[0] if t else [p.split()[0] for p in params if p.split()[-1] == n][0] if n[0] == 'p' else 'double'
            L.append('%s *volatile q%s = &%s;' % (ty, n, n))

        def stmt(d):
            k = r.random()
            if k < .35:
                a = r.choice(list(arrays))
                t, cnt, m = arrays[a]
                j = r.choice([0, cnt - 1, r.randrange(cnt), r.randrange(cnt)])
                v = self.rv(t)
                m[j] = v
                if r.random() < .3:
                    L.append('{ long j = %d; %s[j] = %s; }' % (j, a, self.lit(v, t)))
                else:
                    L.append('%s[%d] = %s;' % (a, j, self.lit(v, t)))
            elif k < .6:
                a = r.choice(list(arrays))
                t, cnt, m = arrays[a]
                if m:
                    j = r.choice(list(m))
                    L.append('out((u64)(long long)%s[%d]);' % (a, j))
                    self.log(m[j], '%s: %s[%d]' % (name, a, j))
            elif k < .8 and names:
                n = r.choice(names)
                v, t = scal[n]
                L.append(('out((u64)(long long)%s);' if t else 'outd(%s);') % (('*q' + n) if n in takes and r.random() < .5 else n))
                self.log(v, '%s: %s' % (name, n), not t)
            elif names:
                n = r.choice(names)
                v, t = scal[n]
                if t:
                    w = self.rv(t)
                    L.append('%s ^= %s;' % (n, self.lit(w, t)))
                    scal[n] = (wrap(v ^ w, t[1], t[2]), t)
                elif abs(v) < 1e6:
                    L.append('%s += 0.5;' % n)
                    scal[n] = (v + .5, t)

        for _ in range(r.choice([10, 40])):
            stmt(0)
        # a long loop body: branches backward and forward over a lot of code
        x = r.getrandbits(32)
        rounds = r.randrange(1, 5)
        body, upd = [], []
        nb = r.choice([20, 150, 400, 1500, 4000])
        self.ops.add('body %d' % nb)
        for _ in range(nb):
            a, b = r.getrandbits(r.choice([3, 12, 16, 31])), r.getrandbits(r.choice([3, 12, 16, 31]))
            upd.append((a, b))
            body.append('x = (x ^ %dU) + %dU;' % (a, b))
        style = r.randrange(3)
        skip = r.randrange(2, 5)
        L.append('unsigned x = %uU; int i;' .replace('%u', '%d') % x)
        bt = '\n    '.join(body)
        if style == 0:
            L.append('for (i = 0; i < %d; i++) {\n    if (i %% %d == 1) continue;\n    %s\n  }' % (rounds, skip, bt))
        elif style == 1:
            L.append('i = 0;\n  do {\n    if (x & 1) goto next%d;\n    %s\n    next%d: x++;\n  } while (++i < %d);' % (i, bt, i, rounds))
        else:
            L.append('i = 0;\n  while (1) {\n    if (i >= %d) break;\n    switch (i++ & 3) { case 0: x += 7; break; case 1:\n    %s\n    break; default: x *= 3; }\n  }' % (rounds, bt))

        def run(x):
            for a, b in upd:
                x = ((x ^ a) + b) & 0xffffffff
            return x
        for k in range(rounds):
            if style == 0:
                if k % skip != 1:
                    x = run(x)
            elif style == 1:
                if not x & 1:
                    x = run(x)
                x = (x + 1) & 0xffffffff
            else:
                if k & 3 == 0:
                    x += 7
                elif k & 3 == 1:
                    x = run(x)
                else:
                    x *= 3
                x &= 0xffffffff
        L.append('out(x);')
        self.log(x, name + ': x after the long loop')
        for _ in range(r.choice([10, 40])):
            stmt(0)
        for n in names:
            v, t = scal[n]
            L.append(('out((u64)(long long)%s);' if t else 'outd(%s);') % n)
            self.log(v, '%s: %s at the end' % (name, n), not t)
        return 'static void %s(%s) {\n  %s\n}' % (name, ', '.join(params) or 'void', '\n  '.join(L)), '  %s(%s);' % (name, ', '.join(args))
