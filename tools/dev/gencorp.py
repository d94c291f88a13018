import sys,os,json,base64
sys.path.insert(0,'/tmp/w/vv')
from vlib import core
def prepare():
    """Assembly and objects to start from."""
    global _asm, _objs
    d = os.path.join(core.scratch(), 'seeds')
    os.makedirs(d, exist_ok=True)
    _asm, _objs = [], []
    x64 = core.build('x64')
    srcs = ['int printf(const char*,...); static int z[10]; int g = 5; double d = 1.5; int *p = &g; const char *s = "abc"; static int h(int x) { return x * 3; } int (*fp)(int) = h;\n'
            'int main(int argc, char **argv) { for (int i = 0; i < argc; ++i) { switch (i) { case 0: z[i] = h(i); break; case 1: z[1] = 3; break; case 2: g /= i; break; case 3: d *= 2; } printf("%d %f\\n", z[i], d); } return g; }\n',
            'extern int g; extern int h2(void); __attribute__((weak)) int w(void) { return 3; } __attribute__((constructor)) static void c(void) { g = 1; } __attribute__((destructor)) static void e(void) { g = 2; } int q(float f, long l, unsigned char c) { return f < 3 ? l >> 3 : c; }\n',
            'int tent; int tent2[30]; struct S { char a; long b; } s = {1, 2}; long f(struct S t, ...) { return t.b + tent2[t.a]; } float r(float a, double b) { return a / b - (unsigned)a; }\n',
            'int h2(void) { return 1; } int main(void) { return h2(); }\n']
    for i, s in enumerate(srcs):
        open(os.path.join(d, 's%d.c' % i), 'w').write(s)
        x = core.run([os.path.join(x64, 'xcc'), '-S', '-o', 's%d.s' % i, 's%d.c' % i], cwd=d)
        x2 = core.run([os.path.join(x64, 'xcc'), '-c'] + (['-fcommon'] if i == 2 else []) + ['-o', 's%d.o' % i, 's%d.c' % i], cwd=d)
        if x.rc or x2.rc:
            raise core.HarnessError('seed program: ' + (x.err + x2.err).decode())
        _asm.append(open(os.path.join(d, 's%d.s' % i)).read())
        _objs.append((open(os.path.join(d, 's%d.o' % i), 'rb').read(), '.o'))
    core.run(['ar', 'rcs', 'a.a', 's1.o', 's2.o', 's3.o'], cwd=d)
    a = open(os.path.join(d, 'a.a'), 'rb').read()
    _objs += [(a, '.a'), (a, '.a')]


prepare()
json.dump(_asm,open('/tmp/w/vv/data/asm_corpus.json','w'),indent=0)
json.dump([(base64.b64encode(o).decode(),e) for o,e in _objs],open('/tmp/w/vv/data/obj_corpus.json','w'),indent=0)
