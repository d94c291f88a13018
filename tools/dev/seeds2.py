import sys; sys.path.insert(0,'/tmp/w')
from mkseed import *
seed('c02-zero-const-shared','C02',[('src/cc/backend/regalloc.c','''    u2.d = v->flonum.value;
    if (u1.q == u2.q && v->vsize == vsize)''','''    u2.d = v->flonum.value;
    if (v->vsize == vsize && (vsize == VRegSize4 ? (float)u1.d == (float)u2.d : u1.q == u2.q))''')],
 ccdemo(),'0.0f and -0.0f used as constants in one function','the second of the two float zeros takes the sign of the first',
 {'demo.c':'#include <stdio.h>\nunion U { float d; unsigned u; };\nint main(void) { union U a, b; a.d = 0.0f; b.d = -0.0f; printf("%x %x\\n", a.u, b.u); return 0; }\n','expected':'0 80000000\n'})
import shutil; shutil.rmtree('/verif/seeded/c03-switch-bias')
seed('c03-switch-signed-split','C03',[('src/cc/backend/codegen.c','''    new_ir_cjmp(vreg, num, COND_GT | cond_flag, bbgt);''','''    new_ir_cjmp(vreg, num, COND_GT, bbgt);''')],
 ccdemo(),'a sparse switch on an unsigned value with cases on both sides of the sign bit','the search among the cases goes the wrong way and ends in default',
 {'demo.c':'#include <stdio.h>\nint f(unsigned x) { switch (x) { case 1: return 1; case 100: return 2; case 20000: return 3; case 0x90000000u: return 4; case 0xf0000000u: return 5; default: return -1; } }\nint main(void) { unsigned a[] = {0, 1, 100, 20000, 0x90000000u, 0xf0000000u, 0xffffffffu}; for (int i = 0; i < 7; ++i) printf("%d\\n", f(a[i])); return 0; }\n',
  'expected':'-1\n1\n2\n3\n4\n5\n-1\n'})
