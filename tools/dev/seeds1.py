import sys; sys.path.insert(0,'/tmp/w')
from mkseed import *
seed('c01-div-allones','C01',[('src/cc/backend/ir.c','''          case 0:   return opr2;  // 0
          case -1:
            if (!(flag & IRF_UNSIGNED))
              return new_ir_unary(IR_NEG, opr1, opr1->vsize, flag);  // -opr1
            break;''','''          case 0:   return opr2;  // 0
          case -1:  return new_ir_unary(IR_NEG, opr1, opr1->vsize, flag);  // -opr1''')],
 ccdemo(),'division of a 64-bit unsigned variable by a constant with all bits set','u / ~0UL yields -u',
 {'demo.c':'#include <stdio.h>\nint main(int c, char **v) { unsigned long u = c + 4; printf("%lu\\n", u / 0xffffffffffffffffUL); return 0; }\n','expected':'0\n'})
seed('c02-zero-const-shared','C02',[('src/cc/backend/regalloc.c','''    u2.d = v->flonum.value;
    if (u1.q == u2.q && v->vsize == vsize)''','''    u2.d = v->flonum.value;
    if (u1.d == u2.d && v->vsize == vsize)''')],
 ccdemo(),'0.0 and -0.0 of the same size used as constants in one function','the second of the two zeros takes the sign of the first',
 {'demo.c':'#include <stdio.h>\nunion U { double d; unsigned long u; };\nint main(void) { union U a, b; a.d = 0.0; b.d = -0.0; printf("%lx %lx\\n", a.u, b.u); return 0; }\n','expected':'0 8000000000000000\n'})
seed('c03-switch-bias','C03',[('src/cc/backend/codegen.c','''  new_ir_cjmp(val, new_const_vreg(max - min, val->vsize), COND_GT | COND_UNSIGNED, skip_bb);''','''  // The smallest case is 0 after the subtraction, so a signed comparison does unless it was 0 already.
  new_ir_cjmp(val, new_const_vreg(max - min, val->vsize), COND_GT | (min > 0 && !(cond_flag & COND_UNSIGNED) && range > 8 ? 0 : COND_UNSIGNED), skip_bb);''')],
 ccdemo(),'a dense switch of more than 8 positive cases entered with a value below the smallest','the jump table is indexed with a negative number',
 {'demo.c':'#include <stdio.h>\nint f(int x) { switch (x) { case 3: return 1; case 4: return 2; case 5: return 3; case 6: return 4; case 7: return 5; case 8: return 6; case 9: return 7; case 10: return 8; case 11: return 9; case 12: return 10; default: return -1; } }\nint main(void) { for (int i = -2; i < 14; ++i) printf("%d\\n", f(i)); printf("%d\\n", f(-1000000)); return 0; }\n',
  'expected':'-1\n'*5+''.join('%d\n'%i for i in range(1,11))+'-1\n-1\n'})
seed('c08-swap-unsigned','C08',[('src/cc/backend/optimize.c','''      ir->cond.kind = swap_cond(ir->cond.kind & COND_MASK) | (ir->cond.kind & ~COND_MASK);''','''      ir->cond.kind = swap_cond(ir->cond.kind & COND_MASK) | (ir->cond.kind & COND_FLONUM);''')],
 ccdemo('--apply-ssa'),'SSA on, an unsigned comparison whose left operand becomes constant by copy propagation','the comparison is done signed',
 {'demo.c':'#include <stdio.h>\nint f(unsigned x) { unsigned c = 5; int r = c < x; return r; }\nint main(void) { printf("%d %d %d\\n", f(4), f(6), f(0x80000000u)); return 0; }\n','expected':'0 1 1\n'})
