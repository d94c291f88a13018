"""Programs with one offence (and twins without it) for C13.

An entry: (name, where, bad, good).  `where` is 's' (statements of a function), 'f' (file scope), 'l' (statements inside
a loop), 'p' (directives, whole lines).  Lines are separated by `|`; the offending line starts with `@` (`@@`: the
offence may be noticed on the following line as well).  $a..$z: fresh names, $N: a number, $I/$J: integer types,
$O: a binary operator, $R: a relational one."""
import re

PRE = '''static int g_i = 1; static const int g_ci = 2; static int *g_p = &g_i; static const int *g_cp = &g_ci; static int g_arr[4];
struct GS { int m; const int cm; int bf : 3; int arr[3]; struct { int in; } s; }; static struct GS g_s, *g_ps = &g_s; static const struct GS g_cs;
struct GT { int m; }; static struct GT g_t; union GU { int i; char c; }; static union GU g_u; enum GE { GE0, GE1 }; typedef int GInt; struct GInc;
static double g_d = 1.5; static int g_f0(void) { return 1; } static int g_f2(int x, char *y) { return x + (y != 0); } static void g_v(void) {} static int g_fv(const char *s, ...) { return *s; }
'''

E = [
    # ---- names
    ('undeclared', 's', '@$a = $N;', 'int $a; $a = $N;'),
    ('undeclared in expression', 's', '@g_i = g_i $O $a;', 'int $a = 1; g_i = g_i $O $a;'),
    ('undeclared in condition', 's', '@if ($a) g_i = 1;', 'int $a = 0; if ($a) g_i = 1;'),
    ('undeclared in index', 's', '@g_arr[$a] = 1;', 'int $a = 0; g_arr[$a] = 1;'),
    ('undeclared argument', 's', '@g_f2($a, 0);', 'int $a = 0; g_f2($a, 0);'),
    ('undeclared in initializer', 's', '@int $a = $b;', 'int $b = 2; int $a = $b;'),
    ('undeclared operand of return', 's', '@if (g_i) return $a;', 'int $a = 3; if (g_i == 77) return $a;'),
    ('undeclared in sizeof', 's', '@g_i = sizeof $a;', 'int $a; g_i = sizeof $a;'),
    ('out of scope', 's', '{ int $a = 1; g_i = $a; }|@g_i = $a;', '{ int $a = 1; g_i = $a; }|int $a = 2; g_i = $a;'),
    ('for variable out of scope', 's', 'for (int $a = 0; $a < 3; ++$a) g_i = $a;|@g_i = $a;', 'for (int $a = 0; $a < 3; ++$a) g_i = $a;|g_i = 1;'),
    ('redeclared', 's', 'int $a = 1; g_i = $a;|@int $a = 2;', 'int $a = 1; g_i = $a;|{ int $a = 2; g_i = $a; }'),
    ('redeclared with another type', 's', '$I $a = 1; g_i = $a;|@double $a;', '$I $a = 1; g_i = $a;|{ double $a = 1; g_d = $a; }'),
    ('parameter redeclared', 'f', 'static int $a(int $b) {|@int $b = 1; return $b; }', 'static int $a(int $b) {|{ int $b = 1; return $b; } }'),
    ('type conflict of globals', 'f', 'extern int $a;|@extern double $a;', 'extern int $a;|extern int $a;'),
    ('defined twice', 'f', 'int $a = 1;|@int $a = 2;', 'int $a = 1;|extern int $a;'),
    ('function defined twice', 'f', 'int $a(void) { return 1; }|@int $a(void) { return 2; }', 'int $a(void);|int $a(void) { return 2; }'),
    ('prototype differs in return', 'f', 'int $a(void);|@double $a(void) { return 2; }', 'double $a(void);|double $a(void) { return 2; }'),
    ('prototype differs in parameters', 'f', 'int $a(int);|@int $a(double x) { return x; }', 'int $a(double);|int $a(double x) { return x; }'),
    ('prototype differs in count', 'f', 'int $a(int);|@int $a(int x, int y) { return x + y; }', 'int $a(int, int);|int $a(int x, int y) { return x + y; }'),
    ('variable called function', 'f', 'int $a;|@int $a(void) { return 1; }', 'int $b;|int $a(void) { return 1; }'),
    ('typedef conflicts with variable', 's', 'int $a = 0; g_i = $a;|@typedef int $a;', 'int $b = 0; g_i = $b;|typedef int $a; $a $c = 1; g_i = $c;'),
    ('typedef twice different', 'f', 'typedef int $a;|@typedef double $a;', 'typedef int $a;|typedef int $a;'),
    ('enumerator twice', 'f', '@enum { $a, $b, $a };', 'enum { $a, $b, $c };'),
    ('enumerator and variable', 'f', 'int $a;|@enum { $a };', 'int $a;|enum { $b };'),
    ('struct defined twice', 'f', 'struct $a { int x; };|@struct $a { int y; };', 'struct $a { int x; };|struct $b { int y; };'),
    ('struct tag used as union', 's', 'struct $a { int x; } $b; $b.x = 1; g_i = $b.x;|@union $a $c;', 'struct $a { int x; } $b; $b.x = 1; g_i = $b.x;|struct $a $c = {1}; g_i = $c.x;'),
    ('incomplete struct object', 's', '@struct $a $b;', 'struct $a *$b = 0; g_i = $b == 0;'),
    ('incomplete struct sizeof', 's', '@g_i = sizeof(struct GInc);', 'g_i = sizeof(struct GInc *);'),
    ('incomplete struct member', 's', 'struct GInc *$a = 0;|@g_i = $a->m;', 'struct GT *$a = &g_t;|g_i = $a->m;'),
    ('incomplete struct deref', 'f', 'struct $a; extern struct $a *$b;|@int $c = sizeof(*$b);', 'struct $a; extern struct $a *$b;|int $c = sizeof($b);'),
    ('enum unknown', 's', '@enum $a $b;', 'enum GE $b = GE1; g_i = $b;'),
    ('unknown member', 's', '@g_i = g_s.$a;', 'g_i = g_s.m;'),
    ('unknown member by pointer', 's', '@g_ps->$a = 1;', 'g_ps->m = 1;'),
    ('unknown member nested', 's', '@g_i = g_s.s.m;', 'g_i = g_s.s.in;'),
    ('unknown union member', 's', '@g_u.$a = 1;', 'g_u.i = 1;'),
    # ---- operators
    ('. on pointer', 's', '@g_i = g_ps.m;', 'g_i = g_ps->m;'),
    ('-> on struct', 's', '@g_i = g_s->m;', 'g_i = g_s.m;'),
    ('. on int', 's', '@g_i = g_i.m;', 'g_i = g_s.m;'),
    ('-> on int pointer', 's', '@g_i = g_p->m;', 'g_i = g_ps->m;'),
    ('dereference int', 's', '@g_i = *g_i;', 'g_i = *g_p;'),
    ('dereference double', 's', '@g_d = *g_d;', 'g_d = *&g_d;'),
    ('dereference struct', 's', '@g_i = (*g_s).m;', 'g_i = (*g_ps).m;'),
    ('index int', 's', '@g_i = g_i[$N];', 'g_i = g_arr[1];'),
    ('index by pointer', 's', '@g_i = g_arr[g_p];', 'g_i = g_arr[*g_p & 1];'),
    ('index by double', 's', '@g_i = g_arr[g_d];', 'g_i = g_arr[(int)g_d];'),
    ('call int', 's', '@g_i($N);', 'g_f0();'),
    ('call pointer to int', 's', '@g_p(1);', 'g_f2(1, 0);'),
    ('call struct member', 's', '@g_s.m();', 'g_f0();'),
    ('struct plus int', 's', '@g_i = g_s $O 1;', 'g_i = g_s.m $O 1;'),
    ('int plus struct', 's', '@g_i = 1 $O g_t;', 'g_i = 1 $O g_t.m;'),
    ('pointer times int', 's', '@g_i = g_p * 2;', 'g_i = *g_p * 2;'),
    ('pointer plus pointer', 's', '@g_i = g_p + g_p;', 'g_i = g_p - g_p;'),
    ('int minus pointer', 's', '@g_p = 1 - g_p;', 'g_p = 1 + g_p; --g_p;'),
    ('pointer minus other pointer', 's', '@g_i = g_p - (char *)0;', 'g_i = g_p - &g_i;'),
    ('pointer plus double', 's', '@g_p = g_p + g_d;', 'g_p = g_p + (int)(g_d * 0);'),
    ('mod double', 's', '@g_i = g_d % 2;', 'g_i = (int)g_d % 2;'),
    ('mod by double', 's', '@g_i = g_i % 2.5;', 'g_i = g_i % 2;'),
    ('and double', 's', '@g_i = g_d & 1;', 'g_i = g_i & 1;'),
    ('or double', 's', '@g_i = 1 \\| g_d;', 'g_i = 1 \\| (int)g_d;'),
    ('xor double', 's', '@g_i = 1.5 ^ g_i;', 'g_i = 1 ^ g_i;'),
    ('shift double', 's', '@g_i = g_d << 1;', 'g_i = 3 << 1;'),
    ('shift by double', 's', '@g_i = 1 >> g_d;', 'g_i = 1 >> (int)g_d;'),
    ('complement double', 's', '@g_i = ~g_d;', 'g_i = ~(int)g_d;'),
    ('complement pointer', 's', '@g_i = ~g_p;', 'g_i = ~*g_p;'),
    ('negate pointer', 's', '@g_i = -g_p;', 'g_i = -*g_p;'),
    ('plus struct', 's', '@g_i = +g_s;', 'g_i = +g_s.m;'),
    ('not struct', 's', '@g_i = !g_s;', 'g_i = !g_s.m;'),
    ('compare struct', 's', '@g_i = g_s $R g_s;', 'g_i = g_s.m $R g_s.m;'),
    ('compare struct with int', 's', '@g_i = g_t $R 1;', 'g_i = g_t.m $R 1;'),
    ('condition is struct', 's', '@if (g_s) g_i = 1;', 'if (g_s.m) g_i = 1;'),
    ('ternary struct and int', 's', '@g_i = g_i ? g_t : 1;', 'g_i = g_i ? g_t.m : 1;'),
    ('void value used', 's', '@g_i = g_v();', 'g_i = (g_v(), 1);'),
    ('void value added', 's', '@g_i = 1 $O g_v();', 'g_i = 1 $O (g_v(), 1);'),
    ('void as argument', 's', '@g_f2(g_v(), 0);', 'g_f2((g_v(), 0), 0);'),
    ('address of constant', 's', '@g_p = &$N;', 'g_p = &g_i;'),
    ('address of sum', 's', '@g_p = &(g_i + 1);', 'g_p = &g_i + 1; --g_p;'),
    ('address of call', 's', '@g_p = &g_f0();', 'int $a = g_f0(); g_p = &$a; g_p = &g_i;'),
    ('address of bit-field', 's', '@g_p = &g_s.bf;', 'g_p = &g_s.m; g_p = &g_i;'),
    ('sizeof bit-field', 's', '@g_i = sizeof(g_s.bf);', 'g_i = sizeof(g_s.m);'),
    # ---- assignment
    ('assign to constant', 's', '@$N = g_i;', 'g_i = $N;'),
    ('assign to sum', 's', '@g_i + 1 = 2;', 'g_i = 1 + 2;'),
    ('assign to call', 's', '@g_f0() = 2;', 'g_i = g_f0();'),
    ('assign to cast', 's', '@(long)g_i = 2;', 'g_i = (long)2;'),
    ('assign to comparison', 's', '@g_i == 1 = 2;', 'g_i = 1 == 2;'),
    ('assign to array', 's', '@g_arr = 0;', 'g_arr[0] = 0;'),
    ('assign to function', 's', '@g_f0 = 0;', 'int (*$a)(void) = 0; $a = g_f0; g_i = $a();'),
    ('assign to enumerator', 's', '@GE1 = 3;', 'enum GE $a = 3; g_i = $a;'),
    ('assign to string', 's', '@"abc" = 0;', 'const char *$a = "abc"; $a = 0; g_i = $a == 0;'),
    ('assign to const', 's', '@g_ci = 1;', 'g_i = g_ci;'),
    ('assign through const pointer', 's', '@*g_cp = 1;', 'g_cp = &g_i; g_i = *g_cp;'),
    ('assign to const member', 's', '@g_s.cm = 1;', 'g_s.m = g_s.cm;'),
    ('assign to const member by pointer', 's', '@g_ps->cm = 1;', 'g_ps->m = g_ps->cm;'),
    ('assign to member of const struct', 's', '@g_cs.m = 1;', 'g_s.m = g_cs.m;'),
    ('assign to nested member of const', 's', '@g_cs.s.in = 1;', 'g_s.s.in = g_cs.s.in;'),
    ('assign to element of const', 's', '@g_cs.arr[1] = 1;', 'g_s.arr[1] = g_cs.arr[1];'),
    ('assign to member by pointer to const struct', 's', 'const struct GS *$a = &g_s;|@$a->m = 1;', 'const struct GS *$a = &g_s;|g_i = $a->m;'),
    ('assign to bit-field by pointer to const struct', 's', 'const struct GS *$a = &g_s;|@$a->bf = 1;', 'const struct GS *$a = &g_s;|g_i = $a->bf;'),
    ('assign to element of member by pointer to const struct', 's', 'const struct GS *$a = &g_s;|@$a->arr[1] = 1;', 'const struct GS *$a = &g_s;|g_i = $a->arr[1];'),
    ('assign to nested member by pointer to const struct', 's', 'const struct GS *$a = &g_s;|@$a->s.in = 1;', 'const struct GS *$a = &g_s;|g_i = $a->s.in;'),
    ('increment of member by pointer to const struct', 's', 'const struct GS *$a = &g_s;|@$a->m++;', 'const struct GS *$a = &g_s;|g_i = $a->m;'),
    ('assign to member of dereferenced pointer to const struct', 's', 'const struct GS *$a = &g_s;|@(*$a).m = 1;', 'const struct GS *$a = &g_s;|g_i = (*$a).m;'),
    ('assign to const pointer', 's', 'int *const $a = &g_i;|@$a = 0;', 'int *const $a = &g_i;|*$a = 1;'),
    ('assign to const double', 's', 'const double $a = 1;|@$a = 2;', 'double $a = 1;|$a = 2; g_d = $a;'),
    ('assign to const parameter', 'f', 'static int $a(const $I $b) {|@$b = 1; return $b; }', 'static int $a($I $b) {|$b = 1; return $b; }'),
    ('assign to element of const array', 's', 'const int $a[3] = {1, 2, 3};|@$a[$N & 1] = 1;', 'int $a[3] = {1, 2, 3};|$a[$N & 1] = 1; g_i = $a[0];'),
    ('assign to const typedef array', 's', 'typedef int $t[2]; const $t $a = {1, 2};|@$a[0] = 1;', 'typedef int $t[2]; $t $a = {1, 2};|$a[0] = 1; g_i = $a[1];'),
    ('increment const', 's', '@++g_ci;', '++g_i;'),
    ('post-decrement const', 's', '@g_ci--;', 'g_i--;'),
    ('increment constant', 's', '@$N++;', 'g_i++;'),
    ('increment sum', 's', '@++(g_i + 1);', '++g_i;'),
    ('increment struct', 's', '@g_s++;', 'g_s.m++;'),
    ('compound assignment to const', 's', '@g_ci += 1;', 'g_i += 1;'),
    ('compound assignment to constant', 's', '@$N += 1;', 'g_i += 1;'),
    ('struct from int', 's', '@g_t = $N;', 'g_t.m = $N;'),
    ('int from struct', 's', '@g_i = g_t;', 'g_i = g_t.m;'),
    ('struct from other struct', 's', '@g_t = g_s;', 'g_t.m = g_s.m;'),
    ('pointer from double', 's', '@g_p = g_d;', 'g_p = &g_i;'),
    ('double from pointer', 's', '@g_d = g_p;', 'g_d = *g_p;'),
    ('pointer from struct', 's', '@g_p = g_s;', 'g_p = &g_s.m; g_p = &g_i;'),
    ('cast struct to int', 's', '@g_i = (int)g_s;', 'g_i = (int)g_s.m;'),
    ('cast int to struct', 's', '@g_t = (struct GT)$N;', 'g_t = (struct GT){$N};'),
    ('cast pointer to double', 's', '@g_d = (double)g_p;', 'g_d = (double)*g_p;'),
    ('cast double to pointer', 's', '@g_p = (int *)g_d;', 'g_p = (int *)(long)(g_d * 0); g_p = &g_i;'),
    # ---- calls
    ('too few arguments', 's', '@g_f2(1);', 'g_f2(1, 0);'),
    ('too many arguments', 's', '@g_f2(1, 0, $N);', 'g_f2(1, 0);'),
    ('arguments to none', 's', '@g_f0($N);', 'g_f0();'),
    ('no fixed argument', 's', '@g_fv();', 'g_fv("x");'),
    ('too few by pointer', 's', 'int (*$a)(int, char *) = g_f2;|@g_i = $a(1);', 'int (*$a)(int, char *) = g_f2;|g_i = $a(1, 0);'),
    ('too many by expression', 's', 'int (*$a[2])(int, char *) = {g_f2, g_f2};|@g_i = (*$a[1])(1, 0, $N);', 'int (*$a[2])(int, char *) = {g_f2, g_f2};|g_i = (*$a[1])(1, 0);'),
    ('too few by expression', 's', '@g_i = (g_i ? g_f2 : g_f2)(1);', 'g_i = (g_i ? g_f2 : g_f2)(1, 0);'),
    ('argument struct for int', 's', '@g_f2(g_s, 0);', 'g_f2(g_s.m, 0);'),
    ('argument double for pointer', 's', '@g_f2(1, g_d);', 'g_f2(1, (char *)0);'),
    ('argument int for struct', 'f', 'static int $a(struct GT $b) { return $b.m; }|@int $c(void) { return $a(1); }', 'static int $a(struct GT $b) { return $b.m; }|int $c(void) { return $a(g_t); }'),
    ('return value from void', 'f', 'void $a(void) {|@return $N; }', 'void $a(void) {|return; }'),
    ('return without value', 'f', 'int $a(void) {|@return; }', 'int $a(void) {|return $N; }'),
    ('return struct for int', 'f', 'int $a(void) {|@return g_s; }', 'int $a(void) {|return g_s.m; }'),
    ('return int for struct', 'f', 'struct GT $a(void) {|@return $N; }', 'struct GT $a(void) {|return g_t; }'),
    ('return double for pointer', 'f', 'int *$a(void) {|@return g_d; }', 'int *$a(void) {|return g_p; }'),
    # ---- statements
    ('break outside', 's', '@break;', 'while (1) break;'),
    ('continue outside', 's', '@continue;', 'for (int $a = 0; $a < 2; ++$a) continue;'),
    ('continue in switch only', 's', 'switch (g_i) { case $N:|@continue; }', 'switch (g_i) { case $N:|break; }'),
    ('case outside', 's', '@case $N: g_i = 1;', 'switch (g_i) { case $N: g_i = 1; }'),
    ('default outside', 's', '@default: g_i = 1;', 'switch (g_i) { default: g_i = 1; }'),
    ('duplicate case', 's', 'switch (g_i) { case $N: break;|@case $N: break; }', 'switch (g_i) { case $N: break;|case -$N - 1: break; }'),
    ('duplicate case by value', 's', 'switch (g_i) { case $N + 1: break;|case 1: ;|@case 1 + $N: break; }', 'switch (g_i) { case $N + 1: break;|case 0: ;|case 2 + $N: break; }'),
    ('duplicate case of chars', 's', "switch (g_i) { case 'a': break;|@case 97: break; }", "switch (g_i) { case 'a': break;|case 98: break; }"),
    ('duplicate default', 's', 'switch (g_i) { default: break;|@default: break; }', 'switch (g_i) { default: break;|case 1: break; }'),
    ('case not constant', 's', 'switch (g_i) {|@case g_i: break; }', 'switch (g_i) {|case GE1: break; }'),
    ('switch on double', 's', '@switch (g_d) { case 1: break; }', 'switch ((int)g_d) { case 1: break; }'),
    ('switch on struct', 's', '@switch (g_s) { default: break; }', 'switch (g_s.m) { default: break; }'),
    ('goto nowhere', 's', '@goto $a;', 'goto $a;|$a: g_i = 1;'),
    ('label twice', 's', 'if (g_i == 77) goto $a;|$a: g_i = 1;|@$a: g_i = 2;', 'if (g_i == 77) goto $a;|$a: g_i = 1;|g_i = 2;'),
    ('label of another function', 'f', 'void $a(void) { goto $b; $b:; }|@void $c(void) { goto $b; }', 'void $a(void) { goto $b; $b:; }|void $c(void) { goto $b; $b:; }'),
    ('else without if', 's', '@else g_i = 1;', 'if (g_i) ; else g_i = 1;'),
    ('do without while', 's', 'do g_i = 1;|@@g_i = 2;', 'do g_i = 1;|while (0);'),
    ('while without parenthesis', 's', '@while g_i > 100 ;', 'while (g_i > 100) ;'),
    ('for with two parts', 's', '@for (g_i = 0; g_i < 1) ;', 'for (g_i = 0; g_i < 1; ++g_i) ;'),
    ('if without condition', 's', '@if () g_i = 1;', 'if (1) g_i = 1;'),
    # ---- syntax
    ('missing semicolon', 's', '@@g_i = 1|g_i = 2;', 'g_i = 1;|g_i = 2;'),
    ('missing semicolon of declaration', 's', '@@int $a = 1|g_i = 2;', 'int $a = 1;|g_i = $a;'),
    ('missing operand', 's', '@g_i = 1 $O ;', 'g_i = 1 $O 1;'),
    ('missing right parenthesis', 's', '@g_i = (1 + 2;', 'g_i = (1 + 2);'),
    ('missing right bracket', 's', '@g_i = g_arr[1;', 'g_i = g_arr[1];'),
    ('extra right parenthesis', 's', '@g_i = 1 + 2);', 'g_i = (1 + 2);'),
    ('two operands', 's', '@g_i = 1 2;', 'g_i = 1 + 2;'),
    ('missing colon', 's', '@g_i = g_i ? 1 2;', 'g_i = g_i ? 1 : 2;'),
    ('type alone in expression', 's', '@g_i = int;', 'g_i = (int)1;'),
    ('missing comma in call', 's', '@g_f2(1 0);', 'g_f2(1, 0);'),
    ('missing argument', 's', '@g_f2(1, );', 'g_f2(1, 0);'),
    ('missing declarator', 's', '@int = 3;', 'int $a = 3; g_i = $a;'),
    ('number as name', 's', '@int $Nx = 3;', 'int x$N = 3; g_i = x$N;'),
    ('keyword as name', 's', '@int while = 3;', 'int While = 3; g_i = While;'),
    ('keyword as member', 'f', '@struct $a { int return; };', 'struct $a { int Return; };'),
    ('missing member name', 'f', '@struct $a { int *; };', 'struct $a { int *$b; };'),
    ('missing semicolon of member', 'f', '@@struct $a { int $b|};', 'struct $a { int $b;|};'),
    ('missing brace of enum', 'f', '@@enum $a { $b, $c;|int $d;', 'enum $a { $b, $c };|int $d;'),
    ('statement at file scope', 'f', '@g_i = $N;', 'int $a = $N;'),
    ('if at file scope', 'f', '@if (1) ;', 'void $a(void) { if (1) ; }'),
    ('stray at sign', 's', '@g_i = 1 @@ 2;'.replace('@@', '\x40'), 'g_i = 1 + 2;'),
    ('stray backquote', 's', '@g_i = ` 2;', 'g_i = + 2;'),
    ('string not closed', 's', '@g_fv("abc);', 'g_fv("abc");'),
    ('char not closed', 's', "@g_i = 'a;", "g_i = 'a';"),
    ('empty char', 's', "@g_i = '';", "g_i = ' ';"),
    ('bad suffix', 's', '@g_i = 12uu;', 'g_i = 12u;'),
    ('bad long suffix', 's', '@g_i = 12lll;', 'g_i = 12ll;'),
    ('number followed by letters', 's', '@g_i = 12abc;', 'g_i = 12;'),
    ('octal with 9', 's', '@g_i = 0129;', 'g_i = 0127;'),
    # ---- types
    ('int double', 'f', '@int double $a;', 'double $a;'),
    ('signed unsigned', 'f', '@signed unsigned $a;', 'unsigned $a;'),
    ('short long', 'f', '@short long $a;', 'long $a;'),
    ('long long long', 'f', '@long long long $a;', 'long long $a;'),
    ('unsigned float', 'f', '@unsigned float $a;', 'float $a;'),
    ('long char', 'f', '@long char $a;', 'long int $a;'),
    ('long struct', 'f', '@unsigned struct GT $a;', 'struct GT $a;'),
    ('two types', 'f', '@int struct GT $a;', 'struct GT $a;'),
    ('static extern', 'f', '@static extern int $a;', 'extern int $a;'),
    ('typedef static', 'f', '@typedef static int $a;', 'typedef int $a;'),
    ('static parameter', 'f', '@int $a(static int $b) { return $b; }', 'int $a(int $b) { return $b; }'),
    ('extern parameter', 'f', '@int $a(extern int $b) { return $b; }', 'int $a(int $b) { return $b; }'),
    ('void variable', 's', '@void $a;', 'void *$a = 0; g_i = $a == 0;'),
    ('void global', 'f', '@void $a;', 'void *$a;'),
    ('void member', 'f', '@struct $a { void $b; };', 'struct $a { void *$b; };'),
    ('void parameter', 'f', '@int $a(int $b, void $c) { return $b; }', 'int $a(int $b, void *$c) { return $b + !$c; }'),
    ('array of void', 'f', '@void $a[3];', 'void *$a[3];'),
    ('negative array', 's', '@int $a[-1];', 'int $a[1]; $a[0] = 1; g_i = $a[0];'),
    ('negative array by expression', 'f', '@int $a[$N - $N - 1];', 'int $a[$N - $N + 1];'),
    ('array size not integer', 's', '@int $a[2.5];', 'int $a[2]; $a[0] = 1; g_i = $a[0];'),
    ('array size not constant', 'f', '@int $a[g_i];', 'int $a[GE1];'),
    ('array size is pointer', 's', '@int $a[g_p];', 'int $a[2]; $a[0] = 1; g_i = $a[0];'),
    ('array of unsized arrays', 'f', '@extern int $a[3][];', 'extern int $a[][3];'),
    ('function returning array', 'f', '@int $a(void)[3];', 'int (*$a(void))[3];'),
    ('variable array with initializer', 's', 'int $b = 2;|@int $a[$b] = {1, 2};', 'int $b = 2;|int $a[$b]; $a[0] = $b; g_i = $a[0];'),
    ('variable array member', 's', 'int $b = 2; g_i = $b;|@struct { int x[$b]; } $a;', 'int $b = 2; g_i = $b;|struct { int x[2]; } $a = {{1}}; g_i = $a.x[0];'),
    ('bit-field too wide', 'f', '@struct $a { int $b : 33; };', 'struct $a { int $b : 32; };'),
    ('bit-field of char too wide', 'f', '@struct $a { char $b : 9; };', 'struct $a { char $b : 8; };'),
    ('bit-field zero with name', 'f', '@struct $a { int $b : 0; int $c; };', 'struct $a { int : 0; int $c; };'),
    ('bit-field negative', 'f', '@struct $a { int $b : -1; };', 'struct $a { int $b : 1; };'),
    ('bit-field not constant', 'f', '@struct $a { int $b : g_i; };', 'struct $a { int $b : GE1; };'),
    ('bit-field of double', 'f', '@struct $a { double $b : 3; };', 'struct $a { unsigned $b : 3; };'),
    ('bit-field of pointer', 'f', '@struct $a { int *$b : 3; };', 'struct $a { int $b : 3; };'),
    ('member of function type', 'f', '@struct $a { int x; int $b(void); };', 'struct $a { int x; int (*$b)(void); };'),
    ('member of function type by typedef', 'f', 'typedef int $a(int);|@struct $b { $a m; };', 'typedef int $a(int);|struct $b { $a *m; };'),
    ('member twice, apart', 'f', '@struct $a { int $b; char c1; double c2[3]; int $b; };', 'struct $a { int $b; char c1; double c2[3]; int b2; };'),
    ('member twice, declarators', 'f', '@struct $a { int $b, *c1, c2[2], (*$b)(void); };', 'struct $a { int $b, *c1, c2[2], (*b2)(void); };'),
    ('bit-field twice', 'f', '@struct $a { unsigned $b : 3, : 0, c : 4, $b : 2; };', 'struct $a { unsigned $b : 3, : 0, c : 4, d : 2; };'),
    ('member twice in union', 'f', '@union $a { int $b; char c1; long $b; };', 'union $a { int $b; char c1; long b2; };'),
    ('member twice in nested', 'f', '@struct $a { int x; struct { int $b; char y; int $b; } n; };', 'struct $a { int x; struct { int $b; char y; int x; } n; };'),
    ('enumerator twice, apart', 'f', '@enum $a { $b = 3, E1$a, E2$a = $N, $b };', 'enum $a { $b = 3, E1$a, E2$a = $N, $c };'),
    ('enumerator of two enumerations', 'f', 'enum { $a, $b = 4 };|@enum $c { C1$a, $b = 4 };', 'enum { $a, $b = 4 };|enum $c { C1$a, C2$b = 4 };'),
    ('duplicate case, apart', 's', 'switch (g_i) { case $N: break; default: g_i = 1; break; case -7: ;|@case $N: break; }', 'switch (g_i) { case $N: break; default: g_i = 1; break; case -7: ;|case -$N - 9: break; }'),
    ('duplicate case in nested block', 's', 'switch (g_i) { case 1: break; case $N + 20: { g_i = 2;|@case $N + 20: break; } }', 'switch (g_i) { case 1: break; case $N + 20: { g_i = 2;|case 7 - 9: break; } }'),
    ('duplicate case after nested switch', 's', 'switch (g_i) { case $N: switch (g_i) { case 500: ; } break;|@case $N: break; }', 'switch (g_i) { case $N: switch (g_i) { case 500: ; } break;|case 500: break; }'),
    ('duplicate default, apart', 's', 'switch (g_i) { default: break; case 1: case 2: if (g_i) {|@default: break; } }', 'switch (g_i) { default: break; case 1: case 2: if (g_i) {|case 3: break; } }'),
    ('label twice, apart', 's', 'if (g_i == 77) goto $a;|$a: g_i = 1; if (g_i == 3) { for (;;) { g_i = 2;|@$a: g_i = 2; break; } }', 'if (g_i == 77) goto $a;|$a: g_i = 1; if (g_i == 3) { for (;;) { g_i = 2;|break; } }'),
    ('parameter twice', 'f', '@static int $a(int $b, char *c, int $b) { return $b; }', 'static int $a(int $b, char *c, int d) { return $b; }'),
    ('generic two defaults, apart', 's', '@g_i = _Generic(g_d, default: 1, char: 3, default: 2);', 'g_i = _Generic(g_d, default: 1, char: 3, int: 2);'),
    ('generic two defaults, last', 's', '@g_i = _Generic(g_d, int: 4, default: 1, long: 7, char *: 3, default: 2);', 'g_i = _Generic(g_d, int: 4, default: 1, long: 7, char *: 3);'),
    ('parameter shadowed by local, later', 'f', 'static int $a(int x, int $b) { x++; {  x--; }|@double $b = x; return $b; }', 'static int $a(int x, int $b) { x++; {  x--; }|{ double $b = x; return $b; } }'),
    ('local twice, apart', 's', 'int $a = 1; { int $b = $a; g_i = $b; for (int $a = 0; $a < 2; ++$a) ; }|@char $a = 2;', 'int $a = 1; { int $b = $a; g_i = $b; for (int $a = 0; $a < 2; ++$a) ; }|{ char $a = 2; g_i = $a; }'),
    ('local function and variable', 's', 'int $a(void);|@int $a = 2;', 'int $a(void);|{ int $a = 2; g_i = $a; }'),
    ('short bit-field too wide', 'f', '@struct $a { short $b : 17; };', 'struct $a { short $b : 16; };'),
    ('char bit-field too wide', 'f', '@struct $a { unsigned char x : 3, $b : 9; };', 'struct $a { unsigned char x : 3, $b : 8; };'),
    ('long bit-field too wide', 'f', '@struct $a { unsigned long $b : 65; };', 'struct $a { unsigned long $b : 64; };'),
    ('designator twice into nothing', 's', '@struct GS $a = { .m = 1, .s.in = 2, .s.$b = 3 };', 'struct GS $a = { .m = 1, .s.in = 2, .arr[1] = 3 }; g_i = $a.m;'),
    ('array designator out of range, nested', 's', '@struct GS $a = { .arr = { [1] = 1, [3] = 2 } };', 'struct GS $a = { .arr = { [1] = 1, [2] = 2 } }; g_i = $a.m;'),
    ('member twice', 'f', '@struct $a { int $b; double $b; };', 'struct $a { int $b; double $c; };'),
    ('flexible array not last', 'f', '@struct $a { int $b; int $c[]; int $d; };', 'struct $a { int $b; int $d; int $c[]; };'),
    ('enumerator not constant', 'f', '@enum { $a = g_i };', 'enum { $a = $N };'),
    ('enumerator double', 'f', '@enum { $a = 1.5 };', 'enum { $a = 1 };'),
    ('generic without match', 's', '@g_i = _Generic(g_d, int: 1, char: 2);', 'g_i = _Generic(g_d, int: 1, double: 2);'),
    ('generic two defaults', 's', '@g_i = _Generic(g_d, default: 1, default: 2);', 'g_i = _Generic(g_d, default: 1, int: 2);'),
    # ---- initialisers
    ('excess elements', 's', '@int $a[2] = {1, 2, 3};', 'int $a[2] = {1, 2}; g_i = $a[1];'),
    ('excess elements at file scope', 'f', '@int $a[2] = {1, 2, 3};', 'int $a[2] = {1, 2};'),
    ('excess members', 's', '@struct GT $a = {1, 2};', 'struct GT $a = {1}; g_i = $a.m;'),
    ('excess for scalar', 's', '@int $a = {1, 2};', 'int $a = {1}; g_i = $a;'),
    ('string too long', 's', '@char $a[3] = "abcd";', 'char $a[3] = "abc"; g_i = $a[0];'),
    ('array from int', 's', '@int $a[2] = $N;', 'int $a[2] = {$N}; g_i = $a[0];'),
    ('array from pointer', 's', '@int $a[2] = g_p;', 'int $a[2] = {*g_p}; g_i = $a[0];'),
    ('int array from string', 's', '@int $a[] = "abc";', 'char $a[] = "abc"; g_i = $a[0];'),
    ('struct from int in initializer', 's', '@struct GT $a = $N;', 'struct GT $a = {$N}; g_i = $a.m;'),
    ('int from struct in initializer', 's', '@int $a = g_t;', 'int $a = g_t.m; g_i = $a;'),
    ('pointer from double in initializer', 's', '@int *$a = g_d;', 'int *$a = &g_i; *$a = 1;'),
    ('double from pointer in initializer', 's', '@double $a = g_p;', 'double $a = *g_p; g_d = $a;'),
    ('unknown designator', 's', '@struct GT $a = { .$b = 1 };', 'struct GT $a = { .m = 1 }; g_i = $a.m;'),
    ('unknown designator at file scope', 'f', '@struct GT $a = { .$b = 1 };', 'struct GT $a = { .m = 1 };'),
    ('designator out of bounds', 's', '@int $a[2] = { [2] = 1 };', 'int $a[2] = { [1] = 1 }; g_i = $a[1];'),
    ('designator negative', 's', '@int $a[2] = { [-1] = 1 };', 'int $a[2] = { [0] = 1 }; g_i = $a[1];'),
    ('index designator for struct', 's', '@struct GT $a = { [0] = 1 };', 'struct GT $a = { .m = 1 }; g_i = $a.m;'),
    ('member designator for array', 's', '@int $a[2] = { .m = 1 };', 'int $a[2] = { [0] = 1 }; g_i = $a[1];'),
    ('static not constant', 'f', '@int $a = g_i;', 'int $a = GE1;'),
    ('static local not constant', 's', '@static int $a = g_f0();', 'static int $a = 1 + GE1; g_i = $a;'),
    ('static from call', 'f', '@int $a = g_f0();', 'int $a = sizeof(g_f0());'),
    ('static not constant in array', 'f', '@int $a[] = {1, g_i};', 'int $a[] = {1, GE1};'),
    ('static not constant in struct', 'f', '@struct GT $a = {g_i + 1};', 'struct GT $a = {GE1 + 1};'),
    ('static deref', 'f', '@int $a = *&g_i;', 'int *$a = &g_i;'),
    ('extern local with initializer', 's', '@extern int $a = 1;', 'extern int $a; g_p = &$a; g_p = &g_i;'),
    ('variable is its own size', 'f', '@int $a[$a];', 'int $a[1];'),
    ('compound literal of incomplete', 's', '@g_i = (struct GInc){1}.x;', 'g_i = (struct GT){1}.m;'),
    # ---- directives
    ('#error', 'p', '@#error something $N', '/* #error something */'),
    ('#error in taken branch', 'p', '#if $N > 0|@#error taken|#endif', '#if $N < 0|#error taken|#endif'),
    ('#error in else', 'p', '#ifdef $a|int $b;|#else|@#error taken|#endif', '#ifndef $a|int $b;|#else|#error taken|#endif'),
    ('#include of nothing', 'p', '@#include "$a.h"', '#if 0|#include "$a.h"|#endif'),
    ('unknown directive', 'p', '@#$a 1', '#if 0|#$a 1|#endif'),
    ('#else without #if', 'p', '@#else', '#if 1|#else|#endif'),
    ('#endif without #if', 'p', '@#endif', '#if 1|#endif'),
    ('#elif without #if', 'p', '@#elif 1', '#if 0|#elif 1|#endif'),
    ('#else twice', 'p', '#if 1|#else|@#else|#endif', '#if 1|#elif 1|#else|#endif'),
    ('too few macro arguments', 'p', '#define $a(x, y) x + y|@int $b = $a(1);', '#define $a(x, y) x + y|int $b = $a(1, 2);'),
    ('too many macro arguments', 'p', '#define $a(x, y) x + y|@int $b = $a(1, 2, 3);', '#define $a(x, y) x + y|int $b = $a(1, (2 + 3));'),
    ('undeclared name in macro body', 'p', '@#define $a(x) x + $b|int $c(void) {|@return $a(1); }', '#define $a(x) x + 2|int $c(void) {|return $a(1); }'),
    ('#if without expression', 'p', '@#if|#endif', '#if 0|#endif'),
    ('#if with trailing operator', 'p', '@#if 1 +|#endif', '#if 1 + 1|#endif'),
    ('#if with unbalanced parenthesis', 'p', '@#if (1|#endif', '#if (1)|#endif'),
]

# Values which an optimizer might reduce to an operand, used as lvalues.
for _n, _v in [('times 1', '(%s * 1)'), ('1 times', '(1 * %s)'), ('over 1', '(%s / 1)'), ('xor 0', '(%s ^ 0)'), ('0 xor', '(0 ^ %s)'), ('plus 0', '(%s + 0)'), ('minus 0', '(%s - 0)'),
               ('0 plus', '(0 + %s)'), ('shifted by 0', '(%s << 0)'), ('unary plus', '(+%s)'), ('negated twice', '(- -%s)'), ('chosen by 1', '(1 ? %s : 0)'),
               ('chosen by 0', '(0 ? 0 : %s)'), ('after comma', '(0, %s)'), ('after comma and effect', '(g_i++, %s)'), ('cast to its type', '((int)%s)'), ('assignment', '(%s = 2)'),
               ('incremented', '(%s++)'), ('conditional', '(g_i ? %s : %s)'), ('and all', '(%s & -1)')]:
    for _k, _o in [('g_i', 'variable'), ('g_s.m', 'member'), ('g_arr[1]', 'element'), ('(*g_p)', 'pointee')]:
        _x = _v.replace('%s', _k)
        for _f, _g in [('@%s = $N;', 'g_i = %s;'), ('@%s += $N;', 'g_i += %s;'), ('@%s++;', 'g_i = -%s;'), ('@g_p = &%s;', 'g_arr[0] = %s;')]:
            E.append(('%s of %s as lvalue' % (_n, _o), 's', _f % _x, _g % _x))

FILL_S = ['g_i = g_i + 1;', 'if (g_i > 1000) { g_i = 0; } else { }', '{ int tmp = 3; g_i += tmp; }', ';', '/* a comment */', '// line comment', 'g_d = g_i * 0.5;', 'g_arr[1] = g_i;',
          'for (int k = 0; k < 2; ++k) g_arr[k] = k;', '/* a comment', '   of several', '   lines */', 'g_i = g_i \\', '  + 1;', '', 'g_fv("text %d", 1);', 'do { g_i++; } while (g_i < 3);', 'switch (g_i) { case 1: g_i = 2; break; default: break; }']
FILL_F = ['static int f_%d(int x) { return x + 1; }', 'extern int e_%d;', 'typedef int t_%d;', 'struct s_%d { int a; };', '// line comment %d', '/* comment %d */', '/* several\n lines %d\n*/', '#define D_%d(x) ((x) + \\\n  1)', '', 'enum { K_%d };', 'static const char *str_%d = "a" \\\n "b";', '#if 0\nnothing of this # %d "\n#endif', 'static int\narr_%d[] = { 1,\n 2 };']
WRAP = ['%s', '{ %s }', 'if (g_i) { %s }', 'for (int w = 0; w < 1; ++w) { %s }', 'while (g_i > 1000) { %s }', 'do { %s } while (0);', '{ { %s } }', 'if (!g_i) { } else { %s }', 'switch (g_i) { case 90: { %s } }', '(void)({ %s; });']
LOOPS = ('for', 'while', 'do', 'switch')


class BadProg:
    """.files: name -> text; .where: (file, set of acceptable lines) or None when the program is valid."""

    def __init__(self, r, ent, bad):
        name, kind, btext, gtext = ent
        self.r, self.name, self.bad = r, name, bad
        sub = {}

        def rep(m):
            k = m.group(1)
            if k not in sub:
                sub[k] = (str(r.randrange(100, 1000)) if k == 'N' else r.choice(['+', '-', '*', '/']) if k == 'O' else r.choice(['==', '!=', '<', '>=']) if k == 'R' else
                          r.choice(['int', 'short', 'char', 'long', 'unsigned']) if k in 'IJ' else r.choice(['v', 'name_', 'xyz', 'A', '_q']) + r.choice('abcdef') + '%d%s' % (r.randrange(100), k))
            return sub[k]
        text = re.sub(r'\$([A-Za-z])', rep, btext if bad else gtext)
        self.text = text
        lines, off, loose = [], [], False
        for l in text.replace('\\|', '\0').split('|'):
            l = l.replace('\0', '|')
            m = re.match(r'^(@@?)', l)
            if m:
                loose = m.group(1) == '@@'
                l = l[len(m.group(1)):]
                off.append(len(lines))
            lines.append(l)
        self.via = r.choice(['plain', 'plain', 'plain', 'include', 'include', 'macro'])
        if kind in 'p' or any('#' in l for l in lines) or '//' in text:
            if self.via == 'macro':
                self.via = 'plain'
        files = {}
        fill = lambda n: [x % r.randrange(10000) if '%d' in x else x for x in (r.choice(FILL_F) for _ in range(n))]
        used = set()

        def ffill(n):
            out = []
            for _ in range(n):
                f = r.choice(FILL_F)
                if '%d' in f:
                    k = r.randrange(10 ** 6)
                    while k in used:
                        k = r.randrange(10 ** 6)
                    used.add(k)
                    f = f % k
                out += f.split('\n')
            return out

        def sfill(n):
            out = []
            i = 0
            while i < n:
                k = r.randrange(len(FILL_S))
                if FILL_S[k].startswith(('   of', '   lines', '  + 1')):
                    continue
                if FILL_S[k] == '/* a comment':
                    out += FILL_S[k:k + 3]
                elif FILL_S[k].endswith('\\'):
                    out += FILL_S[k:k + 2]
                else:
                    out.append(FILL_S[k])
                i += 1
            return out
        seg, at = lines, off                     # text lines and positions of the offence in it
        if kind in 'sl':
            pre, post = sfill(r.randrange(6)), sfill(r.randrange(6))
            w = r.choice(WRAP)
            if name.startswith(('break', 'continue')) and w.startswith(LOOPS) or name.startswith(('case', 'default')) and w.startswith('switch'):
                w = '{ %s }'
            if w.startswith('(void)') and not w.endswith('%'):
                if self.via == 'macro' or 'label' in name or 'goto' in name:
                    w = '%s'
            self.wrap = w
            a, b = w.split('%s') if w != '%s' else ('', '')
            if b == '; });':
                b = ' ; });'
        else:
            pre, post, a, b = ffill(r.randrange(4)), ffill(r.randrange(4)), '', ''
            self.wrap = ''
        accept = set()
        body = []
        main = 'p.c'
        if kind in 'sl':
            head = PRE.rstrip('\n').split('\n') + ffill(r.randrange(4)) + ['int h_%d(void) {' % r.randrange(1000)] + pre
            tail = post + ['return g_i; }'] + ffill(r.randrange(3)) + ['int main(void) {', 'return 0; }']
        else:
            head = PRE.rstrip('\n').split('\n') + pre
            tail = post + ['int main(void) {', 'return 0; }']
        ctx = None
        if self.via == 'include' and not (bad and name in ('#else without #if', '#endif without #if', '#elif without #if')):
            inc = r.choice(['inc.h', 'sub.inc', 'deep/er.h'])
            hl = [] if kind in 'sl' else ffill(r.randrange(4))
            hl = hl + (sfill(r.randrange(5)) if kind in 'sl' else [])
            files[inc] = '\n'.join(hl + seg + ['']) + ('\n' if r.random() < .8 else '')
            ctx = (inc, {len(hl) + i + 1 for i in at} | ({len(hl) + i + 2 for i in at} if loose else set()))
            mid = [a] * bool(a) + ['#include "%s"' % inc] + [b] * bool(b)
            if loose:
                # what follows the included text
                self.also = (main, {len(head) + bool(a) + 1, len(head) + bool(a) + 2})
            src = head + mid + tail
        elif self.via == 'macro' and kind in 'sf' and len(lines) == 1:
            mn = 'MAC_%d' % r.randrange(1000)
            k = len(head)
            d = ['#define %s %s' % (mn, seg[0])]
            sp = r.randrange(0, len(PRE.rstrip('\n').split('\n')) + 1)
            # the definition goes to the top of the file
            src = d + head + [a] * bool(a) + [mn] + [b] * bool(b) + tail
            ln = 1 + k + bool(a) + 1
            ctx = (main, {ln} | ({ln + 1} if loose else set()))
            ctx = (main, ctx[1] | {1})       # the text of the macro is at line 1
        else:
            self.via = 'plain'
            k = len(head) + bool(a)
            src = head + [a] * bool(a) + seg + [b] * bool(b) + tail
            ctx = (main, {k + i + 1 for i in at} | ({k + i + 2 for i in at} if loose else set()))
        files[main] = '\n'.join(src) + '\n'
        self.files, self.where = files, ctx if bad else None
        if not hasattr(self, 'also'):
            self.also = None
