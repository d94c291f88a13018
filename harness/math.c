/* math.h of the library under test (symbols prefixed x_) against the host's long double functions.
   usage: math SEED COUNT [verbose] */
#define _GNU_SOURCE
#include <float.h>
#include <limits.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef unsigned long long u64;
static u64 st;
static u64 rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static int R(int n) { return (int)((rnd() >> 20) % n); }

#define F1(f) extern double x_##f(double);
F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh) F1(sqrt) F1(log) F1(log10) F1(log2) F1(exp) F1(fabs) F1(floor) F1(ceil) F1(round)
extern double x_atan2(double, double), x_pow(double, double), x_fmod(double, double), x_copysign(double, double), x_modf(double, double *), x_frexp(double, int *), x_ldexp(double, int);
extern float x_fabsf(float);
extern int x_finite(double), x___signbit(double), x___fpclassify(double), x___isnan(double), x___isinf(double);

#define PI_ 3.14159265358979323846264338327950288L
typedef struct { const char *n; double (*f)(double); long double (*r)(long double); int dom; double ulps; } One;
/* dom: 0 any, 1 [-1,1], 2 exp range, 3 trig, 4 >=0, 5 exact */
static const One ones[] = {
  { "sin", x_sin, sinl, 3, 4 }, { "cos", x_cos, cosl, 3, 4 }, { "tan", x_tan, tanl, 3, 8 }, { "asin", x_asin, asinl, 1, 16 }, { "acos", x_acos, acosl, 1, 16 }, { "atan", x_atan, atanl, 0, 12 },
  { "sinh", x_sinh, sinhl, 2, 32 }, { "cosh", x_cosh, coshl, 2, 32 }, { "tanh", x_tanh, tanhl, 2, 32 }, { "asinh", x_asinh, asinhl, 0, 16 }, { "acosh", x_acosh, acoshl, 4, 16 }, { "atanh", x_atanh, atanhl, 1, 16 },
  { "log", x_log, logl, 4, 8 }, { "log10", x_log10, log10l, 4, 8 }, { "log2", x_log2, log2l, 4, 8 }, { "exp", x_exp, expl, 2, 8 },
  { "sqrt", x_sqrt, 0, 4, 0 }, { "fabs", x_fabs, fabsl, 5, 0 }, { "floor", x_floor, floorl, 5, 0 }, { "ceil", x_ceil, ceill, 5, 0 }, { "round", x_round, roundl, 5, 0 } };
#define N1 (int)(sizeof ones / sizeof *ones)
enum { ATAN2 = N1, POW, FMOD, COPYSIGN, MODF, FREXP, LDEXP, CLASS, FABSF, NF };
static const char *n2[] = { "atan2", "pow", "fmod", "copysign", "modf", "frexp", "ldexp", "classify", "fabsf" };
static long long counts[NF]; static double worst[NF], worstx[NF];

static double any(void) {
  static const double sp[] = { 0.0, -0.0, 1, -1, 0.5, -0.5, 2, INFINITY, -INFINITY, NAN, DBL_MIN, DBL_MAX, -DBL_MAX, 4.9406564584124654e-324, -4.9406564584124654e-324, DBL_EPSILON, 1.5, 2.5, -1.5, 0.49999999999999994,
    -0.49999999999999994, 4503599627370495.5, 4503599627370496, 4503599627370497, 9007199254740991, 9007199254740992, 9223372036854775807.0, 2147483648.0, -2147483648.0, 2.2250738585072009e-308, 10, 100, 1000, 1e10, M_PI, M_PI_2, M_E, 0.1 };
  union { u64 u; double d; } u;
  switch (R(9)) {
  case 0: return sp[R(sizeof sp / sizeof *sp)];
  case 1: u.u = rnd(); return u.d;
  case 2: return (R(2000001) - 1000000) / (double)(1 << R(12));
  case 3: return R(2001) - 1000 + (R(2) ? 0.5 : 0);
  case 4: u.d = sp[R(sizeof sp / sizeof *sp)]; u.u += R(5) - 2; return u.d;
  case 5: u.u = (rnd() & 0x800fffffffffffffULL) | (u64)(1023 + R(60) - 30) << 52; return u.d;
  case 6: u.u = (rnd() & 0x800fffffffffffffULL) | (u64)(1023 + R(8) - 5) << 52; return u.d;
  case 7: u.u = (rnd() & 0x800fffffffffffffULL) >> R(52) | (rnd() & 1ULL << 63); return u.d;
  default: u.d = R(41) - 20; u.u += R(3) - 1; return u.d;
  }
}
static double unit(void) { union { u64 u; double d; } u; switch (R(5)) { case 0: return any(); case 1: u.d = R(2) ? 1 : 0.5; u.u -= rnd() >> (10 + R(54)); return R(2) ? u.d : -u.d; case 2: return (R(2000001) - 1000000) / 1e6; case 3: u.u = (rnd() & 0x800fffffffffffffULL) | (u64)(1022 - R(40)) << 52; return u.d; default: return ldexp((double)(rnd() >> 11), -53) * (R(2) ? 1 : -1); } }
static double trig(void) {
  union { u64 u; double d; } u;
  switch (R(5)) {
  case 0: return any();
  case 1: u.d = (double)((R(2001) - 1000) * PI_ / 4); u.u += R(7) - 3; return u.d;
  case 2: return (R(2000001) - 1000000) / 1e5;
  case 3: u.u = (rnd() & 0x800fffffffffffffULL) | (u64)(1023 + R(20)) << 52; return u.d;
  default: u.u = (rnd() & 0x800fffffffffffffULL) | (u64)(1023 - R(40)) << 52; return u.d;
  }
}
static double pos(void) { union { u64 u; double d; } u; double d; switch (R(6)) { case 0: return any(); case 1: u.d = 1; u.u += rnd() >> (12 + R(52)); return u.d; case 2: u.d = 1; u.u -= rnd() >> (12 + R(52)); return u.d; case 3: return ldexp(1, R(2098) - 1074); default: do u.u = rnd() & ~(1ULL << 63); while (!isfinite(u.d)); return u.d; } }
static double expr_(void) { switch (R(6)) { case 0: return any(); case 1: return (R(1400001) - 700000) / 1e3; case 2: return (R(2000001) - 1000000) / 1e5; case 3: { union { u64 u; double d; } u; u.d = R(2) ? 709.78271289338397 : -745.13321910194110; u.u += R(9) - 4; return u.d; } case 4: return R(1500) - 750; default: return (R(2000001) - 1000000) / 1e6; } }

static double ulp(double r) { int e; if (r == 0 || fabs(r) < DBL_MIN) return 4.9406564584124654e-324; frexp(r, &e); return ldexp(1, e - 53); }
static int same(double a, double b) { return isnan(b) ? isnan(a) : memcmp(&a, &b, 8) == 0; }
static int verbose;
#define BAD(...) return printf("BAD " __VA_ARGS__), printf("\n"), 1
/* got may differ from the true value by tol units in the last place plus slack */
static int near_(int k, const char *n, double x, double y, double got, long double ref, double tol, long double slack) {
  double r = (double)ref;
  if (isnan(r)) { if (!isnan(got)) BAD("%s(%a, %a) = %a, expected NaN", n, x, y, got); return 0; }
  if (isnan(got)) BAD("%s(%a, %a) = NaN, expected %a", n, x, y, r);
  if (isinf(r) || isinf(got)) {
    if (got == r) return 0;
    if (isinf(r) && isinf(got)) BAD("%s(%a, %a) = %a, expected %a", n, x, y, got, r);
    /* at the very edge of the range */
    double f = isinf(r) ? got : r; if (fabs(f) > DBL_MAX * (1 - (tol + 4) * DBL_EPSILON - (double)(slack / DBL_MAX)) && signbit(got) == signbit(r)) return 0;
    BAD("%s(%a, %a) = %a, expected %a", n, x, y, got, r);
  }
  long double e = fabsl((long double)got - ref);
  double u = (double)((e > slack ? e - slack : 0) / ulp(r));
  if (u > worst[k]) { worst[k] = u; worstx[k] = x; }
  if (u > tol + 0.5) BAD("%s(%a, %a) = %a, the true value is %a (off by %.3g units)", n, x, y, got, r, u);
  if (r == 0 && got == 0 && ref == 0 && signbit(got) != signbit(r)) BAD("%s(%a, %a) has the wrong sign of zero", n, x, y);
  return 0;
}

static int one(void) {
  int k = R(NF); ++counts[k];
  if (k < N1) {
    const One *o = &ones[k];
    double x = o->dom == 1 ? unit() : o->dom == 2 ? expr_() : o->dom == 3 ? trig() : o->dom == 4 ? pos() : any();
    double got = o->f(x);
    if (k == 16) { double r = sqrt(x); if (!same(got, r)) BAD("sqrt(%a) = %a, expected %a", x, got, r); return 0; }
    if (o->dom == 5) { double r = (double)o->r(x); if (!same(got, r)) BAD("%s(%a) = %a, expected %a", o->n, x, got, r); return 0; }
    if (o->dom == 3 && isfinite(x) && fabs(x) > 1e6) {
      /* a huge argument: bounded, and as good as the reduction modulo a double 2 pi can be */
      long double r = o->r(x);
      if (k < 2) { if (!(fabs(got) <= 1)) BAD("%s(%a) = %a", o->n, x, got); if (fabs(x) < 1e12 && fabsl(got - r) > fabs(x) * 1e-15) BAD("%s(%a) = %a, the true value is %La", o->n, x, got, r); }
      return 0;
    }
    if (near_(k, o->n, x, 0, got, o->r(x), o->ulps, o->dom == 3 && k < 2 ? 1e-17L : 0)) return 1;
    if (isfinite(x) && k != 1 && k != 4 && k != 7 && k != 15 && o->dom != 4 && !same(o->f(-x), -got) && x != 0) BAD("%s(%a) = %a but %s(%a) = %a", o->n, x, got, o->n, -x, o->f(-x));
    if (k < 2 && fabs(got) > 1) BAD("%s(%a) = %a exceeds 1", o->n, x, got);
    if (k == 8 && fabs(got) > 1) BAD("tanh(%a) = %a exceeds 1", x, got);
    return 0;
  }
  switch (k) {
  case ATAN2: { double y = any(), x = R(4) ? any() : y * (1 + (R(3) - 1) * 1e-3); return near_(k, "atan2", y, x, x_atan2(y, x), atan2l(y, x), 12, 0); }
  case POW: {
    double b = R(3) == 0 ? any() : R(2) ? pos() : R(41) - 20, x = R(3) == 0 ? any() : R(2) ? R(200) - 100 : expr_();
    if (R(5) == 0) b = 1 + (R(2001) - 1000) / 1e5; if (R(8) == 0) { b = R(20) - 10; x = R(2000) - 1000; }
    double got = x_pow(b, x); long double r = powl(b, x);
    long double l = b != 0 && isfinite(b) && isfinite(x) ? fabsl(x * logl(fabsl(b))) : 0;
    if (isnan(got) && (b == 1 || x == 0)) BAD("pow(%a, %a) = NAN", b, x);
    if (isfinite(b) && b == floor(b) && x == floor(x) && x >= 0 && x < 64 && fabsl(r) < 9007199254740992.0L && got != (double)r) BAD("pow(%a, %a) = %a, expected %a", b, x, got, (double)r);
    if (l > 700 && l < 760) return 0;   /* at the edge of the range the error of the logarithm decides */
    return near_(k, "pow", b, x, got, r, 8 + 4 * (double)(l < 2000 ? l : 0) + (x == floor(x) && fabs(x) <= 1024 ? fabs(x) : 0), 0);
  }
  case FMOD: {
    double x = any(), y = any(); if (R(3) == 0 && isfinite(y)) x = y * (R(1000) + (R(2) ? 0 : 0.25));
    double r = fmod(x, y), g = x_fmod(x, y); if (!same(g, r)) BAD("fmod(%a, %a) = %a, expected %a", x, y, g, r); return 0; }
  case COPYSIGN: { double x = any(), y = any(), g = x_copysign(x, y), r = copysign(x, y); if (memcmp(&g, &r, 8) && !isnan(x)) BAD("copysign(%a, %a) = %a", x, y, g); return 0; }
  case MODF: { double x = any(), i = 7, j = 7, g = x_modf(x, &i), r = modf(x, &j); if (!same(g, r) || !same(i, j)) BAD("modf(%a) = %a, %a, expected %a, %a", x, g, i, r, j); return 0; }
  case FREXP: { double x = any(); int i = 77, j = 77; double g = x_frexp(x, &i), r = frexp(x, &j); if (!same(g, r) || (isfinite(x) && i != j)) BAD("frexp(%a) = %a, %d, expected %a, %d", x, g, i, r, j); return 0; }
  case LDEXP: { double x = any(); int e = R(3) ? R(200) - 100 : R(2) ? R(4400) - 2200 : R(2) ? INT_MAX - R(3) : INT_MIN + R(3); double g = x_ldexp(x, e), r = ldexp(x, e); if (!same(g, r)) BAD("ldexp(%a, %d) = %a, expected %a", x, e, g, r); return 0; }
  case CLASS: {
    double x = any(); union { u64 u; double d; } u; if (R(5) == 0) { u.u = 0x7ff0000000000000ULL | rnd() >> (12 + R(52)) | (rnd() & 1ULL << 63); x = u.d; }
    int c = fpclassify(x), want = c == FP_NAN ? 1 : c == FP_INFINITE ? 2 : c == FP_ZERO ? 3 : c == FP_NORMAL ? 4 : 5;
    if (x___fpclassify(x) != want) BAD("fpclassify(%a) = %d, expected %d", x, x___fpclassify(x), want);
    if (!x_finite(x) != !isfinite(x)) BAD("finite(%a) = %d", x, x_finite(x));
    if (!x___isnan(x) != !isnan(x)) BAD("isnan(%a) = %d", x, x___isnan(x));
    if (!x___isinf(x) != !isinf(x)) BAD("isinf(%a) = %d", x, x___isinf(x));
    if (!x___signbit(x) != !signbit(x)) BAD("signbit(%a) = %d", x, x___signbit(x));
    return 0; }
  default: { union { unsigned u; float f; } a, b; a.u = (unsigned)rnd(); if (isnan(a.f)) return 0; b.f = x_fabsf(a.f); if (b.u != (a.u & 0x7fffffff)) BAD("fabsf(%a) = %a", a.f, b.f); return 0; }
  }
}
int main(int argc, char **argv) {
  st = strtoull(argv[1], 0, 16) * 2 + 1;
  for (int i = 0; i < 10; ++i) rnd();
  int cnt = atoi(argv[2]), nbad = 0, i; verbose = argc > 3;
  for (i = 0; i < cnt && nbad < 6; ++i) nbad += one();
  if (verbose) for (int k = 0; k < NF; ++k) printf("%s worst %.3g at %a\n", k < N1 ? ones[k].n : n2[k - N1], worst[k], worstx[k]);
  printf("DONE %d", i);
  for (int k = 0; k < NF; ++k) printf(" %s=%lld", k < N1 ? ones[k].n : n2[k - N1], counts[k]);
  printf("\n");
  return 0;
}
