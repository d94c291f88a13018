// RV64IMFDC user-mode emulator with a calling-convention monitor.
// rv64 [-n] PROGRAM ARGS...     -n: no calling-convention monitor
#pragma STDC FENV_ACCESS ON
#include "emu.h"
#include <fenv.h>

static u64 x[32], f[32], fcsr, calls, maxdepth;
static const char *xn[] = {"zero","ra","sp","gp","tp","t0","t1","t2","s0","s1","a0","a1","a2","a3","a4","a5","a6","a7",
  "s2","s3","s4","s5","s6","s7","s8","s9","s10","s11","t3","t4","t5","t6"};
static void where(void) {
  for (int i = 1; i < 32; ++i) fprintf(stderr, "%s=%llx%s", xn[i], (unsigned long long)x[i], i % 8 == 7 ? "\n" : " ");
  fprintf(stderr, "\n");
}

// ---- calling convention
typedef struct { u64 ra, sp, x[12], f[12], fn; } Frame;
static Frame *fr;
static int nfr, cfr;
static const int SX[12] = {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27};

static void below(void) {
  // nothing below sp belongs to the program
  for (int i = 1; i <= 16; ++i) WR(u64, x[2] - i * 8, garbage());
}
static void on_call(u64 target, u64 ret) {
  if (!abi) return;
  ++calls;
  if (x[2] & 15) DIE(121, "stack pointer not a multiple of 16 at a call of %llx", (unsigned long long)target);
  if (nfr == cfr) fr = realloc(fr, sizeof(*fr) * (cfr = cfr * 2 + 64));
  Frame *p = &fr[nfr++];
  p->ra = ret; p->sp = x[2]; p->fn = target;
  for (int i = 0; i < 12; ++i) p->x[i] = x[SX[i]], p->f[i] = f[SX[i]];
  if ((u64)nfr > maxdepth) maxdepth = nfr;
  below();
}
static void on_ret(u64 target) {
  if (!abi) return;
  if (nfr > 0 && fr[nfr - 1].ra == target && fr[nfr - 1].sp == x[2]) {
    Frame *p = &fr[--nfr];
    for (int i = 0; i < 12; ++i) {
      if (p->x[i] != x[SX[i]]) DIE(121, "function %llx changes %s", (unsigned long long)p->fn, xn[SX[i]]);
      if (p->f[i] != f[SX[i]]) DIE(121, "function %llx changes fs%d", (unsigned long long)p->fn, i);
    }
  } else {
    if (nfr > 0 && fr[nfr - 1].ra == target)
      DIE(121, "function %llx changes the stack pointer from %llx to %llx", (unsigned long long)fr[nfr - 1].fn, (unsigned long long)fr[nfr - 1].sp, (unsigned long long)x[2]);
    // longjmp: out of every call made from below here
    int n = nfr;
    while (n > 0 && fr[n - 1].sp <= x[2]) --n;
    if (n == nfr) DIE(121, "return to %llx, which is no caller", (unsigned long long)target);
    nfr = n;
  }
  // what the caller cannot rely on
  for (int i = 5; i < 32; ++i) if ((i >= 5 && i <= 7) || (i >= 12 && i <= 17) || i >= 28) x[i] = garbage();
  for (int i = 0; i < 32; ++i) if (i <= 7 || (i >= 12 && i <= 17) || i >= 28) f[i] = garbage();
  below();
}

// ---- floating point
static const int host_rm[] = {FE_TONEAREST, FE_TOWARDZERO, FE_DOWNWARD, FE_UPWARD, FE_TONEAREST};
static int rm_(u32 in) {
  int rm = in >> 12 & 7;
  if (rm == 7) rm = fcsr >> 5 & 7;
  if (rm > 4) DIE(132, "reserved rounding mode");
  return rm;
}
static double getd(int r) { double d; memcpy(&d, &f[r], 8); return d; }
static u32 gets_raw(int r) { return f[r] >> 32 == 0xffffffff ? (u32)f[r] : 0x7fc00000; }
static float gets_(int r) { float d; u32 v = gets_raw(r); memcpy(&d, &v, 4); return d; }
static void putd(int r, double d) { if (d != d) f[r] = 0x7ff8000000000000; else memcpy(&f[r], &d, 8); }
static void puts_raw(int r, u32 v) { f[r] = 0xffffffff00000000 | v; }
static void puts_(int r, float d) { u32 v; memcpy(&v, &d, 4); if (d != d) v = 0x7fc00000; puts_raw(r, v); }

static double round_(double v, int rm) {
  switch (rm) {
  case 0: return rint(v);
  case 1: return trunc(v);
  case 2: return floor(v);
  case 3: return ceil(v);
  default: return round(v);
  }
}
static u64 toint(double v, int k, int rm) {
  double r = round_(v, rm);
  switch (k) {
  case 0: return (u64)(i64)(v != v || r >= 2147483648.0 ? INT32_MAX : r < -2147483648.0 ? INT32_MIN : (i32)r);
  case 1: return (u64)(i64)(i32)(v != v || r >= 4294967296.0 ? UINT32_MAX : r <= 0 ? 0 : (u32)r);
  case 2: return (u64)(v != v || r >= 9223372036854775808.0 ? INT64_MAX : r < -9223372036854775808.0 ? INT64_MIN : (i64)r);
  default: return v != v || r >= 18446744073709551616.0 ? UINT64_MAX : r <= 0 ? 0 : (u64)r;
  }
}
static u64 fclass(bool neg, int c, bool quiet) {  // c: fpclassify
  switch (c) {
  case FP_NAN: return quiet ? 512 : 256;
  case FP_INFINITE: return neg ? 1 : 128;
  case FP_NORMAL: return neg ? 2 : 64;
  case FP_SUBNORMAL: return neg ? 4 : 32;
  default: return neg ? 8 : 16;
  }
}

#define ILL()  DIE(132, "illegal instruction %08x", in)

static void fp(u32 in) {
  int rd = in >> 7 & 31, r1 = in >> 15 & 31, r2 = in >> 20 & 31, k = in >> 25, rm = in >> 12 & 7;
  if ((k & 3) > 1) ILL();
  bool dbl = k & 1;
  switch (k >> 2) {
  case 0: case 1: case 2: case 3: case 11: {
    int op = k >> 2, m = rm_(in);
    if (op == 11 && r2 != 0) ILL();
    fesetround(host_rm[m]);
    if (dbl) {
      volatile double a = getd(r1), b = getd(r2), r;
      switch (op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; default: r = sqrt(a); }
      fesetround(FE_TONEAREST);
      putd(rd, r);
    } else {
      volatile float a = gets_(r1), b = gets_(r2), r;
      switch (op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; default: r = sqrtf(a); }
      fesetround(FE_TONEAREST);
      puts_(rd, r);
    }
    break; }
  case 4:
    if (rm > 2) ILL();
    if (dbl) {
      u64 a = f[r1], b = f[r2], s = (u64)1 << 63;
      f[rd] = (a & ~s) | ((rm == 0 ? b : rm == 1 ? ~b : a ^ b) & s);
    } else {
      u32 a = gets_raw(r1), b = gets_raw(r2), s = (u32)1 << 31;
      puts_raw(rd, (a & ~s) | ((rm == 0 ? b : rm == 1 ? ~b : a ^ b) & s));
    }
    break;
  case 5: {
    if (rm > 1) ILL();
    double a = dbl ? getd(r1) : gets_(r1), b = dbl ? getd(r2) : gets_(r2), r;
    if (a != a) r = b;
    else if (b != b) r = a;
    else if (a == b) r = (signbit(a) != 0) == (rm == 0) ? a : b;
    else r = (a < b) == (rm == 0) ? a : b;
    if (dbl) putd(rd, r); else puts_(rd, (float)r);
    break; }
  case 8: {
    int m = rm_(in);
    fesetround(host_rm[m]);
    if (!dbl && r2 == 1) { volatile float r = (float)getd(r1); fesetround(FE_TONEAREST); puts_(rd, r); }
    else if (dbl && r2 == 0) { fesetround(FE_TONEAREST); putd(rd, gets_(r1)); }
    else ILL();
    break; }
  case 20: {
    if (rm > 2) ILL();
    double a = dbl ? getd(r1) : gets_(r1), b = dbl ? getd(r2) : gets_(r2);
    if (rd) x[rd] = rm == 0 ? a <= b : rm == 1 ? a < b : a == b;
    break; }
  case 24: {
    int m = rm_(in);
    if (r2 > 3) ILL();
    u64 v = toint(dbl ? getd(r1) : gets_(r1), r2, m);
    if (rd) x[rd] = v;
    break; }
  case 26: {
    int m = rm_(in);
    if (r2 > 3) ILL();
    u64 a = x[r1];
    fesetround(host_rm[m]);
    if (dbl) {
      volatile double r = r2 == 0 ? (double)(i32)a : r2 == 1 ? (double)(u32)a : r2 == 2 ? (double)(i64)a : (double)a;
      fesetround(FE_TONEAREST);
      putd(rd, r);
    } else {
      volatile float r = r2 == 0 ? (float)(i32)a : r2 == 1 ? (float)(u32)a : r2 == 2 ? (float)(i64)a : (float)a;
      fesetround(FE_TONEAREST);
      puts_(rd, r);
    }
    break; }
  case 28:
    if (r2 != 0 || rm > 1) ILL();
    if (rd == 0) break;
    if (rm == 1) {
      if (dbl) x[rd] = fclass(f[r1] >> 63, fpclassify(getd(r1)), f[r1] >> 51 & 1);
      else x[rd] = fclass(gets_raw(r1) >> 31, fpclassify(gets_(r1)), gets_raw(r1) >> 22 & 1);
    } else x[rd] = dbl ? f[r1] : (u64)(i64)(i32)(u32)f[r1];
    break;
  case 30:
    if (r2 != 0 || rm != 0) ILL();
    if (dbl) f[rd] = x[r1]; else puts_raw(rd, (u32)x[r1]);
    break;
  default: ILL();
  }
}

// ---- compressed instructions, expanded
#define B(v, hi, lo, to)  ((((u32)(v) >> (lo)) & ((1u << ((hi) - (lo) + 1)) - 1)) << (to))
static u32 I_(int op, int f3, int rd, int r1, i32 imm) { return (u32)op | rd << 7 | f3 << 12 | r1 << 15 | (u32)imm << 20; }
static u32 R_(int op, int f3, int f7, int rd, int r1, int r2) { return (u32)op | rd << 7 | f3 << 12 | r1 << 15 | r2 << 20 | (u32)f7 << 25; }
static u32 S_(int op, int f3, int r1, int r2, i32 imm) { return (u32)op | ((u32)imm & 31) << 7 | f3 << 12 | r1 << 15 | r2 << 20 | ((u32)imm >> 5 & 127) << 25; }
static u32 Br_(int f3, int r1, int r2, i32 imm) {
  return 0x63 | B(imm, 11, 11, 7) | B(imm, 4, 1, 8) | f3 << 12 | r1 << 15 | r2 << 20 | B(imm, 10, 5, 25) | B(imm, 12, 12, 31);
}
static u32 J_(int rd, i32 imm) { return 0x6f | rd << 7 | B(imm, 19, 12, 12) | B(imm, 11, 11, 20) | B(imm, 10, 1, 21) | B(imm, 20, 20, 31); }
static i32 sx(u32 v, int bits) { return (i32)(v << (32 - bits)) >> (32 - bits); }

static u32 expand(u32 in) {   // 0: illegal
  int rd = in >> 7 & 31, r2 = in >> 2 & 31, rdp = (in >> 2 & 7) + 8, r1p = (in >> 7 & 7) + 8, f3 = in >> 13 & 7;
  i32 imm6 = sx(B(in, 12, 12, 5) | B(in, 6, 2, 0), 6);
  u32 uw = B(in, 5, 5, 6) | B(in, 12, 10, 3) | B(in, 6, 6, 2), ud = B(in, 12, 10, 3) | B(in, 6, 5, 6);
  switch (in & 3) {
  case 0:
    switch (f3) {
    case 0: { u32 u = B(in, 12, 11, 4) | B(in, 10, 7, 6) | B(in, 6, 6, 2) | B(in, 5, 5, 3);
      return u == 0 ? 0 : I_(0x13, 0, rdp, 2, u); }
    case 1: return I_(0x07, 3, rdp, r1p, ud);
    case 2: return I_(0x03, 2, rdp, r1p, uw);
    case 3: return I_(0x03, 3, rdp, r1p, ud);
    case 5: return S_(0x27, 3, r1p, rdp, ud);
    case 6: return S_(0x23, 2, r1p, rdp, uw);
    case 7: return S_(0x23, 3, r1p, rdp, ud);
    }
    return 0;
  case 1:
    switch (f3) {
    case 0: return rd == 0 && imm6 != 0 ? 0 : I_(0x13, 0, rd, rd, imm6);
    case 1: return rd == 0 ? 0 : I_(0x1b, 0, rd, rd, imm6);
    case 2: return I_(0x13, 0, rd, 0, imm6);
    case 3:
      if (rd == 2) {
        i32 v = sx(B(in, 12, 12, 9) | B(in, 6, 6, 4) | B(in, 5, 5, 6) | B(in, 4, 3, 7) | B(in, 2, 2, 5), 10);
        return v == 0 ? 0 : I_(0x13, 0, 2, 2, v);
      }
      return imm6 == 0 ? 0 : 0x37 | rd << 7 | (u32)imm6 << 12;
    case 4:
      switch (in >> 10 & 3) {
      case 0: return I_(0x13, 5, r1p, r1p, imm6 & 63);
      case 1: return I_(0x13, 5, r1p, r1p, (imm6 & 63) | 0x400);
      case 2: return I_(0x13, 7, r1p, r1p, imm6);
      default:
        if (in >> 12 & 1) {
          switch (in >> 5 & 3) { case 0: return R_(0x3b, 0, 32, r1p, r1p, rdp); case 1: return R_(0x3b, 0, 0, r1p, r1p, rdp); }
          return 0;
        }
        switch (in >> 5 & 3) {
        case 0: return R_(0x33, 0, 32, r1p, r1p, rdp);
        case 1: return R_(0x33, 4, 0, r1p, r1p, rdp);
        case 2: return R_(0x33, 6, 0, r1p, r1p, rdp);
        default: return R_(0x33, 7, 0, r1p, r1p, rdp);
        }
      }
    case 5: return J_(0, sx(B(in, 12, 12, 11) | B(in, 11, 11, 4) | B(in, 10, 9, 8) | B(in, 8, 8, 10) | B(in, 7, 7, 6) | B(in, 6, 6, 7) | B(in, 5, 3, 1) | B(in, 2, 2, 5), 12));
    default: return Br_(f3 == 6 ? 0 : 1, r1p, 0, sx(B(in, 12, 12, 8) | B(in, 11, 10, 3) | B(in, 6, 5, 6) | B(in, 4, 3, 1) | B(in, 2, 2, 5), 9));
    }
  default:
    switch (f3) {
    case 0: return I_(0x13, 1, rd, rd, imm6 & 63);
    case 1: return I_(0x07, 3, rd, 2, B(in, 12, 12, 5) | B(in, 6, 5, 3) | B(in, 4, 2, 6));
    case 2: return rd == 0 ? 0 : I_(0x03, 2, rd, 2, B(in, 12, 12, 5) | B(in, 6, 4, 2) | B(in, 3, 2, 6));
    case 3: return rd == 0 ? 0 : I_(0x03, 3, rd, 2, B(in, 12, 12, 5) | B(in, 6, 5, 3) | B(in, 4, 2, 6));
    case 4:
      if (!(in >> 12 & 1)) return r2 == 0 ? (rd == 0 ? 0 : I_(0x67, 0, 0, rd, 0)) : R_(0x33, 0, 0, rd, 0, r2);
      if (r2 == 0) return rd == 0 ? 0x00100073 : I_(0x67, 0, 1, rd, 0);
      return R_(0x33, 0, 0, rd, rd, r2);
    case 5: return S_(0x27, 3, 2, r2, B(in, 12, 10, 3) | B(in, 9, 7, 6));
    case 6: return S_(0x23, 2, 2, r2, B(in, 12, 9, 2) | B(in, 8, 7, 6));
    default: return S_(0x23, 3, 2, r2, B(in, 12, 10, 3) | B(in, 9, 7, 6));
    }
  }
}

static i64 alu(u32 in, int f3, int f7, i64 a, i64 b, bool imm) {
  if (!imm && f7 == 1) {
    switch (f3) {
    case 0: return (i64)((u64)a * (u64)b);
    case 1: return (i64)((i128)a * b >> 64);
    case 2: return (i64)((i128)((i128)a * (u128)(u64)b) >> 64);
    case 3: return (i64)((u128)(u64)a * (u64)b >> 64);
    case 4: return b == 0 ? -1 : a == INT64_MIN && b == -1 ? a : a / b;
    case 5: return b == 0 ? -1 : (i64)((u64)a / (u64)b);
    case 6: return b == 0 ? a : a == INT64_MIN && b == -1 ? 0 : a % b;
    default: return b == 0 ? a : (i64)((u64)a % (u64)b);
    }
  }
  if (!imm && f7 != 0 && !(f7 == 32 && (f3 == 0 || f3 == 5))) ILL();
  switch (f3) {
  case 0: return !imm && f7 == 32 ? (i64)((u64)a - (u64)b) : (i64)((u64)a + (u64)b);
  case 1: return (i64)((u64)a << (b & 63));
  case 2: return a < b;
  case 3: return (u64)a < (u64)b;
  case 4: return a ^ b;
  case 5: return f7 & 32 ? a >> (b & 63) : (i64)((u64)a >> (b & 63));
  case 6: return a | b;
  default: return a & b;
  }
}
static i64 aluw(u32 in, int f3, int f7, i32 a, i32 b, bool imm) {
  if (!imm && f7 == 1) {
    switch (f3) {
    case 0: return (i32)((u32)a * (u32)b);
    case 4: return b == 0 ? -1 : a == INT32_MIN && b == -1 ? a : a / b;
    case 5: return b == 0 ? -1 : (i32)((u32)a / (u32)b);
    case 6: return b == 0 ? a : a == INT32_MIN && b == -1 ? 0 : a % b;
    case 7: return b == 0 ? a : (i32)((u32)a % (u32)b);
    }
    ILL();
  }
  if (!imm && f7 != 0 && !(f7 == 32 && (f3 == 0 || f3 == 5))) ILL();
  switch (f3) {
  case 0: return !imm && f7 == 32 ? (i32)((u32)a - (u32)b) : (i32)((u32)a + (u32)b);
  case 1: return (i32)((u32)a << (b & 31));
  case 5: return f7 & 32 ? a >> (b & 31) : (i32)((u32)a >> (b & 31));
  }
  ILL();
}

static void step(void) {
  u16 h;
  memcpy(&h, at(pc, 2, PX), 2);
  u32 in = h;
  int len = 2;
  if ((h & 3) == 3) { memcpy(&in, at(pc, 4, PX), 4); len = 4; }
  else if ((in = expand(h)) == 0) { in = h; ILL(); }
  int op = in & 127, rd = in >> 7 & 31, f3 = in >> 12 & 7, r1 = in >> 15 & 31, r2 = in >> 20 & 31, f7 = in >> 25;
  i64 immi = (i32)in >> 20, imms = ((i32)in >> 25 << 5) | rd;
  u64 a = x[r1], b = x[r2], next = pc + len, v = 0;
  bool w = true;
  switch (op) {
  case 0x37: v = (u64)(i64)(i32)(in & 0xfffff000); break;
  case 0x17: v = pc + (u64)(i64)(i32)(in & 0xfffff000); break;
  case 0x6f:
    v = next;
    next = pc + (u64)(i64)sx(B(in, 19, 12, 12) | B(in, 20, 20, 11) | B(in, 30, 21, 1) | B(in, 31, 31, 20), 21);
    if (rd == 1) on_call(next, v);
    break;
  case 0x67:
    if (f3 != 0) ILL();
    v = next;
    next = (a + immi) & ~(u64)1;
    if (rd == 1) on_call(next, v);
    else if (rd == 0 && r1 == 1) on_ret(next);
    break;
  case 0x63: {
    bool t;
    switch (f3) {
    case 0: t = a == b; break;
    case 1: t = a != b; break;
    case 4: t = (i64)a < (i64)b; break;
    case 5: t = (i64)a >= (i64)b; break;
    case 6: t = a < b; break;
    case 7: t = a >= b; break;
    default: ILL();
    }
    if (t) next = pc + (u64)(i64)sx(B(in, 7, 7, 11) | B(in, 11, 8, 1) | B(in, 30, 25, 5) | B(in, 31, 31, 12), 13);
    w = false;
    break; }
  case 0x03:
    switch (f3) {
    case 0: v = (u64)(i64)RD(i8, a + immi); break;
    case 1: v = (u64)(i64)RD(i16, a + immi); break;
    case 2: v = (u64)(i64)RD(i32, a + immi); break;
    case 3: v = RD(u64, a + immi); break;
    case 4: v = RD(u8, a + immi); break;
    case 5: v = RD(u16, a + immi); break;
    case 6: v = RD(u32, a + immi); break;
    default: ILL();
    }
    break;
  case 0x23:
    switch (f3) {
    case 0: WR(u8, a + imms, b); break;
    case 1: WR(u16, a + imms, b); break;
    case 2: WR(u32, a + imms, b); break;
    case 3: WR(u64, a + imms, b); break;
    default: ILL();
    }
    w = false;
    break;
  case 0x07:
    if (f3 == 2) puts_raw(rd, RD(u32, a + immi));
    else if (f3 == 3) f[rd] = RD(u64, a + immi);
    else ILL();
    w = false;
    break;
  case 0x27:
    if (f3 == 2) WR(u32, a + imms, f[r2]);
    else if (f3 == 3) WR(u64, a + imms, f[r2]);
    else ILL();
    w = false;
    break;
  case 0x13:
    if (f3 == 1 && f7 >> 1 != 0) ILL();
    if (f3 == 5 && (f7 >> 1 & ~16) != 0) ILL();
    v = (u64)alu(in, f3, f3 == 5 ? f7 : 0, (i64)a, f3 == 1 || f3 == 5 ? immi & 63 : immi, true);
    break;
  case 0x1b:
    if (f3 == 1 && f7 != 0) ILL();
    if (f3 == 5 && (f7 & ~32) != 0) ILL();
    v = (u64)aluw(in, f3, f3 == 5 ? f7 : 0, (i32)a, f3 == 1 || f3 == 5 ? (i32)immi & 31 : (i32)immi, true);
    break;
  case 0x33: v = (u64)alu(in, f3, f7, (i64)a, (i64)b, false); break;
  case 0x3b: v = (u64)aluw(in, f3, f7, (i32)a, (i32)b, false); break;
  case 0x0f: w = false; break;
  case 0x43: case 0x47: case 0x4b: case 0x4f: {
    if ((f7 & 3) > 1) ILL();
    int r3 = in >> 27, n1 = op == 0x4b || op == 0x4f, n3 = op == 0x47 || op == 0x4f, m = rm_(in);
    fesetround(host_rm[m]);
    if (f7 & 1) { volatile double p = getd(r1), q = getd(r2), s = getd(r3), r = fma(n1 ? -p : p, q, n3 ? -s : s); fesetround(FE_TONEAREST); putd(rd, r); }
    else { volatile float p = gets_(r1), q = gets_(r2), s = gets_(r3), r = fmaf(n1 ? -p : p, q, n3 ? -s : s); fesetround(FE_TONEAREST); puts_(rd, r); }
    // nmadd is -(a*b) - c; nmsub is -(a*b) + c
    w = false;
    break; }
  case 0x53: fp(in); w = false; break;
  case 0x73:
    if (in == 0x73) { x[10] = (u64)syscall_(x[17], x[10], x[11], x[12], x[13]); w = false; break; }
    if (in == 0x00100073) DIE(133, "breakpoint");
    if (f3 == 1 || f3 == 2) {
      u64 o;
      switch (in >> 20) {
      case 1: o = fcsr & 31; if (f3 == 1 || r1) fcsr = (fcsr & ~31ull) | ((f3 == 1 ? a : o | a) & 31); v = o; break;
      case 2: o = fcsr >> 5 & 7; if (f3 == 1 || r1) fcsr = (fcsr & ~0xe0ull) | ((f3 == 1 ? a : o | a) & 7) << 5; v = o; break;
      case 3: o = fcsr & 255; if (f3 == 1 || r1) fcsr = (f3 == 1 ? a : o | a) & 255; v = o; break;
      default: ILL();
      }
      break;
    }
    ILL();
  default: ILL();
  }
  if (w && rd) x[rd] = v;
  pc = next;
}

int main(int argc, char **argv) {
  if (argc > 1 && strcmp(argv[1], "-n") == 0) { abi = false; --argc; ++argv; }
  if (argc < 2) return 126;
  mem = calloc(1, TOP);
  load(argv[1], 243);
  pc = entry;
  x[2] = setup_stack(argc - 1, argv + 1);
  for (int i = 1; i < 32; ++i) if (i != 2) x[i] = garbage();
  for (int i = 0; i < 32; ++i) f[i] = garbage();
  for (;;) {
    step();
    if (++icount > limit) DIE(124, "too many instructions");
  }
}
