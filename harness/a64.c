// AArch64 user-mode emulator (integer and scalar floating-point instructions) with a calling-convention monitor.
// a64 [-n] PROGRAM ARGS...     -n: no calling-convention monitor
#include "emu.h"

static u64 x[32], sp, calls;           // x[31] reads as zero
static struct { u64 lo, hi; } v[32];
static bool N, Z, C, V;
static u64 fpcr, fpsr;

static void where(void) {
  for (int i = 0; i < 31; ++i) fprintf(stderr, "x%d=%llx%s", i, (unsigned long long)x[i], i % 8 == 7 ? "\n" : " ");
  fprintf(stderr, "sp=%llx\n", (unsigned long long)sp);
}
#define ILL()  DIE(132, "illegal instruction %08x", in)

// ---- calling convention
typedef struct { u64 ra, sp, x[11], f[8], fn; } Frame;
static Frame *fr;
static int nfr, cfr;

static void below(void) {
  for (int i = 1; i <= 16; ++i) { u64 g = garbage(); memcpy(at(sp - i * 8, 8, PW), &g, 8); }
}
static void on_call(u64 target, u64 ret) {
  if (!abi) return;
  ++calls;
  if (sp & 15) DIE(121, "stack pointer not a multiple of 16 at a call of %llx", (unsigned long long)target);
  if (nfr == cfr) fr = realloc(fr, sizeof(*fr) * (cfr = cfr * 2 + 64));
  Frame *p = &fr[nfr++];
  p->ra = ret; p->sp = sp; p->fn = target;
  for (int i = 0; i < 11; ++i) p->x[i] = x[19 + i];
  for (int i = 0; i < 8; ++i) p->f[i] = v[8 + i].lo;
  // a veneer may use these
  x[16] = garbage(); x[17] = garbage();
  N = garbage() & 1; Z = garbage() & 1; C = garbage() & 1; V = garbage() & 1;
  below();
}
static void on_ret(u64 target) {
  if (!abi) return;
  if (nfr > 0 && fr[nfr - 1].ra == target && fr[nfr - 1].sp == sp) {
    Frame *p = &fr[--nfr];
    for (int i = 0; i < 11; ++i) if (p->x[i] != x[19 + i]) DIE(121, "function %llx changes x%d", (unsigned long long)p->fn, 19 + i);
    for (int i = 0; i < 8; ++i) if (p->f[i] != v[8 + i].lo) DIE(121, "function %llx changes d%d", (unsigned long long)p->fn, 8 + i);
  } else {
    if (nfr > 0 && fr[nfr - 1].ra == target)
      DIE(121, "function %llx changes the stack pointer from %llx to %llx", (unsigned long long)fr[nfr - 1].fn, (unsigned long long)fr[nfr - 1].sp, (unsigned long long)sp);
    int n = nfr;
    while (n > 0 && fr[n - 1].sp <= sp) --n;
    if (n == nfr) DIE(121, "return to %llx, which is no caller", (unsigned long long)target);
    nfr = n;
  }
  for (int i = 2; i <= 17; ++i) x[i] = garbage();
  for (int i = 0; i < 32; ++i) {
    v[i].hi = garbage();
    if ((i >= 2 && i <= 7) || i >= 16) v[i].lo = garbage();
  }
  N = garbage() & 1; Z = garbage() & 1; C = garbage() & 1; V = garbage() & 1;
  below();
}

// ---- helpers
#define F(hi, lo)  ((in >> (lo)) & ((1u << ((hi) - (lo) + 1)) - 1))
static inline u64 X(int r) { return r == 31 ? 0 : x[r]; }
static inline u64 XS(int r) { return r == 31 ? sp : x[r]; }
static inline void SX_(int r, u64 val, int sf) { if (r != 31) x[r] = sf ? val : (u32)val; }
static inline void SXS(int r, u64 val, int sf) { if (!sf) val = (u32)val; if (r == 31) sp = val; else x[r] = val; }
static inline i64 sext(u64 val, int bits) { return (i64)(val << (64 - bits)) >> (64 - bits); }

static bool cond(int c) {
  bool r;
  switch (c >> 1) {
  case 0: r = Z; break;
  case 1: r = C; break;
  case 2: r = N; break;
  case 3: r = V; break;
  case 4: r = C && !Z; break;
  case 5: r = N == V; break;
  case 6: r = N == V && !Z; break;
  default: return true;
  }
  return c & 1 ? !r : r;
}
static u64 addc(u64 a, u64 b, int carry, int sf, bool flags) {
  u64 r;
  bool c, o;
  if (sf) {
    u128 u = (u128)a + b + carry;
    r = (u64)u;
    c = (u >> 64) != 0;
    o = (~(a ^ b) & (a ^ r)) >> 63;
  } else {
    u64 u = (u64)(u32)a + (u32)b + carry;
    r = (u32)u;
    c = u >> 32 != 0;
    o = (~(a ^ b) & (a ^ r)) >> 31 & 1;
  }
  if (flags) { N = sf ? r >> 63 : r >> 31 & 1; Z = r == 0; C = c; V = o; }
  return r;
}
static u64 shift(u64 a, int type, int n, int sf) {
  if (!sf) a = (u32)a;
  switch (type) {
  case 0: return a << n;
  case 1: return a >> n;
  case 2: return sf ? (u64)((i64)a >> n) : (u64)(u32)((i32)a >> n);
  default: return n == 0 ? a : sf ? a >> n | a << (64 - n) : (u64)((u32)a >> n | (u32)a << (32 - n));
  }
}
static u64 extend(u64 a, int opt, int n) {
  switch (opt) {
  case 0: a = (u8)a; break;
  case 1: a = (u16)a; break;
  case 2: a = (u32)a; break;
  case 4: a = (u64)(i8)a; break;
  case 5: a = (u64)(i16)a; break;
  case 6: a = (u64)(i32)a; break;
  }
  return a << n;
}
static bool bitmask(int n, int imms, int immr, bool imm, u64 *wmask, u64 *tmask, int sf) {
  int v = n << 6 | (~imms & 63), len = -1;
  for (int i = 6; i >= 0; --i) if (v >> i & 1) { len = i; break; }
  if (len < 1) return false;
  int levels = (1 << len) - 1;
  if (imm && (imms & levels) == levels) return false;
  int s = imms & levels, r = immr & levels, es = 1 << len;
  u64 em = es == 64 ? ~(u64)0 : ((u64)1 << es) - 1;
  u64 we = s == 63 ? ~(u64)0 : ((u64)1 << (s + 1)) - 1;
  int d = (s - r) & levels;
  u64 te = d == 63 ? ~(u64)0 : ((u64)1 << (d + 1)) - 1;
  if (r) we = (we >> r | we << (es - r)) & em;
  u64 w = 0, t = 0;
  for (int i = 0; i < 64; i += es) w |= we << i, t |= te << i;
  *wmask = w; *tmask = t;
  return true;
}

// ---- floating point
static double gd(int r) { double d; memcpy(&d, &v[r].lo, 8); return d; }
static float gs(int r) { float d; memcpy(&d, &v[r].lo, 4); return d; }
static void rawd(int r, u64 b) { v[r].lo = b; v[r].hi = 0; }
static void raws(int r, u32 b) { v[r].lo = b; v[r].hi = 0; }
static bool snand(u64 b) { return (b & 0x7ff8000000000000) == 0x7ff0000000000000 && (b & 0x7ffffffffffff) != 0; }
static bool snans(u32 b) { return (b & 0x7fc00000) == 0x7f800000 && (b & 0x3fffff) != 0; }
static void pd(int r, double d, u64 a, u64 b) {   // a, b: operands, for NaNs
  u64 q;
  memcpy(&q, &d, 8);
  if (d != d) {
    double da, db;
    memcpy(&da, &a, 8); memcpy(&db, &b, 8);
    if (snand(a)) q = a; else if (snand(b)) q = b; else if (da != da) q = a; else if (db != db) q = b; else q = 0x7ff8000000000000;
    q |= 0x8000000000000;
  }
  rawd(r, q);
}
static void ps(int r, float d, u32 a, u32 b) {
  u32 q;
  memcpy(&q, &d, 4);
  if (d != d) {
    float da, db;
    memcpy(&da, &a, 4); memcpy(&db, &b, 4);
    if (snans(a)) q = a; else if (snans(b)) q = b; else if (da != da) q = a; else if (db != db) q = b; else q = 0x7fc00000;
    q |= 0x400000;
  }
  raws(r, q);
}
static u64 toint(double d, bool uns, int sf) {
  if (d != d) return 0;
  if (uns) {
    if (d <= -1 || d == 0) return 0;
    if (sf) return d >= 18446744073709551616.0 ? UINT64_MAX : d < 0 ? 0 : (u64)d;
    return d >= 4294967296.0 ? UINT32_MAX : d < 0 ? 0 : (u32)d;
  }
  if (sf) return (u64)(d >= 9223372036854775808.0 ? INT64_MAX : d < -9223372036854775808.0 ? INT64_MIN : (i64)d);
  return (u32)(d >= 2147483648.0 ? INT32_MAX : d <= -2147483649.0 ? INT32_MIN : (i32)d);
}
static void fcmp_(double a, double b) {
  if (a != a || b != b) { N = 0; Z = 0; C = 1; V = 1; }
  else if (a == b) { N = 0; Z = 1; C = 1; V = 0; }
  else if (a < b) { N = 1; Z = 0; C = 0; V = 0; }
  else { N = 0; Z = 0; C = 1; V = 0; }
}

static void fp(u32 in) {
  int type = F(23, 22), rd = F(4, 0), rn = F(9, 5), rm = F(20, 16), sf = in >> 31;
  if (F(30, 29) != 0) ILL();
  if (F(28, 24) == 0x1f) {           // 3 sources
    if (sf || type > 1) ILL();
    int ra = F(14, 10), o1 = F(21, 21), o0 = F(15, 15);
    if (type) { double n = gd(rn), m = gd(rm), a = gd(ra); pd(rd, fma(o1 ? -n : n, m, o1 != o0 ? -a : a), v[ra].lo, v[rn].lo); }
    else { float n = gs(rn), m = gs(rm), a = gs(ra); ps(rd, fmaf(o1 ? -n : n, m, o1 != o0 ? -a : a), v[ra].lo, v[rn].lo); }
    return;
  }
  if (F(21, 21) == 0) ILL();
  if (F(15, 10) == 0) {              // integer <-> fp
    int rmode = F(20, 19), op = F(18, 16);
    if (op >= 6) {                   // fmov
      if (rmode != 0) ILL();
      if (sf ? type != 1 : type != 0) ILL();
      if (op == 6) SX_(rd, sf ? v[rn].lo : (u32)v[rn].lo, sf);
      else if (sf) rawd(rd, X(rn)); else raws(rd, (u32)X(rn));
      return;
    }
    if (type > 1) ILL();
    if (op == 2 || op == 3) {
      if (rmode != 0) ILL();
      u64 a = X(rn);
      if (type) { double r = op == 2 ? (sf ? (double)(i64)a : (double)(i32)a) : (sf ? (double)a : (double)(u32)a); pd(rd, r, 0, 0); }
      else { float r = op == 2 ? (sf ? (float)(i64)a : (float)(i32)a) : (sf ? (float)a : (float)(u32)a); ps(rd, r, 0, 0); }
      return;
    }
    double a = type ? gd(rn) : gs(rn);
    if (op == 0 || op == 1) {
      switch (rmode) { case 0: a = rint(a); break; case 1: a = ceil(a); break; case 2: a = floor(a); break; }
      SX_(rd, toint(a, op == 1, sf), sf);
    } else if (rmode == 0) {
      a = round(a);
      SX_(rd, toint(a, op == 5, sf), sf);
    } else ILL();
    return;
  }
  if (sf || type > 1) ILL();
  if (F(14, 10) == 0x10) {           // 1 source
    switch (F(20, 15)) {
    case 0: if (type) rawd(rd, v[rn].lo); else raws(rd, v[rn].lo); return;
    case 1: if (type) rawd(rd, v[rn].lo & ~((u64)1 << 63)); else raws(rd, (u32)v[rn].lo & ~(1u << 31)); return;
    case 2: if (type) rawd(rd, v[rn].lo ^ ((u64)1 << 63)); else raws(rd, (u32)v[rn].lo ^ 1u << 31); return;
    case 3: if (type) pd(rd, sqrt(gd(rn)), v[rn].lo, 0); else ps(rd, sqrtf(gs(rn)), v[rn].lo, 0); return;
    case 4: if (type != 1) ILL(); {
      double d = gd(rn);
      if (d != d) { u64 b = v[rn].lo; raws(rd, (u32)(b >> 63 << 31) | 0x7fc00000 | (u32)(b >> 29 & 0x3fffff)); }
      else ps(rd, (float)d, 0, 0);
      return; }
    case 5: if (type != 0) ILL(); {
      float d = gs(rn);
      if (d != d) { u32 b = v[rn].lo; rawd(rd, (u64)(b >> 31) << 63 | 0x7ff8000000000000 | (u64)(b & 0x3fffff) << 29); }
      else pd(rd, d, 0, 0);
      return; }
    case 8: case 9: case 10: case 11: case 12: case 14: case 15: {
      double a = type ? gd(rn) : gs(rn), r;
      switch (F(20, 15)) { case 8: case 14: case 15: r = rint(a); break; case 9: r = ceil(a); break; case 10: r = floor(a); break; case 11: r = trunc(a); break; default: r = round(a); }
      if (type) pd(rd, r, v[rn].lo, 0); else ps(rd, (float)r, v[rn].lo, 0);
      return; }
    }
    ILL();
  }
  switch (F(11, 10)) {
  case 0:
    if (F(13, 10) == 8) {            // compare
      if (F(15, 14) != 0 || F(2, 0) != 0) ILL();
      bool zero = F(3, 3);
      if (zero && rm != 0) ILL();
      if (type) fcmp_(gd(rn), zero ? 0 : gd(rm)); else fcmp_(gs(rn), zero ? 0 : gs(rm));
      return;
    }
    if (F(12, 10) == 4) {            // immediate
      if (F(9, 5) != 0) ILL();
      u32 i = F(20, 13);
      if (type) rawd(rd, (u64)(i >> 7) << 63 | (i & 64 ? (u64)0x3fc0 << 48 : (u64)0x4000 << 48) | (u64)(i & 63) << 48);
      else raws(rd, (i >> 7) << 31 | (i & 64 ? 0x3e000000u : 0x40000000u) | (i & 63) << 19);
      return;
    }
    ILL();
  case 1:                            // fccmp
    if (cond(F(15, 12))) { if (type) fcmp_(gd(rn), gd(rm)); else fcmp_(gs(rn), gs(rm)); }
    else { N = F(3, 3); Z = F(2, 2); C = F(1, 1); V = F(0, 0); }
    return;
  case 2: {
    int op = F(15, 12);
    if (type) {
      double a = gd(rn), b = gd(rm), r;
      switch (op) {
      case 0: r = a * b; break; case 1: r = a / b; break; case 2: r = a + b; break; case 3: r = a - b; break;
      case 4: case 6: if (op == 6 && a != a) r = b; else if (op == 6 && b != b) r = a; else r = a != a || b != b ? NAN : a == b ? (signbit(a) ? b : a) : a > b ? a : b; break;
      case 5: case 7: if (op == 7 && a != a) r = b; else if (op == 7 && b != b) r = a; else r = a != a || b != b ? NAN : a == b ? (signbit(a) ? a : b) : a < b ? a : b; break;
      case 8: pd(rd, a * b, v[rn].lo, v[rm].lo); v[rd].lo ^= (u64)1 << 63; return;
      default: ILL();
      }
      pd(rd, r, v[rn].lo, v[rm].lo);
    } else {
      float a = gs(rn), b = gs(rm), r;
      switch (op) {
      case 0: r = a * b; break; case 1: r = a / b; break; case 2: r = a + b; break; case 3: r = a - b; break;
      case 4: case 6: if (op == 6 && a != a) r = b; else if (op == 6 && b != b) r = a; else r = a != a || b != b ? NAN : a == b ? (signbit(a) ? b : a) : a > b ? a : b; break;
      case 5: case 7: if (op == 7 && a != a) r = b; else if (op == 7 && b != b) r = a; else r = a != a || b != b ? NAN : a == b ? (signbit(a) ? a : b) : a < b ? a : b; break;
      case 8: ps(rd, a * b, v[rn].lo, v[rm].lo); v[rd].lo ^= 1u << 31; return;
      default: ILL();
      }
      ps(rd, r, v[rn].lo, v[rm].lo);
    }
    return; }
  default:                           // fcsel
    if (type) rawd(rd, v[cond(F(15, 12)) ? rn : rm].lo); else raws(rd, v[cond(F(15, 12)) ? rn : rm].lo);
    return;
  }
}

// ---- loads and stores
static void checksp(int rn) { if (rn == 31 && (sp & 15)) DIE(135, "access with an unaligned stack pointer %llx", (unsigned long long)sp); }

static void ldst1(u32 in, bool vec, int size, int opc, int rt, u64 a) {
  if (vec) {
    int lg = size | (opc & 2) << 1;
    if (lg > 4 || (size && lg > 3)) ILL();
    if (opc & 1) {
      u64 lo = 0, hi = 0;
      if (lg == 4) { lo = RD(u64, a); hi = RD(u64, a + 8); } else memcpy(&lo, at(a, 1 << lg, PR), 1 << lg);
      v[rt].lo = lo; v[rt].hi = hi;
    } else if (lg == 4) { WR(u64, a, v[rt].lo); WR(u64, a + 8, v[rt].hi); }
    else memcpy(at(a, 1 << lg, PW), &v[rt].lo, 1 << lg);
    return;
  }
  u64 d = X(rt);
  if (opc == 0) { memcpy(at(a, 1 << size, PW), &d, 1 << size); return; }
  d = 0;
  if (size == 3 && opc == 2) return;     // prefetch
  if ((size == 3 && opc == 3) || (size == 2 && opc == 3)) ILL();
  memcpy(&d, at(a, 1 << size, PR), 1 << size);
  if (opc >= 2) d = (u64)sext(d, 8 << size);
  SX_(rt, d, opc == 1 ? 1 : opc == 2);
}

static void ldst(u32 in) {
  bool vec = F(26, 26);
  int rt = F(4, 0), rn = F(9, 5);
  switch (F(29, 27)) {
  case 5: {                          // pairs
    int opc = F(31, 30), mode = F(25, 23), L = F(22, 22), rt2 = F(14, 10);
    if (mode > 3) ILL();
    int lg = vec ? 2 + opc : opc == 2 ? 3 : 2;
    if (opc == 3 || (!vec && opc == 1 && (!L || mode == 0))) ILL();
    i64 off = sext(F(21, 15), 7) * (1 << lg);
    checksp(rn);
    u64 a = XS(rn), ea = mode == 1 ? a : a + off;
    if (!vec && (mode == 1 || mode == 3) && rn != 31 && (rt == rn || rt2 == rn)) ILL();
    if (L && rt == rt2) ILL();
    if (vec) { ldst1(in, true, lg == 4 ? 0 : lg, lg == 4 ? 2 | L : L, rt, ea); ldst1(in, true, lg == 4 ? 0 : lg, lg == 4 ? 2 | L : L, rt2, ea + (1 << lg)); }
    else { ldst1(in, false, lg, opc == 1 ? 2 : L, rt, ea); ldst1(in, false, lg, opc == 1 ? 2 : L, rt2, ea + (1 << lg)); }
    if (mode == 1 || mode == 3) SXS(rn, a + off, 1);
    return; }
  case 3: {                          // literal
    if (F(25, 24) != 0) ILL();
    int opc = F(31, 30);
    u64 a = pc + sext(F(23, 5), 19) * 4;
    if (vec) { if (opc == 3) ILL(); ldst1(in, true, opc == 2 ? 0 : opc + 2, opc == 2 ? 3 : 1, rt, a); }
    else if (opc == 2) ldst1(in, false, 2, 2, rt, a);
    else if (opc < 2) ldst1(in, false, opc + 2, 1, rt, a);
    return; }
  case 7: {
    int size = F(31, 30), opc = F(23, 22);
    checksp(rn);
    u64 a = XS(rn);
    int lg = vec ? size | (opc & 2) << 1 : size;
    if (F(24, 24)) { ldst1(in, vec, size, opc, rt, a + ((u64)F(21, 10) << lg)); return; }
    if (F(21, 21)) {
      if (F(11, 10) != 2) ILL();
      int opt = F(15, 13);
      if (!(opt & 2)) ILL();
      ldst1(in, vec, size, opc, rt, a + extend(X(F(20, 16)), opt, F(12, 12) ? lg : 0));
      return;
    }
    i64 off = sext(F(20, 12), 9);
    int mode = F(11, 10);
    if (mode == 2) ILL();
    if (!vec && mode != 0 && rn != 31 && rn == rt) ILL();
    ldst1(in, vec, size, opc, rt, mode == 1 ? a : a + off);
    if (mode != 0) SXS(rn, a + off, 1);
    return; }
  }
  ILL();
}

static void simd(u32 in) {
  int rd = F(4, 0), rn = F(9, 5), q = F(30, 30);
  if ((in & 0x9ff80400) == 0x0f000400 && F(11, 11) == 0) {   // modified immediate
    int op = F(29, 29), cmode = F(15, 12);
    u64 i = F(18, 16) << 5 | F(9, 5), val;
    if (op == 1 && cmode == 14) { val = 0; for (int k = 0; k < 8; ++k) if (i >> k & 1) val |= (u64)0xff << k * 8; }
    else if (op == 0 && cmode == 14) val = i * 0x0101010101010101;
    else if ((cmode & 9) == 0) { val = i << (cmode >> 1) * 8; val |= val << 32; if (op) val = ~val; }
    else ILL();
    v[rd].lo = val;
    v[rd].hi = q ? val : 0;
    return;
  }
  if ((in & 0xbf20fc00) == 0x0e201c00 || (in & 0xbf20fc00) == 0x2e201c00) {   // logical
    int rm = F(20, 16), k = F(29, 29) << 2 | F(23, 22);
    for (int h = 0; h < 2; ++h) {
      u64 *d = h ? &v[rd].hi : &v[rd].lo, a = h ? v[rn].hi : v[rn].lo, b = h ? v[rm].hi : v[rm].lo;
      if (h && !q) { *d = 0; break; }
      switch (k) {
      case 0: *d = a & b; break; case 1: *d = a & ~b; break; case 2: *d = a | b; break; case 3: *d = a | ~b; break;
      case 4: *d = a ^ b; break; case 5: *d = (*d & a) | (~*d & b); break; case 6: *d = (a & b) | (*d & ~b); break;
      default: *d = (a & ~b) | (*d & b); break;
      }
    }
    return;
  }
  if ((in & 0xdfbffc00) == 0x5e21d800) {                     // scalar conversions
    bool u = F(29, 29);
    u64 a = v[rn].lo;
    if (F(22, 22)) pd(rd, u ? (double)a : (double)(i64)a, 0, 0); else ps(rd, u ? (float)(u32)a : (float)(i32)a, 0, 0);
    return;
  }
  if ((in & 0xdfbffc00) == 0x5ea1b800) {
    if (F(22, 22)) rawd(rd, toint(gd(rn), F(29, 29), 1)); else raws(rd, (u32)toint(gs(rn), F(29, 29), 0));
    return;
  }
  ILL();
}

static void step(void) {
  if (pc & 3) DIE(132, "unaligned pc");
  u32 in;
  memcpy(&in, at(pc, 4, PX), 4);
  u64 next = pc + 4;
  int sf = in >> 31, rd = F(4, 0), rn = F(9, 5), rm = F(20, 16);
  switch (F(28, 25)) {
  case 8: case 9:
    switch (F(25, 23)) {
    case 0: case 1: {
      i64 imm = sext(F(23, 5) << 2 | F(30, 29), 21);
      SX_(rd, sf ? (pc & ~(u64)4095) + imm * 4096 : pc + imm, 1);
      break; }
    case 2: {
      u64 imm = (u64)F(21, 10) << (F(22, 22) ? 12 : 0), a = XS(rn), r;
      r = F(30, 30) ? addc(a, ~imm, 1, sf, F(29, 29)) : addc(a, imm, 0, sf, F(29, 29));
      if (F(29, 29)) SX_(rd, r, sf); else SXS(rd, r, sf);
      break; }
    case 4: {
      u64 w, t, a = X(rn), r;
      if ((!sf && F(22, 22)) || !bitmask(F(22, 22), F(15, 10), F(21, 16), true, &w, &t, sf)) ILL();
      switch (F(30, 29)) { case 0: case 3: r = a & w; break; case 1: r = a | w; break; default: r = a ^ w; }
      if (!sf) r = (u32)r;
      if (F(30, 29) == 3) { N = sf ? r >> 63 : r >> 31; Z = r == 0; C = V = 0; SX_(rd, r, sf); }
      else SXS(rd, r, sf);
      break; }
    case 5: {
      int hw = F(22, 21) * 16;
      u64 imm = (u64)F(20, 5) << hw;
      if (!sf && hw > 16) ILL();
      switch (F(30, 29)) {
      case 0: SX_(rd, ~imm, sf); break;
      case 2: SX_(rd, imm, sf); break;
      case 3: SX_(rd, (X(rd) & ~((u64)0xffff << hw)) | imm, sf); break;
      default: ILL();
      }
      break; }
    case 6: {
      int n = F(22, 22), r = F(21, 16), s = F(15, 10), opc = F(30, 29);
      u64 w, t, src = X(rn);
      if (n != sf || (!sf && (r > 31 || s > 31)) || opc == 3 || !bitmask(n, s, r, false, &w, &t, sf)) ILL();
      if (!sf) src = (u32)src;
      u64 ror = shift(src, 3, r, sf);
      u64 dst = opc == 1 ? X(rd) : 0;
      u64 bot = (dst & ~w) | (ror & w);
      u64 top = opc == 0 ? (u64)-(i64)(src >> s & 1) : dst;
      SX_(rd, (top & ~t) | (bot & t), sf);
      break; }
    case 7: {
      int s = F(15, 10);
      if (F(30, 29) != 0 || (int)F(22, 22) != sf || (!sf && s > 31)) ILL();
      u64 a = X(rn), b = X(rm);
      SX_(rd, s == 0 ? b : sf ? b >> s | a << (64 - s) : (u32)b >> s | (u32)a << (32 - s), sf);
      break; }
    default: ILL();
    }
    break;
  case 10: case 11:
    if (F(30, 26) == 5) {
      next = pc + sext(F(25, 0), 26) * 4;
      if (sf) { x[30] = pc + 4; on_call(next, pc + 4); }
    } else if (F(30, 25) == 0x1a) {
      u64 a = X(rd);
      if (!sf) a = (u32)a;
      if ((a == 0) != F(24, 24)) next = pc + sext(F(23, 5), 19) * 4;
    } else if (F(30, 25) == 0x1b) {
      int bit = sf << 5 | F(23, 19);
      if ((X(rd) >> bit & 1) == F(24, 24)) next = pc + sext(F(18, 5), 14) * 4;
    } else if (F(31, 24) == 0x54) {
      if (F(4, 4)) ILL();
      if (cond(F(3, 0))) next = pc + sext(F(23, 5), 19) * 4;
    } else if (F(31, 25) == 0x6b) {
      if (F(20, 10) != 0x7c0 || F(4, 0) != 0) ILL();
      u64 t = X(rn);
      switch (F(24, 21)) {
      case 0: break;
      case 1: x[30] = pc + 4; on_call(t, pc + 4); break;
      case 2: on_ret(t); break;
      default: ILL();
      }
      next = t;
    } else if ((in & 0xffe0001f) == 0xd4000001) x[0] = (u64)syscall_(x[8], x[0], x[1], x[2], x[3]);
    else if ((in & 0xffe0001f) == 0xd4200000) DIE(133, "breakpoint");
    else if ((in & 0xfffff01f) == 0xd503201f) ;
    else if ((in & 0xfff00000) == 0xd5300000 || (in & 0xfff00000) == 0xd5100000) {
      bool rd_ = F(21, 21);
      switch (F(19, 5)) {
      case 0x5a20: if (rd_) SX_(rd, fpcr, 1); else fpcr = X(rd); break;
      case 0x5a21: if (rd_) SX_(rd, fpsr, 1); else fpsr = X(rd); break;
      default: ILL();
      }
    } else ILL();
    break;
  case 4: case 6: case 12: case 14: ldst(in); break;
  case 5: case 13:
    if (!F(28, 28)) {
      if (!F(24, 24)) {              // logical
        int n = F(15, 10), k = F(30, 29);
        if (!sf && n > 31) ILL();
        u64 a = X(rn), b = shift(X(rm), F(23, 22), n, sf), r;
        if (F(21, 21)) b = ~b;
        switch (k) { case 0: case 3: r = a & b; break; case 1: r = a | b; break; default: r = a ^ b; }
        if (!sf) r = (u32)r;
        if (k == 3) { N = sf ? r >> 63 : r >> 31; Z = r == 0; C = V = 0; }
        SX_(rd, r, sf);
      } else if (F(21, 21)) {        // extended
        int n = F(12, 10);
        if (n > 4 || F(23, 22)) ILL();
        u64 a = XS(rn), b = extend(X(rm), F(15, 13), n), r;
        r = F(30, 30) ? addc(a, ~b, 1, sf, F(29, 29)) : addc(a, b, 0, sf, F(29, 29));
        if (F(29, 29)) SX_(rd, r, sf); else SXS(rd, r, sf);
      } else {
        int n = F(15, 10);
        if (F(23, 22) == 3 || (!sf && n > 31)) ILL();
        u64 a = X(rn), b = shift(X(rm), F(23, 22), n, sf), r;
        r = F(30, 30) ? addc(a, ~b, 1, sf, F(29, 29)) : addc(a, b, 0, sf, F(29, 29));
        SX_(rd, r, sf);
      }
    } else if (F(24, 24)) {          // 3 sources
      if (F(30, 29)) ILL();
      int ra = F(14, 10), o0 = F(15, 15);
      u64 a = X(ra), n = X(rn), m = X(rm);
      switch (F(23, 21)) {
      case 0: SX_(rd, o0 ? a - n * m : a + n * m, sf); break;
      case 1: if (!sf) ILL(); n = (u64)(i64)(i32)n * (u64)(i64)(i32)m; SX_(rd, o0 ? a - n : a + n, 1); break;
      case 5: if (!sf) ILL(); n = (u64)(u32)n * (u32)m; SX_(rd, o0 ? a - n : a + n, 1); break;
      case 2: if (!sf) ILL(); SX_(rd, (u64)((i128)(i64)n * (i64)m >> 64), 1); break;
      case 6: if (!sf) ILL(); SX_(rd, (u64)((u128)n * m >> 64), 1); break;
      default: ILL();
      }
    } else switch (F(23, 21)) {
    case 0:
      if (F(15, 10)) ILL();
      SX_(rd, F(30, 30) ? addc(X(rn), ~X(rm), C, sf, F(29, 29)) : addc(X(rn), X(rm), C, sf, F(29, 29)), sf);
      break;
    case 2: {
      if (F(10, 10) || F(4, 4) || !F(29, 29)) ILL();
      u64 b = F(11, 11) ? F(20, 16) : X(rm);
      if (cond(F(15, 12))) { if (F(30, 30)) addc(X(rn), ~b, 1, sf, true); else addc(X(rn), b, 0, sf, true); }
      else { N = F(3, 3); Z = F(2, 2); C = F(1, 1); V = F(0, 0); }
      break; }
    case 4: {
      if (F(29, 29) || F(11, 11)) ILL();
      u64 b = X(rm);
      if (cond(F(15, 12))) b = X(rn);
      else { if (F(30, 30)) b = ~b; if (F(10, 10)) b += 1; }
      SX_(rd, b, sf);
      break; }
    case 6:
      if (F(29, 29)) ILL();
      if (F(30, 30)) {
        if (F(20, 16)) ILL();
        u64 a = X(rn), r = 0;
        if (!sf) a = (u32)a;
        int w = sf ? 64 : 32;
        switch (F(15, 10)) {
        case 0: for (int i = 0; i < w; ++i) if (a >> i & 1) r |= (u64)1 << (w - 1 - i); break;
        case 1: for (int i = 0; i < w; i += 16) r |= (u64)__builtin_bswap16(a >> i) << i; break;
        case 2: r = sf ? (u64)__builtin_bswap32(a >> 32) << 32 | __builtin_bswap32((u32)a) : __builtin_bswap32((u32)a); break;
        case 3: if (!sf) ILL(); r = __builtin_bswap64(a); break;
        case 4: r = a == 0 ? w : (sf ? __builtin_clzll(a) : __builtin_clz((u32)a)); break;
        case 5: { i64 s = sext(a, w); if (s < 0) s = ~s; r = s == 0 ? w - 1 : __builtin_clzll(s) - (64 - w) - 1; break; }
        default: ILL();
        }
        SX_(rd, r, sf);
      } else {
        u64 a = X(rn), b = X(rm), r;
        switch (F(15, 10)) {
        case 2: if (!sf) a = (u32)a, b = (u32)b; r = b == 0 ? 0 : a / b; break;
        case 3:
          if (sf) r = b == 0 ? 0 : (i64)b == -1 ? 0 - a : (u64)((i64)a / (i64)b);
          else r = (u32)b == 0 ? 0 : (i32)b == -1 ? 0 - (u32)a : (u32)((i32)a / (i32)b);
          break;
        case 8: case 9: case 10: case 11: r = shift(a, F(11, 10), b & (sf ? 63 : 31), sf); break;
        default: ILL();
        }
        SX_(rd, r, sf);
      }
      break;
    default: ILL();
    }
    break;
  case 7: case 15:
    if ((in & 0x5e000000) == 0x1e000000) fp(in);
    else simd(in);
    break;
  default: ILL();
  }
  pc = next;
}

int main(int argc, char **argv) {
  if (argc > 1 && strcmp(argv[1], "-n") == 0) { abi = false; --argc; ++argv; }
  if (argc < 2) return 126;
  mem = calloc(1, TOP);
  load(argv[1], 183);
  pc = entry;
  sp = setup_stack(argc - 1, argv + 1);
  for (int i = 0; i < 31; ++i) x[i] = garbage();
  for (int i = 0; i < 32; ++i) v[i].lo = garbage(), v[i].hi = garbage();
  for (;;) {
    step();
    if (++icount > limit) DIE(124, "too many instructions");
  }
}
