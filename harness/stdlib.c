/* stdlib conversions, sorting, searching, random numbers, environment and temporary names: library under test
   (symbols prefixed x_) against the host's or against the definition.   usage: stdlib SEED COUNT */
#define _DEFAULT_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

typedef unsigned long long u64;
static u64 st;
static u64 rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static int R(int n) { return (int)((rnd() >> 20) % n); }

extern int *x___errno_location(void);
#define x_errno (*x___errno_location())
char **x_environ;
extern long x_strtol(const char *, char **, int), x_atol(const char *), x_labs(long), x_lrand48(void), x_nrand48(unsigned short *);
extern unsigned long x_strtoul(const char *, char **, int);
extern long long x_strtoll(const char *, char **, int), x_atoll(const char *), x_llabs(long long);
extern unsigned long long x_strtoull(const char *, char **, int);
extern int x_atoi(const char *), x_abs(int), x_rand(void), x_mkstemp(char *), x_mkstemps(char *, int);
extern void x_srand48(long), x_srand(unsigned);
extern double x_strtod(const char *, char **), x_strtold(const char *, char **), x_atof(const char *), x_drand48(void), x_erand48(unsigned short *);
extern void x_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
extern void *x_bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *));
extern char *x_getenv(const char *);

enum { STRTOL, STRTOUL, STRTOLL, STRTOULL, ATO, STRTOD_DEC, STRTOD_HALF, STRTOD_HEX, STRTOD_ODD, QSORT, BSEARCH, RAND48, RAND, ABS, GETENV, MKSTEMP, NF };
static const char *names[] = { "strtol", "strtoul", "strtoll", "strtoull", "ato", "strtod_dec", "strtod_halfway", "strtod_hex", "strtod_odd", "qsort",
  "bsearch", "rand48", "rand", "abs", "getenv", "mkstemp" };
static long long counts[NF];

#define AR 65536
static char *ar;      /* arena followed by an inaccessible page */
static sigjmp_buf jb;
static volatile int armed;
static void onsegv(int s) { if (armed) siglongjmp(jb, 1); _Exit(99); }

static char q[4000];
static const char *quote(const char *s) {
  char *o = q; *o++ = '"';
  for (; *s && o < q + 3000; ++s) o += *s >= 32 && *s < 127 && *s != '\\' ? sprintf(o, "%c", *s) : sprintf(o, "\\x%02x", (unsigned char)*s);
  strcpy(o, "\""); return q;
}
#define BAD(...) return printf("BAD " __VA_ARGS__), printf("\n"), 1

static char *text;     /* the subject, ends at the guard page */
static void put(const char *s) { size_t n = strlen(s) + 1; text = ar + AR - n; memcpy(text, s, n); }

static const char *spaces[] = { "", "", "", " ", "\t\n", "\v\f\r ", "   " };
static const char *signs[] = { "", "", "", "-", "+", "--", "+-", "- " };
static const char *tails[] = { "", "", "", "x", " 1", "e", ".", "_", "\x80", "g", "Z", "8", "-1" };

static int ints(int f) {
  char b[400], *o = b;
  static const int bases[] = { 10, 10, 16, 16, 8, 2, 0, 0, 36, 3, 35, 7, 11, 17, 1, 37, -1 };
  int base = bases[R(17)];
  int eff = base ? base : (R(3) == 0 ? 16 : R(2) ? 8 : 10);
  if (eff < 2 || eff > 36) eff = 10;
  o += sprintf(o, "%s%s", spaces[R(7)], signs[R(8)]);
  if (R(3) == 0) o += sprintf(o, "%s", ((const char *[]){ "0x", "0X", "0", "00", "0b", "x" })[R(6)]);
  int m = R(6);
  if (m < 2) { for (int i = R(30); i > 0; --i) *o++ = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[R(4) ? R(eff < 11 ? eff : 36) : R(62)]; *o = 0; }
  else {    /* a value near an edge in base eff */
    static const u64 edges[] = { 0, 1, INT_MAX, (u64)INT_MAX + 1, UINT_MAX, (u64)UINT_MAX + 1, LONG_MAX, (u64)LONG_MAX + 1, ULONG_MAX, ULONG_MAX - 1 };
    unsigned __int128 v = edges[R(10)];
    v += R(5); if (v >= 2) v -= R(3);
    if (m == 5) v *= (unsigned)R(40);
    char t[200]; int k = 0;
    do { t[k++] = "0123456789abcdefghijklmnopqrstuvwxyz"[v % eff]; v /= eff; } while (v);
    for (int z = R(4) ? 0 : R(40); z > 0; --z) *o++ = '0';
    while (k) { *o++ = t[--k]; if (R(3) == 0 && o[-1] >= 'a') o[-1] -= 32; }
    *o = 0;
  }
  strcat(o, tails[R(13)]);
  put(b);
  char *e1 = (char *)1, *e2 = (char *)1; long long a, r; int er1, er2;
  x_errno = 0; errno = 0;
  int nul = R(8) == 0;
  if (base == 1 || base == 37 || base == -1) {
    /* glibc leaves the end pointer alone; only the value and errno are prescribed */
    a = f == STRTOL ? x_strtol(text, &e1, base) : f == STRTOUL ? x_strtoul(text, &e1, base) : f == STRTOLL ? x_strtoll(text, &e1, base) : x_strtoull(text, &e1, base);
    if (a != 0 || x_errno != EINVAL) BAD("%s(%s, base %d) = %lld errno %d, expected 0 EINVAL", names[f], quote(text), base, a, x_errno);
    return 0;
  }
  switch (f) {
  case STRTOL: a = x_strtol(text, nul ? 0 : &e1, base); r = strtol(text, nul ? 0 : &e2, base); break;
  case STRTOUL: a = x_strtoul(text, nul ? 0 : &e1, base); r = strtoul(text, nul ? 0 : &e2, base); break;
  case STRTOLL: a = x_strtoll(text, nul ? 0 : &e1, base); r = strtoll(text, nul ? 0 : &e2, base); break;
  default: a = x_strtoull(text, nul ? 0 : &e1, base); r = strtoull(text, nul ? 0 : &e2, base); break;
  }
  er1 = x_errno; er2 = errno;
  if (a != r) BAD("%s(%s, base %d) = %lld, expected %lld", names[f], quote(text), base, a, r);
  if (e1 != e2) BAD("%s(%s, base %d): end at %ld, expected %ld", names[f], quote(text), base, (long)(e1 - text), (long)(e2 - text));
  if ((er1 == ERANGE) != (er2 == ERANGE)) BAD("%s(%s, base %d): errno %d, expected %d", names[f], quote(text), base, er1, er2);
  return 0;
}

static int ato(void) {
  char b[100];
  long long v = (long long)rnd() >> R(64);
  int k = R(3);
  if (k == 0) v = (int)v;
  sprintf(b, "%s%s%lld%s", spaces[R(7)], v >= 0 && R(3) == 0 ? "+" : "", v, tails[R(11)]);
  if (R(12) == 0) sprintf(b, "%s%s", spaces[R(7)], tails[R(11)]);
  put(b);
  if (k == 0) { int a = x_atoi(text), r = atoi(text); if (a != r) BAD("atoi(%s) = %d, expected %d", quote(text), a, r); }
  if (k == 1) { long a = x_atol(text), r = atol(text); if (a != r) BAD("atol(%s) = %ld, expected %ld", quote(text), a, r); }
  if (k == 2) { long long a = x_atoll(text), r = atoll(text); if (a != r) BAD("atoll(%s) = %lld, expected %lld", quote(text), a, r); }
  return 0;
}

static double rdouble(void) {
  union { u64 u; double d; } u;
  do {
    u.u = rnd();
    switch (R(6)) {
    case 0: u.u = (u.u & 0xfffffffffffffULL) | (u64)(1023 + R(130) - 65) << 52; break;
    case 1: u.u &= 0xfffffffffffffULL >> R(52); break;                       /* subnormal */
    case 2: u.u = (u64)R(2047) << 52 | (R(2) ? 0 : 0xfffffffffffffULL); break; /* powers of two and their neighbours */
    case 3: u.u = (u64)(2040 + R(7)) << 52 | (rnd() >> 12); break;
    case 4: u.d = R(100000) / (double)(R(3) ? 1000 : 7); break;
    }
    u.u &= ~(1ULL << 63);
  } while (!isfinite(u.d));
  return u.d;
}

static int flo(int f) {
  static char b[20000]; char *o = b;
  o += sprintf(o, "%s%s", spaces[R(7)], signs[R(R(6) ? 5 : 8)]);
  if (f == STRTOD_DEC) {
    double d = rdouble(); int prec = R(6) == 0 ? R(60) : R(22);
    int k = R(5);
    if (k == 0 && d < 1e40) o += sprintf(o, "%.*f", prec, d);
    else if (k == 1) { for (int i = R(24); i >= 0; --i) *o++ = '0' + R(10); *o = 0; if (R(2)) { *o++ = '.'; for (int i = R(24); i > 0; --i) *o++ = '0' + R(10); *o = 0; } if (R(3)) o += sprintf(o, "%c%d", "eE"[R(2)], R(700) - 350 + (R(20) ? 0 : R(2000000000) - 1000000000)); }
    else if (k == 2) { for (int i = R(500); i > 0; --i) *o++ = '0'; if (R(2)) { *o++ = '.'; for (int i = R(400); i > 0; --i) *o++ = '0'; } o += sprintf(o, "%d", R(100000)); if (R(2)) o += sprintf(o, "e%d", R(900) - 300); }
    else o += sprintf(o, R(2) ? "%.*e" : "%.*g", prec, d);
  } else if (f == STRTOD_HALF) {
    double d = rdouble(), e = nextafter(d, INFINITY);
    if (!isfinite(e)) { d = 1.7976931348623157e308; o += sprintf(o, "%s", R(2) ? "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880" : "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042879.999999"); }
    else {
      long double m = (long double)d / 2 + (long double)e / 2;
      if (d == 0) m = 4.9406564584124654417656879286822137236505980e-324L / 2;
      o += sprintf(o, "%.*Le", 770, m);
      char *x = strchr(b, 'e'), ex[20]; strcpy(ex, x);
      while (x[-1] == '0') --x;
      switch (R(4)) {
      case 0: *x++ = '1'; break;                                             /* just above */
      case 1: for (int i = R(R(4) ? 30 : 900); i > 0; --i) *x++ = '0'; *x++ = '1'; break;
      case 2: if (x[-1] > '0' && x[-1] <= '9') { --x[-1]; for (int i = 1 + R(30); i > 0; --i) *x++ = '9'; } break;  /* just below */
      }
      strcpy(x, ex); o = x + strlen(x);
    }
  } else if (f == STRTOD_HEX) {
    o += sprintf(o, "0%c", "xX"[R(2)]);
    for (int i = R(R(4) ? 18 : 60); i >= 0; --i) *o++ = R(5) ? "0123456789abcdefABCDEF"[R(22)] : "08f"[R(3)];
    *o = 0;
    if (R(2)) { *o++ = '.'; for (int i = R(20); i > 0; --i) *o++ = R(3) ? "0123456789abcdefABCDEF"[R(22)] : '0'; *o = 0; }
    if (R(4)) { int k = R(4); o += sprintf(o, "%c%s%d", "pP"[R(2)], R(2) ? "" : R(2) ? "+" : "-", k == 0 ? R(2200) : k == 1 ? 1000 + R(160) : k == 2 ? R(60) : R(8)); }
  } else {
    static const char *odd[] = { ".", "1e", "1e+", "1e-", "0x", "0xg", "0x.", "0x.p1", "1.e", ".e1", "inf", "INF", "Infinity", "infinit", "nan", "NAN", "nano", "NaN", "e5", "1.5.5",
      "1e5.5", "0x1p", "0x1p+", "0x1.p2", "0x.8p0", "1_0", "", "+", "-", "i", "n", "0", "00", "-0", "0.0e999999999999999999999", "1e99999999999999999999", "1e-99999999999999999999", "0x0p99999",
      "0x1p99999999999", "0x1p-99999999999", ".5", "5.", "0.", ".0", "08.5", "1E5", "1d5", "1f", "2.2250738585072011e-308", "2.2250738585072014e-308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324" };
    o += sprintf(o, "%s", odd[R(sizeof odd / sizeof *odd)]);
  }
  strcat(o, tails[R(R(3) ? 3 : 13)]);
  put(b);
  char *e1 = (char *)1, *e2 = (char *)1;
  union { double d; u64 u; } a, r;
  x_errno = errno = 0;
  int w = R(8);
  a.d = w == 0 ? x_atof(text) : w == 1 ? x_strtold(text, &e1) : x_strtod(text, w == 2 ? 0 : &e1);
  r.d = w == 0 ? atof(text) : w == 1 ? strtod(text, &e2) : strtod(text, w == 2 ? 0 : &e2);
  if (isnan(r.d) ? !isnan(a.d) : a.u != r.u) BAD("%s(%.1200s) = %a, expected %a", w == 0 ? "atof" : w == 1 ? "strtold" : "strtod", quote(text), a.d, r.d);
  if (e1 != e2) BAD("strtod(%.1200s): end at %ld, expected %ld", quote(text), (long)(e1 - text), (long)(e2 - text));
  if (isinf(r.d) && errno == ERANGE && x_errno != ERANGE) BAD("strtod(%.1200s): errno %d, expected ERANGE", quote(text), x_errno);
  if (errno == 0 && x_errno != 0 && fabs(r.d) != 2.2250738585072014e-308) BAD("strtod(%.1200s): errno %d, expected 0", quote(text), x_errno);
  return 0;
}

static size_t es, en, keyoff, keylen; static char *eb; static int cmpbad, mode; static long ncmp;
static const void *ckey;
static void inside(const void *p) { const char *c = p; if (c < eb || c >= eb + en * es || (c - eb) % es) cmpbad = 1; }
static int raw(const void *a, const void *b) { int r = memcmp((const char *)a + keyoff, (const char *)b + keyoff, keylen); return mode ? (r < 0 ? INT_MIN : r > 0 ? INT_MAX : 0) : r; }
static int cmp(const void *a, const void *b) { ++ncmp; inside(a); inside(b); return raw(a, b); }
static int bcmp_(const void *k, const void *b) { ++ncmp; if (k != ckey) cmpbad = 2; inside(b); return raw(k, b); }
static int full(const void *a, const void *b) { return memcmp(a, b, es); }

static void fill(void) {
  static const int sizes[] = { 1, 2, 4, 8, 3, 5, 12, 16, 24, 7, 40, 1, 4, 8 };
  es = sizes[R(14)]; en = R(3) == 0 ? R(6) : R(2) ? R(40) : R(300);
  keylen = R(2) ? es : 1 + R(es); keyoff = R((int)(es - keylen) + 1); mode = R(2);
  eb = ar + AR - en * es;
  int pat = R(7), alpha = 1 + R(R(2) ? 3 : 255);
  for (size_t i = 0; i < en; ++i)
    for (size_t j = 0; j < es; ++j) {
      int v = R(alpha);
      if (pat == 0) v = (int)(i >> (8 * (es - 1 - j) > 24 ? 24 : 8 * (es - 1 - j)));
      if (pat == 1) v = (int)(255 - (i & 255));
      if (pat == 2) v = 7;
      if (pat == 3) v = (int)(i < en / 2 ? i : en - i);
      if (pat == 4 && R(10)) v = (int)(i & 255);
      eb[i * es + j] = (char)v;
    }
}

static char before[AR], c1[AR], c2[AR];
static int sort(void) {
  fill();
  size_t n = en * es;
  ar[AR - n - 1 < 0 ? 0 : AR - n - 1] = 0x5a;
  memcpy(before, eb, n);
  cmpbad = 0; ncmp = 0;
  x_qsort(eb, en, es, cmp);
  char d[200]; sprintf(d, "qsort of %zu elements of %zu bytes, key %zu+%zu", en, es, keyoff, keylen);
  if (cmpbad) BAD("%s: the comparison is given a pointer that is no element", d);
  if (n < AR && ar[AR - n - 1] != 0x5a) BAD("%s: stores before the array", d);
  for (size_t i = 1; i < en; ++i) if (raw(eb + (i - 1) * es, eb + i * es) > 0) BAD("%s: elements %zu and %zu are out of order", d, i - 1, i);
  memcpy(c1, before, n); memcpy(c2, eb, n);
  qsort(c1, en, es, full); qsort(c2, en, es, full);
  if (memcmp(c1, c2, n)) BAD("%s: the result is no permutation of the input", d);
  return 0;
}

static int bs(void) {
  fill();
  qsort(eb, en, es, cmp);
  char key[64]; for (size_t j = 0; j < es; ++j) key[j] = (char)R(R(2) ? 4 : 256);
  if (en && R(3)) memcpy(key, eb + R((int)en) * es, es);
  if (en && R(4) == 0) memcpy(key, R(2) ? eb : eb + (en - 1) * es, es);
  int exists = 0; for (size_t i = 0; i < en; ++i) exists |= raw(key, eb + i * es) == 0;
  ckey = key; cmpbad = 0; ncmp = 0;
  char *p = x_bsearch(key, eb, en, es, bcmp_);
  char d[200]; sprintf(d, "bsearch among %zu elements of %zu bytes", en, es);
  if (cmpbad == 2) BAD("%s: the comparison is not given the key first", d);
  if (cmpbad) BAD("%s: the comparison is given a pointer that is no element", d);
  if (!p != !exists) BAD("%s: %s, but a match %s", d, p ? "found" : "not found", exists ? "exists" : "does not exist");
  if (p) { inside(p); if (cmpbad || raw(key, p)) BAD("%s: the result is no matching element", d); }
  return 0;
}

static int r48(void) {
  long seed = R(4) ? (long)rnd() : R(100) - 50;
  if (R(2)) {
    x_srand48(seed); srand48(seed);
    for (int i = 0; i < 20; ++i) {
      if (R(2)) { long a = x_lrand48(), r = lrand48(); if (a != r) BAD("lrand48 number %d after srand48(%ld) = %ld, expected %ld", i, seed, a, r); }
      else { double a = x_drand48(), r = drand48(); if (!(a >= 0 && a < 1) || fabs(a - r) > ldexp(1, -30)) BAD("drand48 number %d after srand48(%ld) = %.17g, expected %.17g", i, seed, a, r); }
    }
  } else {
    unsigned short a[3], b[3]; for (int i = 0; i < 3; ++i) a[i] = b[i] = (unsigned short)(R(4) ? rnd() : R(2) ? 0xffff : 0);
    for (int i = 0; i < 20; ++i) {
      if (R(2)) { long p = x_nrand48(a), r = nrand48(b); if (p != r) BAD("nrand48 = %ld, expected %ld", p, r); }
      else { double p = x_erand48(a), r = erand48(b); if (!(p >= 0 && p < 1) || fabs(p - r) > ldexp(1, -30)) BAD("erand48 = %.17g, expected %.17g", p, r); }
      if (memcmp(a, b, sizeof a)) BAD("nrand48/erand48 leave state %04x %04x %04x, expected %04x %04x %04x", a[0], a[1], a[2], b[0], b[1], b[2]);
    }
  }
  return 0;
}

static int rnd_(void) {
  unsigned s = (unsigned)rnd(); int v[16], diff = 0;
  x_srand(s);
  for (int i = 0; i < 16; ++i) { v[i] = x_rand(); if (v[i] < 0) BAD("rand() = %d after srand(%u)", v[i], s); if (i && v[i] != v[0]) diff = 1; }
  if (!diff) BAD("rand() is constant after srand(%u)", s);
  x_srand(s);
  for (int i = 0; i < 16; ++i) if (x_rand() != v[i]) BAD("rand() does not repeat its sequence after srand(%u)", s);
  return 0;
}

static int abs_(void) {
  u64 u = rnd() >> R(64); if (R(2)) u = -u;
  int i = (int)u; long long l = (long long)u;
  if (i != INT_MIN && x_abs(i) != abs(i)) BAD("abs(%d) = %d", i, x_abs(i));
  if (l != LLONG_MIN && (x_labs(l) != llabs(l) || x_llabs(l) != llabs(l))) BAD("labs/llabs(%lld)", l);
  return 0;
}

static int env(void) {
  static char names[16][24]; static char *e[17]; int n = R(16);
  for (int i = 0; i < n; ++i) {
    char nm[8]; int k = 1 + R(3); for (int j = 0; j < k; ++j) nm[j] = "AB_"[R(3)]; nm[k] = 0;
    sprintf(names[i], R(12) ? "%s=%s" : "%s", nm, ((char *[]){ "", "1", "x=y", "=", "AB", "A=1" })[R(6)]);
    e[i] = names[i];
  }
  e[n] = 0;
  char nm[8]; int k = 1 + R(3); for (int j = 0; j < k; ++j) nm[j] = "AB_"[R(3)]; nm[k] = 0;
  put(nm);
  x_environ = e; char *a = x_getenv(text);
  char *r = 0; for (int i = 0; i < n && !r; ++i) if (!strncmp(e[i], nm, k) && e[i][k] == '=') r = e[i] + k + 1;
  if (a != r) BAD("getenv(\"%s\") = %s, expected %s", nm, a ? quote(a) : "NULL", r ? r : "NULL");
  return 0;
}

static int temp(void) {
  char b[80]; int nx = R(4) ? 6 : R(9); int suf = R(3) ? 0 : R(6);
  sprintf(b, "%s", ((char *[]){ "t", "tmp-", "", "XX", "a.b" })[R(5)]);
  for (int i = 0; i < nx; ++i) strcat(b, R(60) ? "X" : "Y");
  char sfx[8]; for (int i = 0; i < suf; ++i) sfx[i] = ".cXs"[R(4)]; sfx[suf] = 0; strcat(b, sfx);
  char orig[80]; strcpy(orig, b);
  int len = (int)strlen(b), good = len >= 6 + suf && !strncmp(b + len - suf - 6, "XXXXXX", 6);
  put(b); x_errno = 0;
  int fd = suf ? x_mkstemps(text, suf) : x_mkstemp(text);
  if (!good) { if (fd != -1 || x_errno != EINVAL) BAD("mkstemps(\"%s\", %d) = %d errno %d, expected -1 EINVAL", orig, suf, fd, x_errno); return 0; }
  if (fd < 0) BAD("mkstemps(\"%s\", %d) = %d errno %d", orig, suf, fd, x_errno);
  struct stat s1, s2;
  if (strlen(text) != strlen(orig) || strncmp(text, orig, len - suf - 6) || strcmp(text + len - suf, orig + len - suf)) BAD("mkstemps(\"%s\", %d) makes the name \"%s\"", orig, suf, text);
  if (fstat(fd, &s1) || lstat(text, &s2) || s1.st_ino != s2.st_ino) BAD("mkstemps(\"%s\", %d): the descriptor is not the file \"%s\"", orig, suf, text);
  if (s1.st_size || (s1.st_mode & 0777) != 0600) BAD("mkstemps(\"%s\", %d): mode %o size %ld", orig, suf, s1.st_mode, (long)s1.st_size);
  if (write(fd, "x", 1) != 1 || lseek(fd, 0, 0) || read(fd, b, 1) != 1) BAD("mkstemps: the file cannot be written and read");
  if ((fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDWR) BAD("mkstemps: not opened for both");
  close(fd); unlink(text);
  return 0;
}

static int one(void) {
  int f = R(NF); if (f >= RAND48 && f <= ABS && R(2)) f = STRTOD_HALF; if (f == MKSTEMP && R(8)) f = QSORT;
  volatile int vf = f;
  ++counts[f];
  if (sigsetjmp(jb, 1)) { armed = 0; BAD("%s reads or writes outside its arguments (%s)", names[vf], vf <= STRTOD_ODD ? quote(text) : ""); }
  armed = 1;
  int r;
  switch (f) {
  case STRTOL: case STRTOUL: case STRTOLL: case STRTOULL: r = ints(f); break;
  case ATO: r = ato(); break;
  case STRTOD_DEC: case STRTOD_HALF: case STRTOD_HEX: case STRTOD_ODD: r = flo(f); break;
  case QSORT: r = sort(); break;
  case BSEARCH: r = bs(); break;
  case RAND48: r = r48(); break;
  case RAND: r = rnd_(); break;
  case ABS: r = abs_(); break;
  case GETENV: r = env(); break;
  default: r = temp(); break;
  }
  armed = 0;
  return r;
}

int main(int argc, char **argv) {
  static char io[4096]; setvbuf(stdout, io, _IOFBF, sizeof io);
  st = strtoull(argv[1], 0, 16) * 2 + 1;
  for (int i = 0; i < 10; ++i) rnd();
  int cnt = atoi(argv[2]), nbad = 0, i;
  char *p = mmap(0, AR + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 65536, AR, PROT_READ | PROT_WRITE); ar = p + 65536;
  stack_t ss = { .ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 65536 };
  sigaltstack(&ss, 0);
  struct sigaction sa = { .sa_handler = onsegv, .sa_flags = SA_ONSTACK | SA_NODEFER };
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
  for (i = 0; i < cnt && nbad < 3; ++i) nbad += one();
  printf("DONE %d", i);
  for (int k = 0; k < NF; ++k) printf(" %s=%lld", names[k], counts[k]);
  printf("\n");
  return 0;
}
