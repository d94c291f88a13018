/* String, memory and character functions: every call is made on guarded buffers, once with the library under
   test (symbols prefixed x_) and once with the host's on an identical copy; results and all bytes are compared.
   usage: string SEED COUNT */
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <libgen.h>
#include <malloc.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>

typedef unsigned long long u64;
static u64 st;
static u64 rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static int R(int n) { return (int)((rnd() >> 20) % n); }

#define AR 8192
static unsigned char *A[2], *B[2];   /* [0]: tested, [1]: reference */
static unsigned char *guarded(void) {
  unsigned char *p = mmap(0, AR + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 65536, AR, PROT_READ | PROT_WRITE);
  return p + 65536;
}
static sigjmp_buf jb;
static volatile int armed;
static void onsegv(int s) { if (armed) siglongjmp(jb, 1); _Exit(99); }

extern size_t x_strlen(const char *), x_strnlen(const char *, size_t), x_strspn(const char *, const char *), x_strcspn(const char *, const char *);
extern char *x_strchr(const char *, int), *x_strrchr(const char *, int), *x_strstr(const char *, const char *), *x_strcpy(char *, const char *),
  *x_strncpy(char *, const char *, size_t), *x_stpcpy(char *, const char *), *x_stpncpy(char *, const char *, size_t), *x_strcat(char *, const char *),
  *x_strncat(char *, const char *, size_t), *x_strdup(const char *), *x_strndup(const char *, size_t), *x_strpbrk(const char *, const char *),
  *x_strtok(char *, const char *), *x_strtok_r(char *, const char *, char **), *x_strerror(int), *x_basename(char *), *x_dirname(char *);
extern int x_strcmp(const char *, const char *), x_strncmp(const char *, const char *, size_t), x_strcoll(const char *, const char *),
  x_memcmp(const void *, const void *, size_t), x_strcasecmp(const char *, const char *), x_strncasecmp(const char *, const char *, size_t),
  x_strerror_r(int, char *, size_t);
extern void *x_memcpy(void *, const void *, size_t), *x_memccpy(void *, const void *, int, size_t), *x_memmove(void *, const void *, size_t),
  *x_memset(void *, int, size_t), *x_memchr(const void *, int, size_t), x_free(void *);
extern int x_isdigit(int), x_isxdigit(int), x_isalpha(int), x_isalnum(int), x_isspace(int), x_isupper(int), x_islower(int), x_isascii(int),
  x_isprint(int), x_isgraph(int), x_iscntrl(int), x_ispunct(int), x_tolower(int), x_toupper(int);

static const char *names[] = {
  "strlen", "strnlen", "strchr", "strrchr", "strstr", "strcmp", "strncmp", "strcoll", "strcpy", "strncpy", "stpcpy", "stpncpy", "strcat", "strncat",
  "strdup", "strndup", "memcpy", "memccpy", "memmove", "memset", "memchr", "memcmp", "strspn", "strcspn", "strpbrk", "strtok_r", "strtok",
  "strcasecmp", "strncasecmp", "strerror_r", "basename", "dirname", "ctype" };
enum { STRLEN, STRNLEN, STRCHR, STRRCHR, STRSTR, STRCMP, STRNCMP, STRCOLL, STRCPY, STRNCPY, STPCPY, STPNCPY, STRCAT, STRNCAT,
  STRDUP, STRNDUP, MEMCPY, MEMCCPY, MEMMOVE, MEMSET, MEMCHR, MEMCMP, STRSPN, STRCSPN, STRPBRK, STRTOK_R, STRTOK,
  STRCASECMP, STRNCASECMP, STRERROR_R, BASENAME, DIRNAME, CTYPE, NF };
#define SGN(x) ((x) > 0 ? 1 : (x) < 0 ? -1 : 0)

static int alpha;
static unsigned char rb(void) {
  switch (alpha) {
  case 0: return "ab"[R(2)];
  case 1: return "aAbB,; "[R(7)];
  case 2: return (unsigned char)(1 + R(255));
  case 3: return (unsigned char)(128 + R(4) * (R(2) ? 1 : 40));
  default: return "aZ\x7f\x80\xff\x81 "[R(7)];
  }
}
static int len(void) { int k = R(8); return k == 0 ? 0 : k == 1 ? 1 : k < 5 ? R(9) : k < 7 ? R(40) : R(300); }

/* a buffer of n bytes placed in arena area: at its end, its beginning, or somewhere */
static int place(int n) { int k = R(4); return k < 2 ? AR - n : k == 2 ? 0 : 16 + R(AR - n - 32); }
static long long off(const void *p, int w) {
  if (!p) return -1;
  const unsigned char *q = p;
  if (q >= A[w] && q <= A[w] + AR) return 100000 + (q - A[w]);
  if (q >= B[w] && q <= B[w] + AR) return 200000 + (q - B[w]);
  return -7777777;
}

static unsigned pa, pb; static int na, nb, n, c, f;
static char desc[1600];
static void quote(char **o, const unsigned char *p, int k) {
  *o += sprintf(*o, "\"");
  for (int i = 0; i < k && i < 60; ++i) *o += p[i] >= 32 && p[i] < 127 && p[i] != '"' ? sprintf(*o, "%c", p[i]) : sprintf(*o, "\\%03o", p[i]);
  *o += sprintf(*o, k > 60 ? "\"..." : "\"");
}
static void describe(void) {
  char *o = desc;
  o += sprintf(o, "%s(a = %d bytes at offset %u ", names[f], na, pa);
  quote(&o, A[1] + pa, na);
  o += sprintf(o, ", b = %d bytes at offset %u ", nb, pb);
  quote(&o, B[1] + pb, nb);
  o += sprintf(o, ", n = %d, c = %d)", n, c);
}

static long long res[2][40]; static int nres[2];
static void put(int w, long long v) { if (nres[w] < 40) res[w][nres[w]++] = v; }
static void hash(int w, const char *p) { u64 h = 7; int i = 0; for (; p[i]; ++i) h = h * 131 + (unsigned char)p[i]; put(w, (long long)h); put(w, i); }

#define CALL(fn, args) (w ? (fn args) : (x_##fn args))
static void call(int w) {
  char *a = (char *)A[w] + pa, *b = (char *)B[w] + pb;
  switch (f) {
  case STRLEN: put(w, CALL(strlen, (a))); break;
  case STRNLEN: put(w, CALL(strnlen, (a, n))); break;
  case STRCHR: put(w, off(CALL(strchr, (a, c)), w)); break;
  case STRRCHR: put(w, off(CALL(strrchr, (a, c)), w)); break;
  case STRSTR: put(w, off(CALL(strstr, (a, b)), w)); break;
  case STRCMP: put(w, SGN(CALL(strcmp, (a, b)))); break;
  case STRCOLL: put(w, SGN(CALL(strcoll, (a, b)))); break;
  case STRNCMP: put(w, SGN(CALL(strncmp, (a, b, n)))); break;
  case STRCPY: put(w, off(CALL(strcpy, (a, b)), w)); break;
  case STRNCPY: put(w, off(CALL(strncpy, (a, b, n)), w)); break;
  case STPCPY: put(w, off(CALL(stpcpy, (a, b)), w)); break;
  case STPNCPY: put(w, off(CALL(stpncpy, (a, b, n)), w)); break;
  case STRCAT: put(w, off(CALL(strcat, (a, b)), w)); break;
  case STRNCAT: put(w, off(CALL(strncat, (a, b, n)), w)); break;
  case STRDUP: { char *p = CALL(strdup, (a)); put(w, p != 0); if (p) { hash(w, p); if (w) free(p); else x_free(p); } break; }
  case STRNDUP: { char *p = CALL(strndup, (a, n)); put(w, p != 0); if (p) { hash(w, p); if (w) free(p); else x_free(p); } break; }
  case MEMCPY: put(w, off(CALL(memcpy, (a, b, n)), w)); break;
  case MEMCCPY: put(w, off(CALL(memccpy, (a, b, c, n)), w)); break;
  case MEMMOVE: put(w, off(CALL(memmove, (a, A[w] + pb, n)), w)); break;
  case MEMSET: put(w, off(CALL(memset, (a, c, n)), w)); break;
  case MEMCHR: put(w, off(CALL(memchr, (a, c, n)), w)); break;
  case MEMCMP: put(w, SGN(CALL(memcmp, (a, b, n)))); break;
  case STRSPN: put(w, CALL(strspn, (a, b))); break;
  case STRCSPN: put(w, CALL(strcspn, (a, b))); break;
  case STRPBRK: put(w, off(CALL(strpbrk, (a, b)), w)); break;
  case STRTOK_R: case STRTOK: {
    char *save = (char *)1, *p;
    char d2[3] = { ',', (char)c, 0 };
    for (int i = 0; i < 12; ++i) {
      const char *d = i % 3 == 2 && c ? d2 : b;
      p = f == STRTOK ? CALL(strtok, (i ? 0 : a, d)) : CALL(strtok_r, (i ? 0 : a, d, &save));
      put(w, off(p, w));
      if (!p) break;
      put(w, strlen(p));
    }
    break; }
  case STRCASECMP: put(w, SGN(CALL(strcasecmp, (a, b)))); break;
  case BASENAME: hash(w, w ? basename(a) : x_basename(a)); break;
  case DIRNAME: hash(w, w ? dirname(a) : x_dirname(a)); break;
  case STRNCASECMP: put(w, SGN(CALL(strncasecmp, (a, b, n)))); break;
  }
}

static long long counts[NF];
static int bad(const char *why) { printf("BAD %s: %s\n", desc, why); fflush(stdout); return 1; }

static int one(void) {
  f = R(NF); alpha = R(5);
  counts[f]++;
  c = R(3) ? rb() : R(3) == 0 ? 0 : R(2) ? R(256) : (int)(rnd() >> 32);   /* out of char range too */
  n = 0; na = nb = 0;
  if (f == CTYPE) {
    int k = R(258) - 1; char why[100];
    c = k;
    describe();
#define CK(fn) if (!!x_##fn(k) != !!fn(k)) { sprintf(why, #fn "(%d) is %d", k, x_##fn(k)); return bad(why); }
    CK(isdigit) CK(isxdigit) CK(isalpha) CK(isalnum) CK(isspace) CK(isupper) CK(islower) CK(isascii) CK(isprint) CK(isgraph) CK(iscntrl) CK(ispunct)
    if (x_tolower(k) != tolower(k)) return bad("tolower");
    if (x_toupper(k) != toupper(k)) return bad("toupper");
    return 0;
  }
  if (f == STRERROR_R) {
    int no = R(140) - 3;
    const char *m = x_strerror(no);
    n = R(50);
    unsigned char *p = A[0] + AR - n;
    pa = AR - n; c = no; na = n;
    memset(p, 0xa5, n); memset(A[1] + pa, 0xa5, n);
    describe();
    if (!m || !*m) return bad("no message");
    armed = 1;
    if (sigsetjmp(jb, 1)) { armed = 0; return bad("touches memory outside its buffer"); }
    int r = x_strerror_r(no, (char *)p, n);
    armed = 0;
    if (n > 0 && (strncmp((char *)p, m, n - 1) || !memchr(p, 0, n))) return bad("not the (truncated, terminated) message");
    if ((r == 0) != ((int)strlen(m) < n)) return bad("status");
    return 0;
  }
  /* sizes and contents */
  int la = len(), lb = len(), term = 1;
  unsigned char ta[700], tb[700];
  for (int i = 0; i < la; ++i) ta[i] = rb();
  for (int i = 0; i < lb; ++i) tb[i] = rb();
  if (R(2) && f != MEMMOVE) { /* make b resemble a */
    lb = la ? R(la + 1) : 0;
    int s = R(3) ? 0 : R(la - lb + 1);
    memcpy(tb, ta + s, lb);
    if (lb && R(3) == 0) tb[R(lb)] = rb();
    if (f == STRCASECMP || f == STRNCASECMP) for (int i = 0; i < lb; ++i) if (R(3) == 0 && ((tb[i] | 32) >= 'a' && (tb[i] | 32) <= 'z')) tb[i] ^= 32;
    if (R(4) == 0) { lb = la; memcpy(tb, ta, la); }
  }
  n = R(4) ? R(la + 3) : R(2) ? la : R(400);
  na = la + 1; nb = lb + 1; ta[la] = 0; tb[lb] = 0;
  switch (f) {
  case BASENAME: case DIRNAME: /* a path; two leading slashes are implementation-defined */
    la = R(16);
    for (int i = 0; i < la; ++i) ta[i] = R(3) ? "//a.b"[R(5)] : R(2) ? '/' : rb();
    if (la > 1 && ta[0] == '/' && ta[1] == '/') ta[0] = 'x';
    ta[la] = 0; na = la + 1;
    break;
  case STRSPN: case STRCSPN: case STRPBRK: case STRTOK: case STRTOK_R:
    if (R(2)) { lb = R(5); for (int i = 0; i < lb; ++i) tb[i] = la && R(2) ? ta[R(la)] : rb(); tb[lb] = 0; nb = lb + 1; }
    break;
  case STRNLEN: case STRNDUP:
    if (n <= la && R(2)) { na = n; }   /* not terminated within n */
    break;
  case STRNCMP: case STRNCASECMP:
    if (n <= la && R(2)) na = n;
    if (n <= lb && R(2)) nb = n;
    break;
  case STRCPY: case STPCPY: na = lb + 1; break;
  case STRNCPY: case STPNCPY: na = n; if (n <= lb && R(2)) nb = n; break;
  case STRCAT: la = R(60); for (int i = 0; i < la; ++i) ta[i] = rb(); ta[la] = 0; na = la + lb + 1; break;
  case STRNCAT: la = R(60); for (int i = 0; i < la; ++i) ta[i] = rb(); ta[la] = 0; if (n <= lb && R(2)) nb = n; na = la + (n < lb ? n : lb) + 1; break;
  case MEMCPY: n = R(3) ? lb + 1 : R(lb + 2); na = n; nb = n; break;
  case MEMCCPY: n = lb; for (int i = 0; i < n; ++i) if (R(20) == 0) tb[i] = (unsigned char)c; nb = na = n;
    { unsigned char *q = memchr(tb, c, n); if (q) na = q - tb + 1; } break;
  case MEMSET: na = n; break;
  case MEMCHR: n = la; na = la; if (la && R(2)) { c = ta[R(la)]; if (R(3) == 0) c -= 256; unsigned char *q = memchr(ta, c, la); if (q && R(2)) { na = q - ta + 1; n = la + 50; } } break;
  case MEMCMP: n = la < lb ? la : lb; na = nb = n; break;
  }
  if (f == STRCHR || f == STRRCHR) { if (la && R(2)) { c = ta[R(la)]; if (R(3) == 0) c = (signed char)c; else if (R(4) == 0) c += 256 * R(9); } }
  memset(A[0], 0x5a, AR); memset(B[0], 0xa5, AR);
  pa = place(na); pb = place(nb);
  if (f == MEMMOVE) {
    n = R(200); na = n; nb = n; pa = 300 + R(40); pb = 300 + R(40);
    if (R(2)) { pa = R(AR - n); pb = R(AR - n); }
    if (R(4) == 0) pa = AR - n;
    if (R(4) == 0) pb = AR - n;
    if (R(6) == 0) pa = 0;
    for (int i = 0; i < AR; ++i) A[0][i] = (unsigned char)(i * 7 + (i >> 8));
  } else {
    int ca = la + 1 < na ? la + 1 : na;
    memcpy(A[0] + pa, ta, ca);
    if (na > ca) memset(A[0] + pa + ca, 0xcc, na - ca);
    memcpy(B[0] + pb, tb, nb < 700 ? nb : 700);
  }
  memcpy(A[1], A[0], AR); memcpy(B[1], B[0], AR);
  describe();
  nres[0] = nres[1] = 0;
  errno = 0;
  call(1);
  armed = 1;
  if (sigsetjmp(jb, 1)) { armed = 0; return bad("touches memory outside the ranges it was given"); }
  call(0);
  armed = 0;
  if (nres[0] != nres[1] || memcmp(res[0], res[1], nres[0] * sizeof(res[0][0]))) {
    static char w[200];
    int i = 0;
    while (i < nres[0] && i < nres[1] && res[0][i] == res[1][i]) ++i;
    sprintf(w, "result %d is %lld, expected %lld", i, i < nres[0] ? res[0][i] : -999, i < nres[1] ? res[1][i] : -999);
    return bad(w);
  }
  if (f == BASENAME || f == DIRNAME) memcpy(A[0] + pa, A[1] + pa, na);   /* may be modified */
  if (memcmp(A[0], A[1], AR)) {
    static char w[200];
    int i = 0;
    while (A[0][i] == A[1][i]) ++i;
    sprintf(w, "stores %02x at byte %d of a, expected %02x", A[0][i], i - (int)pa, A[1][i]);
    return bad(w);
  }
  if (memcmp(B[0], B[1], AR)) return bad("changes b");
  return 0;
}

int main(int argc, char **argv) {
  mallopt(M_MMAP_THRESHOLD, 1);
  static char io[4096]; setvbuf(stdout, io, _IOFBF, sizeof io);
  st = strtoull(argv[1], 0, 16) * 2 + 1;
  for (int i = 0; i < 10; ++i) rnd();
  int cnt = atoi(argv[2]), nbad = 0;
  for (int i = 0; i < 2; ++i) { A[i] = guarded(); B[i] = guarded(); }
  stack_t ss = { .ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 65536 };
  sigaltstack(&ss, 0);
  struct sigaction sa = { .sa_handler = onsegv, .sa_flags = SA_ONSTACK };
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
  int i;
  for (i = 0; i < cnt && nbad < 3; ++i) nbad += one();
  printf("DONE %d", i);
  for (int k = 0; k < NF; ++k) printf(" %s=%lld", names[k], counts[k]);
  printf("\n");
  return 0;
}
