/* Heap histories with a shadow map.  The allocator under test (symbols prefixed x_) is the only one in use.
   usage: heap SEED COUNT */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef unsigned long long u64;
static u64 st;
static u64 rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static int R(int n) { return (int)((rnd() >> 20) % n); }
extern void *x_malloc(size_t), *x_calloc(size_t, size_t), *x_realloc(void *, size_t), x_free(void *);
extern int *x___errno_location(void);

#define MAXB 1500
static struct B { unsigned char *p; size_t n; unsigned char tag; } b[MAXB];
static int nb;
static char *lo0;
static char *curbrk(void) { return (char *)syscall(SYS_brk, 0); }
enum { MALLOC, CALLOC, REALLOC, FREE, HUGE_, LIMITED, FREE_ALL, REUSE, VERIFY, NF };
static const char *names[] = { "malloc", "calloc", "realloc", "free", "impossible", "limited", "free_all", "reuse", "verify" };
static long long counts[NF], steps;
static char hist[4096]; static int hp;
static void note(const char *f, u64 a, u64 c) { if (hp > 3900) { memmove(hist, hist + 2000, hp - 2000 + 1); hp -= 2000; } hp += sprintf(hist + hp, "%s(%llu,%llu) ", f, a, c); }
static int bad(const char *w) { printf("BAD after %lld steps, %d live blocks: %s; history ends: %s\n", steps, nb, w, hp > 600 ? hist + hp - 600 : hist); return 1; }
static unsigned char pat(struct B *x, size_t i) { return (unsigned char)(x->tag * 31 + i * 7 + (i >> 8)); }
static void fill(struct B *x, size_t from) { for (size_t i = from; i < x->n; ++i) x->p[i] = pat(x, i); }
static int intact(struct B *x, size_t n) {
  for (size_t i = 0; i < n; ++i) if (x->p[i] != pat(x, i)) { char w[200]; sprintf(w, "byte %zu of a live block of %zu bytes changed", i, x->n); return bad(w); }
  return 0;
}
static int fresh(void *p, size_t n, int self) {
  char w[200];
  if ((uintptr_t)p & 15) { sprintf(w, "block %p of %zu bytes is not aligned to 16", p, n); return bad(w); }
  if ((char *)p < lo0 || (char *)p + n > curbrk()) { sprintf(w, "block %p of %zu bytes lies outside the heap %p..%p", p, n, lo0, curbrk()); return bad(w); }
  for (int i = 0; i < nb; ++i)
    if (i != self && (unsigned char *)p < b[i].p + (b[i].n ? b[i].n : 1) && b[i].p < (unsigned char *)p + (n ? n : 1)) {
      sprintf(w, "block %p of %zu bytes overlaps the live block %p of %zu bytes", p, n, b[i].p, b[i].n); return bad(w); }
  return 0;
}
static int scale;
static size_t sz(void) {
  switch (scale == 9 ? R(7) : scale) {
  case 0: return R(20);
  case 1: return R(200);
  case 2: return 16 * R(30) + R(3);
  case 3: return R(5000);
  case 4: return R(2) ? R(40) : 3000 + R(3000);
  case 5: return R(20) ? R(100) : R(300000);
  default: return 4096 * R(6) - R(40) + 64;
  }
}
static int drop(int i) {
  if (intact(&b[i], b[i].n)) return 1;
  note("free", i, b[i].n);
  memset(b[i].p, 0xdd, b[i].n);
  x_free(b[i].p); b[i] = b[--nb]; ++counts[FREE];
  return 0;
}
static int grow(int may_fail) {
  int k = R(10);
  size_t n = sz();
  if (nb == MAXB) return drop(R(nb));
  if (k < 6 || (k > 7 && !nb)) {
    note("malloc", n, 0);
    void *p = x_malloc(n); ++counts[MALLOC];
    if (!p) return n == 0 || may_fail ? 0 : bad("malloc of a modest size fails");
    if (fresh(p, n, -1)) return 1;
    b[nb] = (struct B){ p, n, (unsigned char)rnd() }; fill(&b[nb++], 0);
  } else if (k < 8) {
    size_t m = 1 + R(9), c = n / m;
    note("calloc", c, m);
    unsigned char *p = x_calloc(c, m); ++counts[CALLOC]; n = c * m;
    if (!p) return n == 0 || may_fail ? 0 : bad("calloc of a modest size fails");
    if (fresh(p, n, -1)) return 1;
    for (size_t i = 0; i < n; ++i) if (p[i]) return bad("calloc memory is not zero");
    b[nb] = (struct B){ p, n, (unsigned char)rnd() }; fill(&b[nb++], 0);
  } else {
    int i = R(nb); size_t old = b[i].n;
    if (R(4) == 0) n = old + R(40); else if (R(4) == 0) n = old ? R((int)old) : 0;
    if (R(12) == 0) {
      note("realloc0", 0, n);
      void *p = x_realloc(0, n); ++counts[REALLOC];
      if (!p) return n == 0 || may_fail ? 0 : bad("realloc(NULL, n) of a modest size fails");
      if (fresh(p, n, -1)) return 1;
      b[nb] = (struct B){ p, n, (unsigned char)rnd() }; fill(&b[nb++], 0);
      return 0;
    }
    if (n == 0 && R(4)) n = 1;
    if (intact(&b[i], old)) return 1;
    note("realloc", old, n);
    void *p = x_realloc(b[i].p, n); ++counts[REALLOC];
    if (n == 0) { if (p) { if (fresh(p, 0, i)) return 1; x_free(p); } b[i] = b[--nb]; return 0; }
    if (!p) { if (!may_fail) return bad("realloc to a modest size fails"); return intact(&b[i], old); }
    if (fresh(p, n, i)) return 1;
    struct B o = b[i]; b[i].p = p; b[i].n = n;
    if (intact(&b[i], old < n ? old : n)) return 1;
    fill(&b[i], old < n ? old : n);
  }
  return 0;
}
static int verify(void) { ++counts[VERIFY]; for (int i = 0; i < nb; ++i) if (intact(&b[i], b[i].n)) return 1; return 0; }
static int impossible(void) {
  static const size_t ns[] = { (size_t)-1, (size_t)-2, (size_t)-15, (size_t)-16, (size_t)-17, (size_t)-32, (size_t)-4096, (size_t)1 << 63, ((size_t)1 << 63) - 1, ((size_t)1 << 63) + 16, (size_t)1 << 62, (size_t)1 << 50, (size_t)-70000 };
  size_t n = ns[R(13)]; void *p; ++counts[HUGE_];
  *x___errno_location() = 0;
  switch (R(4)) {
  case 0: note("malloc", n, 0); p = x_malloc(n); break;
  case 1: note("calloc", n / 16 + 1, 16); p = x_calloc(n / 16 + 1, 16); if (n < ((size_t)1 << 55)) p = x_calloc(n, n); break;
  case 2: { size_t a = ((size_t)1 << 33) + R(3), c = ((size_t)1 << 31) + R(5); note("calloc", a, c); p = x_calloc(a, c); break; }
  default: if (!nb) return 0; { int i = R(nb); note("realloc", b[i].n, n); p = x_realloc(b[i].p, n); if (!p && intact(&b[i], b[i].n)) return 1; } break;
  }
  if (p) { char w[200]; sprintf(w, "a request of %zu bytes or more succeeds", n); return bad(w); }
  return verify();
}
static int reuse(void) {
  /* with everything freed the whole heap is one block again: a request of nearly all of it, and the same phase again, fit into it */
  while (nb) if (drop(R(nb))) return 1;
  ++counts[FREE_ALL];
  char *top = curbrk();
  size_t total = top - lo0;
  if (total > 8192) {
    size_t n = total - 4096 - 64; void *p = x_malloc(n); note("malloc", n, 0);
    if (!p) return bad("with everything freed, most of the heap cannot be allocated");
    if (fresh(p, n, -1)) return 1;
    if (curbrk() != top) return bad("with everything freed, a request for less than the heap makes it grow");
    memset(p, 0xee, n);
    x_free(p); ++counts[REUSE];
  }
  return 0;
}
int main(int argc, char **argv) {
  static char io[8192]; setvbuf(stdout, io, _IOFBF, sizeof io);
  st = strtoull(argv[1], 0, 16) * 2 + 1;
  for (int i = 0; i < 10; ++i) rnd();
  int cnt = atoi(argv[2]), r = 0;
  char *b0 = curbrk();
  lo0 = (char *)(((uintptr_t)b0 + 15) & ~(uintptr_t)15);
  if (b0 != lo0) syscall(SYS_brk, lo0);
  while (!r && steps < cnt) {
    scale = R(10); if (scale > 6) scale = 9;
    int target = R(3) ? R(100) : R(MAXB), bias = 30 + R(40), order = R(3);
    for (int k = 200 + R(3000); !r && k > 0; --k, ++steps) {
      if (nb < target / 2 || R(100) < bias) r = grow(0);
      else if (nb) r = drop(order == 0 ? R(nb) : order == 1 ? nb - 1 : 0);
      if (nb > target) while (!r && nb > target / 2 && R(30)) r = drop(R(nb));
      if (!r && R(100) == 0) { x_free(0); r = impossible(); }
      if (!r && R(400) == 0) r = verify();
    }
    if (!r && R(2)) {
      /* the system refuses to extend the heap */
      struct rlimit old, lim; getrlimit(RLIMIT_DATA, &old); lim = old; lim.rlim_cur = 4096; setrlimit(RLIMIT_DATA, &lim); ++counts[LIMITED];
      for (int k = 300; !r && k > 0; --k, ++steps) r = R(3) ? grow(1) : nb ? drop(R(nb)) : 0;
      setrlimit(RLIMIT_DATA, &old);
      if (!r) r = verify();
    }
    if (!r && R(3) == 0) r = reuse();
  }
  if (!r) r = reuse();
  printf("DONE %lld", steps);
  for (int k = 0; k < NF; ++k) printf(" %s=%lld", names[k], counts[k]);
  printf("\n");
  return 0;
}
