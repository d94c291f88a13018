/* Stream histories against a model of C streams.  The library under test has its symbols prefixed x_; its read and write
   calls go through wrappers that shorten transfers and inject errors.   usage: stdio SEED COUNT (in a scratch directory) */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned long long u64;
static u64 st;
static u64 rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static int R(int n) { return (int)((rnd() >> 20) % n); }

typedef struct XF XF;
extern XF *x_fopen(const char *, const char *), *x_fdopen(int, const char *), *x_tmpfile(void), *x_fmemopen(void *, size_t, const char *), *x_open_memstream(char **, size_t *);
extern int x_fclose(XF *), x_fflush(XF *), x_fseek(XF *, long, int), x_feof(XF *), x_fgetc(XF *), x_fputc(int, XF *), x_fputs(const char *, XF *), x_ungetc(int, XF *), x_fileno(XF *), x_fprintf(XF *, const char *, ...), x_remove(const char *);
extern long x_ftell(XF *);
extern size_t x_fwrite(const void *, size_t, size_t, XF *), x_fread(void *, size_t, size_t, XF *);
extern char *x_fgets(char *, int, XF *);
extern ssize_t x_getline(char **, size_t *, XF *);
extern void x_free(void *);
extern int *x___errno_location(void);

static int inject_fd = -1, inject_read, inject_write, inject_err;   /* 1 in n transfers shortened; errors */
static int err_read, err_write;
static long long n_short, n_err;
ssize_t __wrap_x_read(int fd, void *b, size_t n) {
  if (inject_err && R(inject_err) == 0) { ++n_err; err_read = 1; *x___errno_location() = EIO; return -1; }
  if (inject_read && n > 1 && R(inject_read) == 0) { n = 1 + R((int)n - 1); ++n_short; }
  ssize_t r = read(fd, b, n);
  if (r < 0) *x___errno_location() = errno;
  return r;
}
ssize_t __wrap_x_write(int fd, const void *b, size_t n) {
  if (inject_err && R(inject_err) == 0) { ++n_err; err_write = 1; *x___errno_location() = ENOSPC; return -1; }
  if (inject_write && n > 1 && R(inject_write) == 0) { n = 1 + R((int)n - 1); ++n_short; }
  ssize_t r = write(fd, b, n);
  if (r < 0) *x___errno_location() = errno;
  return r;
}

enum { FOPEN, TMPFILE, FMEMOPEN, MEMSTREAM, PIPE, FCLOSE, FFLUSH, FSEEK, FTELL, FEOF, FGETC, FPUTC, FPUTS, FPRINTF, FWRITE, FREAD, FGETS, GETLINE, UNGETC, ERRORS, DEVFULL, NF };
static const char *names[] = { "fopen", "tmpfile", "fmemopen", "open_memstream", "pipe", "fclose", "fflush", "fseek", "ftell", "feof", "fgetc", "fputc", "fputs", "fprintf",
  "fwrite", "fread", "fgets", "getline", "ungetc", "io_errors", "dev_full" };
static long long counts[NF], steps;
static char hist[8192]; static int hp;
#define NOTE(...) do { if (hp > 7000) { memmove(hist, hist + 4000, hp - 4000 + 1); hp -= 4000; } hp += snprintf(hist + hp, 1000, __VA_ARGS__); } while (0)
static int bad_(const char *w) { printf("BAD %s; history ends: %s\n", w, hp > 900 ? hist + hp - 900 : hist); return 1; }
static char wbuf[2000];
#define BAD(...) return snprintf(wbuf, sizeof wbuf, __VA_ARGS__), bad_(wbuf)

#define MAXC 40000
typedef struct { unsigned char c[MAXC]; long n; } File;
#define NFILE 4
static File files[NFILE]; static int exists[NFILE], open_[NFILE];
enum Kind { KFILE, KTMP, KMEM, KGROW };
typedef struct {
  XF *fp; File *f; int kind, idx, rd, wr, app, last;   /* last: 0 none, 1 read, 2 write */
  long pos; int ug; int eof; int known;                /* known: position is defined */
  char mem[600]; long cap; char *ptr; size_t size; int wrote;
} S;
#define NS 4
static S s[NS]; static File aux[NS]; static int lost;

static unsigned char rb(void) { int k = R(8); return k == 0 ? '\n' : k == 1 ? (unsigned char)rnd() : k == 2 ? 0xff * R(2) : "abcdefgh"[R(8)]; }
static void fname(char *b, int i) { sprintf(b, "f%d.dat", i); }

static int content(S *p, const char *when) {
  static unsigned char g[MAXC + 10];
  if (p->kind == KFILE || p->kind == KTMP) {
    char nm[20]; fname(nm, p->idx);
    int fd = p->kind == KFILE ? open(nm, O_RDONLY) : dup(x_fileno(p->fp));
    long n = pread(fd, g, MAXC + 10, 0); close(fd);
    if (n != p->f->n) BAD("%s: the file has %ld bytes, expected %ld", when, n, p->f->n);
    for (long i = 0; i < n; ++i) if (g[i] != p->f->c[i]) BAD("%s: byte %ld of the file is %02x, expected %02x", when, i, g[i], p->f->c[i]);
  } else if (p->kind == KGROW) {
    if (p->pos == p->f->n && p->size != (size_t)p->f->n) BAD("%s: the memory stream reports %zu bytes, expected %ld", when, p->size, p->f->n);
    if (p->size != (size_t)(p->pos < p->f->n ? p->pos : p->f->n)) BAD("%s: the memory stream reports %zu bytes at position %ld of %ld", when, p->size, p->pos, p->f->n);
    if (!p->ptr) BAD("%s: the memory stream has no buffer", when);
    for (long i = 0; i < p->f->n; ++i) if ((unsigned char)p->ptr[i] != p->f->c[i]) BAD("%s: byte %ld of the memory stream is %02x, expected %02x", when, i, (unsigned char)p->ptr[i], p->f->c[i]);
    if (p->ptr[p->f->n]) BAD("%s: the memory stream is not terminated", when);
  } else if (p->wr) {
    for (long i = 0; i < p->f->n; ++i) if ((unsigned char)p->mem[i] != p->f->c[i]) BAD("%s: byte %ld of the buffer is %02x, expected %02x", when, i, (unsigned char)p->mem[i], p->f->c[i]);
    if (p->wrote && p->f->n < p->cap && p->mem[p->f->n]) BAD("%s: the buffer is not terminated", when);
    for (long i = p->cap; i < (long)sizeof p->mem; ++i) if (p->mem[i] != 0x55) BAD("%s: a byte beyond the buffer changed", when);
  }
  return 0;
}
static int memsame(S *p) {  /* a stream that only reads leaves the buffer alone */
  for (long i = 0; i < p->cap; ++i) if ((unsigned char)p->mem[i] != p->f->c[i]) BAD("byte %ld of a buffer that is only read changed", i);
  for (long i = p->cap; i < (long)sizeof p->mem; ++i) if (p->mem[i] != 0x55) BAD("a byte beyond the buffer changed");
  return 0;
}
static int fd_count;
static int doclose(S *p) {
  char d[64]; sprintf(d, "after fclose of stream %d", (int)(p - s));
  NOTE("fclose(%d) ", (int)(p - s)); ++counts[FCLOSE];
  int tmpfd = -1;
  if (p->kind == KTMP) { if (x_fflush(p->fp)) BAD("fflush of a temporary file fails"); if (content(p, d)) return 1; }
  int r = x_fclose(p->fp);
  if (r) BAD("fclose(%d) = %d", (int)(p - s), r);
  p->wrote = p->wrote || p->wr;
  if (p->kind != KTMP) { if (p->kind == KMEM && !p->wr ? memsame(p) : content(p, d)) return 1; }
  if (p->kind == KFILE) open_[p->idx] = 0;
  if (p->kind == KGROW) x_free(p->ptr);
  p->fp = 0;
  return 0;
}
static int doopen(S *p) {
  int i = (int)(p - s);
  memset(p, 0, sizeof *p); p->known = 1; p->ug = -1;
  int k = R(10);
  if (k < 6) {
    int x = R(NFILE); if (open_[x]) return 0;
    static const char *modes[] = { "r", "w", "a", "r+", "w+", "a+", "rb", "wb", "r+b", "w+b", "rb+", "ab", "wb+", "a+b" };
    const char *m = modes[R(14)]; char nm[20]; fname(nm, x);
    p->kind = KFILE; p->idx = x; p->f = &files[x];
    p->rd = m[0] == 'r' || strchr(m, '+'); p->wr = m[0] != 'r' || strchr(m, '+'); p->app = m[0] == 'a';
    if (m[0] == 'r' && !exists[x]) {
      XF *f = x_fopen(nm, m); if (f) BAD("fopen of a file that does not exist for \"%s\" succeeds", m);
      return 0;
    }
    NOTE("%d=fopen(f%d,%s) ", i, x, m); ++counts[FOPEN];
    if (R(3) == 0 && !(m[0] == 'w')) {   /* the same through a descriptor */
      int fd = open(nm, (p->rd && p->wr ? O_RDWR : p->rd ? O_RDONLY : O_WRONLY) | (m[0] != 'r' ? O_CREAT : 0) | (p->app ? O_APPEND : 0), 0600);
      p->fp = x_fdopen(fd, m); if (p->fp && x_fileno(p->fp) != fd) BAD("fileno gives %d, expected %d", x_fileno(p->fp), fd);
    } else p->fp = x_fopen(nm, m);
    if (!p->fp) BAD("fopen(\"%s\") fails, errno %d", m, *x___errno_location());
    exists[x] = open_[x] = 1;
    if (m[0] == 'w') { p->f->n = 0; struct stat sb; if (stat(nm, &sb) || sb.st_size) BAD("fopen for \"%s\" leaves %ld bytes", m, (long)sb.st_size); }
    if (p->app) p->known = 0;
  } else if (k == 6) {
    NOTE("%d=tmpfile() ", i); ++counts[TMPFILE];
    p->kind = KTMP; p->f = &aux[i]; p->f->n = 0; p->rd = p->wr = 1;
    p->fp = x_tmpfile(); if (!p->fp) BAD("tmpfile() fails, errno %d", *x___errno_location());
  } else if (k < 9) {
    p->kind = KMEM; p->f = &aux[i]; p->cap = 2 + R(R(2) ? 20 : 500);
    memset(p->mem, 0x55, sizeof p->mem);
    int mk = R(3); for (long j = 0; j < p->cap; ++j) p->mem[j] = (char)rb();
    const char *m = mk == 0 ? "r" : mk == 1 ? "w" : "w+";
    p->rd = mk != 1; p->wr = mk != 0;
    p->f->n = p->wr ? 0 : p->cap; memcpy(p->f->c, p->mem, p->cap);
    NOTE("%d=fmemopen(%ld,%s) ", i, p->cap, m); ++counts[FMEMOPEN];
    p->fp = x_fmemopen(p->mem, p->cap, m); if (!p->fp) BAD("fmemopen fails");
  } else {
    NOTE("%d=open_memstream() ", i); ++counts[MEMSTREAM];
    p->kind = KGROW; p->f = &aux[i]; p->f->n = 0; p->wr = 1;
    p->fp = x_open_memstream(&p->ptr, &p->size); if (!p->fp) BAD("open_memstream fails");
  }
  return 0;
}
static long room(S *p) { return p->kind == KMEM ? p->cap - 1 : MAXC; }
static void put(S *p, int c) {   /* the model's write */
  if (p->app) p->pos = p->f->n;
  if (p->pos >= room(p)) return;
  while (p->f->n < p->pos) p->f->c[p->f->n++] = 0;
  p->f->c[p->pos++] = (unsigned char)c; if (p->pos > p->f->n) p->f->n = p->pos;
  p->wrote = 1; p->known = 1;
}
static int get(S *p) {
  if (p->ug >= 0) { int c = p->ug; p->ug = -1; ++p->pos; return c; }
  if (p->pos < p->f->n) return p->f->c[p->pos++];
  p->eof = 1; return -1;
}
static int seek(S *p) {
  int i = (int)(p - s), o = R(3); long off, base = o == 0 ? 0 : o == 1 ? p->pos : p->f->n;
  if (!p->known) { o = R(2) * 2; base = o ? p->f->n : 0; }
  long target = R(6) == 0 ? p->f->n + R(R(3) ? 3 : 400) : p->f->n ? R((int)p->f->n + 1) : 0;
  if (target > MAXC - 10) target = 0;
  if (R(12) == 0) target = -1 - R(50);
  if (p->kind == KMEM && target > p->f->n) target = p->f->n;
  off = target - base;
  NOTE("fseek(%d,%ld,%d) ", i, off, o); ++counts[FSEEK];
  int r = x_fseek(p->fp, off, o);
  if (target < 0) { if (r == 0) BAD("fseek to a negative position succeeds"); if (p->last == 2) { p->last = 0; } if (p->ug >= 0) { p->known = 0; } if (!p->known || p->last == 1) { r = x_fseek(p->fp, 0, 0); if (r) BAD("fseek to the start fails"); p->pos = 0; p->ug = -1; p->eof = 0; p->known = 1; p->last = 0; } return 0; }
  if (r) BAD("fseek(%ld, %d) = %d errno %d", off, o, r, *x___errno_location());
  p->pos = target; p->ug = -1; p->eof = 0; p->last = 0; p->known = 1;
  if (x_feof(p->fp)) BAD("feof after fseek");
  if (p->kind <= KTMP && p->wr && R(3) == 0) return content(p, "after fseek");
  return 0;
}
static int tell(S *p) {
  if (!p->known || (p->ug >= 0 && p->pos < 0)) return 0;
  ++counts[FTELL];
  long t = x_ftell(p->fp); NOTE("ftell(%d) ", (int)(p - s));
  if (t != p->pos) BAD("ftell(%d) = %ld, expected %ld", (int)(p - s), t, p->pos);
  return 0;
}
static int prep(S *p, int want) {
  if (p->last && p->last != want && !(p->last == 1 && p->eof && p->ug < 0)) {
    if (p->last == 2 && R(2)) { NOTE("fflush(%d) ", (int)(p - s)); if (x_fflush(p->fp)) BAD("fflush fails"); ++counts[FFLUSH]; if (p->kind <= KTMP && content(p, "after fflush")) return 1; }
    else { NOTE("fseek(%d,0,1) ", (int)(p - s)); ++counts[FSEEK]; if (x_fseek(p->fp, 0, SEEK_CUR)) BAD("fseek(0, SEEK_CUR) fails"); p->ug = -1; p->eof = 0; }
  }
  if (want == 1 && !p->known) { NOTE("fseek(%d,0,0) ", (int)(p - s)); if (x_fseek(p->fp, 0, SEEK_SET)) BAD("fseek(0, SEEK_SET) fails"); p->pos = 0; p->known = 1; }
  p->last = want;
  return 0;
}
static int dowrite(S *p) {
  static unsigned char b[3000]; int i = (int)(p - s);
  if (prep(p, 2)) return 1;
  if (p->f->n > MAXC - 4000 || p->pos > MAXC - 4000) return 0;
  long before = p->pos; int fits;
  switch (R(4)) {
  case 0: {
    int c = rb(); if (R(8) == 0) c += 256; NOTE("fputc(%d,%d) ", c, i); ++counts[FPUTC];
    int r = x_fputc(c, p->fp); put(p, c); if (r != (c & 255) && p->kind != KMEM) BAD("fputc(%d) = %d", c, r); break; }
  case 1: {
    int n = R(R(2) ? 8 : R(2) ? 160 : 700); for (int j = 0; j < n; ++j) { b[j] = rb(); if (!b[j]) b[j] = 'z'; } b[n] = 0;
    NOTE("fputs(%d bytes,%d) ", n, i); ++counts[FPUTS];
    int r = x_fputs((char *)b, p->fp); for (int j = 0; j < n; ++j) put(p, b[j]); if (r < 0 && p->kind != KMEM) BAD("fputs of %d bytes = %d", n, r); break; }
  case 2: {
    int v = (int)rnd(), w = R(20); char t[100]; int n = sprintf(t, "<%*d|%s|%c>", w, v, "xyz\nz", 'q');
    NOTE("fprintf(%d) ", i); ++counts[FPRINTF];
    int r = x_fprintf(p->fp, "<%*d|%s|%c>", w, v, "xyz\nz", 'q'); for (int j = 0; j < n; ++j) put(p, t[j]); if (r != n && p->kind != KMEM) BAD("fprintf = %d, expected %d", r, n); break; }
  default: {
    int sz = R(5) ? 1 + R(9) : R(2) ? 128 : 0, n = R(R(2) ? 20 : 200); if (sz == 128) n %= 12; for (int j = 0; j < sz * n; ++j) b[j] = rb();
    NOTE("fwrite(%d*%d,%d) ", sz, n, i); ++counts[FWRITE];
    size_t r = x_fwrite(b, sz, n, p->fp); for (int j = 0; j < sz * n; ++j) put(p, b[j]); if (r != (size_t)(sz ? n : 0) && p->kind != KMEM) BAD("fwrite(%d, %d) = %zu", sz, n, r); break; }
  }
  return 0;
}
static int doread(S *p) {
  static unsigned char b[6000], e[6000]; int i = (int)(p - s);
  if (prep(p, 1)) return 1;
  switch (R(5)) {
  case 0: {
    NOTE("fgetc(%d) ", i); ++counts[FGETC];
    int r = x_fgetc(p->fp), x = get(p); if (r != x) BAD("fgetc(%d) = %d, expected %d", i, r, x); break; }
  case 1: {
    int n = R(5) ? 2 + R(60) : R(2) ? 1 : 600; memset(b, 0x77, sizeof b); NOTE("fgets(%d,%d) ", n, i); ++counts[FGETS];
    char *r = x_fgets((char *)b, n, p->fp); int k = 0, c; while (k < n - 1) { c = get(p); if (c < 0) break; e[k++] = (unsigned char)c; if (c == '\n') break; }
    if (n > 1 && k == 0) { if (r) BAD("fgets at the end of file returns a string"); break; }
    if (r != (char *)b) BAD("fgets(%d) returns %p", n, r);
    e[k] = 0; if (memcmp(b, e, k + 1) || b[k + 1] != 0x77) BAD("fgets(%d, %d) stores the wrong bytes", n, i);
    break; }
  case 2: {
    static char *l; static size_t cap; NOTE("getline(%d) ", i); ++counts[GETLINE];
    if (p->f->n - p->pos > 5000) break;
    ssize_t r = x_getline(&l, &cap, p->fp); int k = 0, c; do { c = get(p); if (c < 0) break; e[k++] = (unsigned char)c; } while (c != '\n');
    if (k == 0) { if (r != -1) BAD("getline at the end of file = %zd", r); break; }
    if (r != k || memcmp(l, e, k) || l[k] || cap < (size_t)k + 1) BAD("getline(%d) = %zd, expected %d", i, r, k);
    break; }
  case 3: {
    int sz = R(6) ? 1 + R(7) : R(2) ? 0 : 100, n = R(R(2) ? 12 : R(2) ? 70 : 800); if (sz == 100) n %= 50; memset(b, 0x77, sizeof b);
    NOTE("fread(%d*%d,%d) ", sz, n, i); ++counts[FREAD];
    size_t r = x_fread(b, sz, n, p->fp); int k = 0, c = 0; while (k < sz * n) { c = get(p); if (c < 0) break; e[k++] = (unsigned char)c; }
    if (r != (size_t)(sz ? k / sz : 0)) BAD("fread(%d, %d) = %zu, expected %d", sz, n, r, sz ? k / sz : 0);
    if (memcmp(b, e, k) || b[sz * n] != 0x77) BAD("fread(%d, %d) stores the wrong bytes", sz, n);
    break; }
  default: {
    if (p->ug >= 0 || p->pos == 0) break;
    int c = rb(); NOTE("ungetc(%d,%d) ", c, i); ++counts[UNGETC];
    int r = x_ungetc(c, p->fp); if (r != c) BAD("ungetc(%d) = %d", c, r);
    p->ug = c; --p->pos; p->eof = 0;
    if (x_feof(p->fp)) BAD("feof after ungetc");
    break; }
  }
  ++counts[FEOF];
  if (!x_feof(p->fp) != !p->eof) BAD("feof(%d) = %d after the read, expected %d", i, x_feof(p->fp), p->eof);
  return 0;
}
static int dopipe(void) {
  int fd[2]; if (pipe(fd)) return 0;
  ++counts[PIPE]; NOTE("pipe ");
  int n = R(R(2) ? 30 : 3000); u64 key = rnd(); static unsigned char all[3000]; for (int i = 0; i < n; ++i) all[i] = rb();
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    close(fd[0]);
    for (int i = 0; i < n; ) { int k = 1 + R(R(2) ? 5 : 300); if (k > n - i) k = n - i; if (write(fd[1], all + i, k) != k) break; i += k; if (R(4) == 0) usleep(R(300)); }
    _exit(0);
  }
  close(fd[1]);
  S *p = &s[NS - 1]; static S sv; sv = *p; static File f; memcpy(f.c, all, n); f.n = n;
  memset(p, 0, sizeof *p); p->kind = KFILE; p->f = &f; p->rd = 1; p->ug = -1; p->known = 1; p->idx = -1;
  p->fp = x_fdopen(fd[0], "r"); int r = 0;
  while (!r && p->fp && !p->eof) r = doread(p);
  if (p->fp) x_fclose(p->fp);
  *p = sv; waitpid(pid, 0, 0);
  return r;
}
static int doerrors(void) {
  /* operations that meet an error report it and leave the program intact */
  char nm[20] = "err.dat"; unsigned char b[4000]; ++counts[ERRORS]; int wr = R(2); NOTE("errors(%s) ", wr ? "write" : "read");
  memset(b, 'x', sizeof b); for (int i = 0; i < 4000; i += 1 + R(100)) b[i] = '\n';
  int fd = open(nm, O_RDWR | O_CREAT | O_TRUNC, 0600); if (!wr && write(fd, b, 4000) != 4000) {} close(fd);
  XF *fp = x_fopen(nm, wr ? "w" : "r"); if (!fp) BAD("fopen fails");
  inject_err = 2 + R(6); err_read = err_write = 0; int reported = 0; long got = 0;
  for (int i = 0; i < 40; ++i) {
    int had = err_write | err_read, k = R(900);
    if (wr) {
      if (R(2)) { size_t r = x_fwrite(b, 1, k, fp); if (r > (size_t)k) { inject_err = 0; BAD("fwrite of %d bytes = %zu", k, r); } reported |= r != (size_t)k; }
      else { reported |= x_fflush(fp) != 0; }
    } else {
      if (R(2)) { unsigned char g[1000]; size_t r = x_fread(g, 1, k, fp); if (r > (size_t)k) { inject_err = 0; BAD("fread of %d bytes = %zu", k, r); } reported |= r != (size_t)k;
        if (r && !err_read && memcmp(g, b + got, r)) { inject_err = 0; BAD("fread gives the wrong bytes"); } got += r; }
      else { int c = x_fgetc(fp); reported |= c == -1; if (c != -1 && !err_read && c != b[got]) { inject_err = 0; BAD("fgetc gives the wrong byte"); } got += c != -1; }
      if (got >= 2500) break;
    }
    if ((err_write | err_read) && !had && !wr && !reported) { inject_err = 0; BAD("a failing read is not reported"); }
    if (err_read | err_write) break;
  }
  inject_err = 0;
  int r = x_fclose(fp); reported |= r != 0;
  if ((err_read | err_write) && !reported) BAD("a failing %s is never reported", wr ? "write" : "read");
  if (!(err_read | err_write) && wr && reported) BAD("writing reports an error that did not happen");
  return 0;
}
static int devfull(void) {
  ++counts[DEVFULL]; NOTE("/dev/full ");
  XF *fp = x_fopen("/dev/full", "w"); if (!fp) return 0;
  int n = 1 + R(100), rep = 0; for (int i = 0; i < n; ++i) rep |= x_fputc('a', fp) == -1;
  rep |= x_fclose(fp) != 0;
  if (!rep) BAD("writing to a full device is never reported");
  fp = x_fopen(".", "r"); if (fp) { if (x_fgetc(fp) != -1) BAD("fgetc on a directory succeeds"); x_fclose(fp); }
  return 0;
}
int main(int argc, char **argv) {
  static char io[8192]; setvbuf(stdout, io, _IOFBF, sizeof io);
  signal(SIGPIPE, SIG_IGN);
  st = strtoull(argv[1], 0, 16) * 2 + 1;
  for (int i = 0; i < 10; ++i) rnd();
  int cnt = atoi(argv[2]), r = 0;
  while (!r && steps < cnt) {
    if (R(300) == 0) { inject_read = R(3) ? 0 : 1 + R(4); inject_write = R(3) ? 0 : 1 + R(4); }
    ++steps;
    int k = R(100);
    if (k == 0 && R(6) == 0) { r = dopipe(); continue; }
    if (k == 1 && R(3) == 0) { r = doerrors(); continue; }
    if (k == 2 && R(6) == 0) { r = devfull(); continue; }
    S *p = &s[R(NS)];
    if (!p->fp) { r = doopen(p); continue; }
    if (k < 3 || (p->f->n > MAXC - 5000 && R(3) == 0)) { r = doclose(p); if (!r && R(10) == 0) { int x = R(NFILE); char nm[20]; fname(nm, x); if (exists[x] && !open_[x]) { if (x_remove(nm)) { r = bad_("remove fails"); } exists[x] = 0; files[x].n = 0; } } continue; }
    if (k < 15) { r = seek(p); continue; }
    if (k < 22) { r = tell(p); continue; }
    if (k < 27) { if (p->last != 1) { ++counts[FFLUSH]; NOTE("fflush(%d) ", (int)(p - s)); if (x_fflush(p->fp)) r = bad_("fflush fails"); else if (p->kind != KMEM || p->wr) r = content(p, "after fflush"); } continue; }
    if (p->rd && (!p->wr || R(2))) r = doread(p); else if (p->wr) r = dowrite(p);
    if (!r && !p->rd && R(200) == 0 && x_fgetc(p->fp) != -1) r = bad_("reading a stream opened for writing succeeds");
    if (!r && !p->wr && R(200) == 0 && x_fputc('a', p->fp) != -1) r = bad_("writing a stream opened for reading succeeds");
  }
  for (int i = 0; i < NS && !r; ++i) if (s[i].fp) r = doclose(&s[i]);
  printf("DONE %lld short=%lld errors=%lld", steps, n_short, n_err);
  for (int k = 0; k < NF; ++k) printf(" %s=%lld", names[k], counts[k]);
  printf("\n");
  return 0;
}
