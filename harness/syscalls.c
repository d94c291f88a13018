/* The system-call wrappers of the library under test (symbols prefixed x_) against the host's, each in a directory of its own.
   usage: syscalls SEED COUNT ; runs in a scratch directory. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned long long u64;
static u64 st;
static u64 rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static int R(int n) { return (int)((rnd() >> 20) % n); }

extern int *x___errno_location(void);
extern int x_open(const char *, int, int), x_close(int), x_unlink(const char *), x_rmdir(const char *), x_mkdir(const char *, int), x_mkdirat(int, const char *, int), x_chmod(const char *, int), x_chdir(const char *), x_dup(int), x_pipe(int *),
  x_stat(const char *, void *), x_lstat(const char *, void *), x_fstat(int, void *), x_fstatat(int, const char *, void *, int), x_ioctl(int, int, ...), x_isatty(int), x_kill(int, int), x_remove(const char *);
extern ssize_t x_read(int, void *, size_t), x_write(int, const void *, size_t), x_getrandom(void *, size_t, unsigned);
extern off_t x_lseek(int, off_t, int);
extern char *x_getcwd(char *, size_t);
extern int x_fork(void), x_waitpid(int, int *, int), x_wait4(int, int *, int, void *), x_execve(const char *, char *const[], char *const[]);
extern long x_time(long *); extern int x_clock_gettime(int, void *);
extern void x_free(void *);

static char rootA[PATH_MAX], rootB[PATH_MAX];
static char hist[64][160]; static int nhist;
#define BAD(...) do { printf("BAD " __VA_ARGS__); printf("; before:"); for (int q = nhist > 5 ? nhist - 5 : 0; q < nhist; ++q) printf(" %s;", hist[q & 63]); printf("\n"); return 1; } while (0)
static const char *ops[] = { "open", "close", "read", "write", "lseek", "dup", "pipe", "unlink", "rmdir", "mkdir", "mkdirat", "chmod", "chdir", "getcwd", "stat", "lstat", "fstat", "fstatat", "ioctl", "isatty", "remove", "execve", "wait", "kill", "time", "getrandom", "getcwd_null" };
enum { OPEN, CLOSE, READ, WRITE, LSEEK, DUP, PIPE, UNLINK, RMDIR, MKDIR, MKDIRAT, CHMOD, CHDIR, GETCWD, STAT, LSTAT, FSTAT, FSTATAT, IOCTL, ISATTY, REMOVE, EXECVE, WAIT, KILL, TIME, RANDOM, GETCWDN, NOPS };
static long long counts[NOPS], fails;
#define NF 6
static int fa[NF], fb[NF];     /* the same open file on both sides; -1 none */
static int depth;

static const char *path(void) {
  static char big[5000];
  static const char *ps[] = { "a", "b", "c", "d", "d/x", "d/e", "d/e/f", "a/x", "", "lnk", "dang", "loop", "./a", "d/../b", "noperm", "/dev/null", "/dev/full", "/dev/zero", "/nonexistent/q", "d/" };
  int k = R(22);
  if (k == 20) { memset(big, 'z', 300); big[300] = 0; return big; }
  if (k == 21) { memset(big, '/', 4500); big[4500] = 0; big[0] = 'd'; return big; }
  return ps[k % 20];
}
static int writable(const char *p) { return strncmp(p, "/dev", 4) || !strcmp(p, "/dev/null"); }
static void inA(void) { if (chdir(rootA)) abort(); for (int i = 0; i < depth; ++i) if (chdir("d")) break; }
static void inB(void) { if (chdir(rootB)) abort(); for (int i = 0; i < depth; ++i) if (chdir("d")) break; }

static int cmpstat(const struct stat *a, const struct stat *b) {
  return a->st_mode != b->st_mode || a->st_nlink != b->st_nlink || (S_ISREG(a->st_mode) && a->st_size != b->st_size) || a->st_uid != b->st_uid || a->st_rdev != b->st_rdev;
}

static int one(void) {
  int k = R(NOPS), ea, eb; long ra, rb; const char *p = path(); int f = R(NF);
  int afd = fa[f] >= 0 && R(12) ? fa[f] : (int[]){ -1, 999, INT_MAX, INT_MIN }[R(4)], bfd = afd == fa[f] ? fb[f] : afd;
  static char bufA[70000], bufB[70000];
  struct stat sa, sb; memset(&sa, 0, sizeof sa); memset(&sb, 0, sizeof sb);
  char *h = hist[nhist++ & 63]; snprintf(h, 150, "%s", ops[k]);
  if (k == OPEN && fa[f] >= 0) k = R(3) ? READ : CLOSE;
  ++counts[k];
  *x___errno_location() = -77; errno = 0;
#define CALL(A, B) do { inA(); *x___errno_location() = 0; ra = (A); ea = *x___errno_location(); inB(); errno = 0; rb = (B); eb = errno; \
    if (rb < 0) ++fails; if (ra != rb || (rb < 0 && ea != eb)) BAD("%s returns %ld errno %d, expected %ld errno %d", h, ra, ea, rb, eb); } while (0)
  switch (k) {
  case OPEN: {
    int fl = R(3), mode = R(512); if (R(2)) fl |= O_CREAT; if (!R(4)) fl |= O_EXCL; if (!R(4)) fl |= O_TRUNC; if (!R(4)) fl |= O_APPEND;
    if (!writable(p)) fl &= ~(O_CREAT | O_TRUNC);
    snprintf(h, 150, "open(%.30s, 0%o, 0%o)", p, fl, mode);
    inA(); *x___errno_location() = 0; ra = x_open(p, fl, mode); ea = *x___errno_location(); inB(); errno = 0; rb = open(p, fl, mode); eb = errno;
    if ((ra < 0) != (rb < 0) || (rb < 0 && (ra != -1 || ea != eb))) BAD("%s returns %ld errno %d, expected %ld errno %d", h, ra, ea, rb, eb);
    if (rb < 0) { ++fails; return 0; }
    fa[f] = ra; fb[f] = rb; if (fstat(ra, &sa) || fstat(rb, &sb) || cmpstat(&sa, &sb)) BAD("%s: mode %o, expected %o", h, sa.st_mode, sb.st_mode);
    if (fcntl(ra, F_GETFL) != fcntl(rb, F_GETFL)) BAD("%s: flags %o, expected %o", h, fcntl(ra, F_GETFL), fcntl(rb, F_GETFL));
    return 0; }
  case CLOSE: snprintf(h, 150, "close(%d)", afd); CALL(x_close(afd), close(bfd)); if (afd == fa[f]) fa[f] = fb[f] = -1; return 0;
  case READ: { size_t n = R(4) ? R(300) : R(65000); snprintf(h, 150, "read(%d, %zu)", afd, n); memset(bufA, 1, sizeof bufA); memset(bufB, 1, sizeof bufB);
    struct stat s; if (fstat(afd, &s) == 0 && S_ISFIFO(s.st_mode)) { int av = 0; ioctl(afd, FIONREAD, &av); if (!av) return 0; if ((int)n > av) n = av; }
    CALL(x_read(afd, bufA, n), read(bfd, bufB, n)); if (memcmp(bufA, bufB, sizeof bufA)) BAD("%s: contents differ", h); return 0; }
  case WRITE: { size_t n = R(4) ? R(300) : R(20000); snprintf(h, 150, "write(%d, %zu)", afd, n); for (size_t i = 0; i < n; ++i) bufA[i] = (char)rnd();
    struct stat s; if (fstat(afd, &s) == 0 && S_ISFIFO(s.st_mode)) { int av = 0; ioctl(afd, FIONREAD, &av); if (av > 30000) return 0; }
    CALL(x_write(afd, bufA, n), write(bfd, bufA, n)); return 0; }
  case LSEEK: { off_t o = R(3) ? R(2000) - 500 : R(2) ? (off_t)rnd() % 100000000000LL : -1; int w = R(5) - 1; snprintf(h, 150, "lseek(%d, %lld, %d)", afd, (long long)o, w); if (o > 100000) { off_t a = x_lseek(afd, o, w); if (a != lseek(bfd, o, w) && a != -1) BAD("%s = %lld", h, (long long)a); x_lseek(afd, 0, 0); lseek(bfd, 0, 0); return 0; } CALL(x_lseek(afd, o, w), lseek(bfd, o, w)); return 0; }
  case DUP: { snprintf(h, 150, "dup(%d)", afd); inA(); *x___errno_location() = 0; ra = x_dup(afd); ea = *x___errno_location(); rb = dup(bfd); eb = errno;
    if ((ra < 0) != (rb < 0) || (rb < 0 && ea != eb)) BAD("%s returns %ld errno %d, expected %ld errno %d", h, ra, ea, rb, eb);
    if (rb >= 0) { int g = R(NF); if (fa[g] >= 0) { close(fa[g]); close(fb[g]); } fa[g] = ra; fb[g] = rb; if (fcntl(ra, F_GETFL) != fcntl(rb, F_GETFL)) BAD("%s: another file", h); } return 0; }
  case PIPE: { int a[2], b[2]; inA(); ra = x_pipe(a); rb = pipe(b); if (ra || rb) BAD("pipe returns %ld", ra); int i = R(NF), j = (i + 1 + R(NF - 1)) % NF;
    if (fa[i] >= 0) close(fa[i]), close(fb[i]); if (fa[j] >= 0) close(fa[j]), close(fb[j]); signal(SIGPIPE, SIG_IGN);
    fa[i] = a[0]; fb[i] = b[0]; fa[j] = a[1]; fb[j] = b[1]; return 0; }
  case UNLINK: case RMDIR: case REMOVE: {
    if (p[0] == '/') return 0; snprintf(h, 150, "%s(%.30s)", ops[k], p);
    if (k == UNLINK) CALL(x_unlink(p), unlink(p)); else if (k == RMDIR) CALL(x_rmdir(p), rmdir(p));
    else { struct stat s; inB(); if (lstat(p, &s) == 0 && S_ISDIR(s.st_mode)) return 0; CALL(x_remove(p), unlink(p)); } return 0; }
  case MKDIR: case MKDIRAT: { int m = R(512) | 0700; if (p[0] == '/') return 0; snprintf(h, 150, "%s(%.30s, 0%o)", ops[k], p, m);
    if (k == MKDIR) CALL(x_mkdir(p, m), mkdir(p, m)); else CALL(x_mkdirat(AT_FDCWD, p, m), mkdirat(AT_FDCWD, p, m));
    inA(); int a = lstat(p, &sa); inB(); int b = lstat(p, &sb); if (a != b || cmpstat(&sa, &sb)) BAD("%s: mode %o, expected %o", h, sa.st_mode, sb.st_mode); return 0; }
  case CHMOD: { int m = R(512) | 0700; if (p[0] == '/') return 0; snprintf(h, 150, "chmod(%.30s, 0%o)", p, m); CALL(x_chmod(p, m), chmod(p, m)); inA(); stat(p, &sa); inB(); stat(p, &sb); if (cmpstat(&sa, &sb)) BAD("%s: mode %o, expected %o", h, sa.st_mode, sb.st_mode); return 0; }
  case CHDIR: { int d = R(2); snprintf(h, 150, "chdir(%.30s)", d ? p : "d"); if (d) { inA(); ra = x_chdir(p); ea = *x___errno_location(); char c[PATH_MAX] = "?"; char *cA = getcwd(c, sizeof c); inB(); errno = 0; rb = chdir(p); eb = errno; char e[PATH_MAX] = "?"; getcwd(e, sizeof e);
      if (ra != rb || (rb < 0 && ea != eb)) BAD("%s returns %ld errno %d, expected %ld errno %d", h, ra, ea, rb, eb); if (cA && strncmp(c, rootA, strlen(rootA)) == 0 && strcmp(c + strlen(rootA), e + strlen(rootB))) BAD("%s: directory %s, expected %s", h, c, e); } else depth = R(3); return 0; }
  case GETCWD: { size_t n = R(3) ? R(200) : R(2) ? PATH_MAX : R(2); snprintf(h, 150, "getcwd(buf, %zu)", n); memset(bufA, 1, 5000); inA(); *x___errno_location() = 0; char *a = x_getcwd(bufA, n); ea = *x___errno_location(); char *c = 0; if (a) { if (a != bufA) BAD("%s returns another pointer", h); static char t[PATH_MAX]; c = getcwd(t, sizeof t); if (!c || strcmp(c, a)) BAD("%s = %s, expected %s", h, a, c); if (strlen(a) + 1 > n) BAD("%s beyond the buffer", h); }
    else { static char t[PATH_MAX]; errno = 0; c = n ? getcwd(t, n) : 0; eb = n ? errno : ERANGE; ++fails; if (c) BAD("%s fails with %d", h, ea); if (n ? ea != eb : ea != EINVAL && ea != ERANGE) BAD("%s: errno %d, expected %d", h, ea, eb); }
    for (int i = (int)n; i < (int)n + 64; ++i) if (bufA[i] != 1) BAD("%s writes at %d", h, i); return 0; }
  case GETCWDN: { inA(); char *a = x_getcwd(0, 0); static char t[PATH_MAX]; char *c = getcwd(t, sizeof t); if (!a || !c || strcmp(a, c)) BAD("getcwd(NULL, 0) = %s, expected %s", a, c); x_free(a); return 0; }
  case STAT: snprintf(h, 150, "stat(%.30s)", p); CALL(x_stat(p, &sa), stat(p, &sb)); if (cmpstat(&sa, &sb)) BAD("%s: mode %o size %ld, expected %o %ld", h, sa.st_mode, sa.st_size, sb.st_mode, sb.st_size); return 0;
  case LSTAT: snprintf(h, 150, "lstat(%.30s)", p); CALL(x_lstat(p, &sa), lstat(p, &sb)); if (cmpstat(&sa, &sb)) BAD("%s: mode %o size %ld, expected %o %ld", h, sa.st_mode, sa.st_size, sb.st_mode, sb.st_size); return 0;
  case FSTAT: snprintf(h, 150, "fstat(%d)", afd); CALL(x_fstat(afd, &sa), fstat(bfd, &sb)); if (cmpstat(&sa, &sb)) BAD("%s: mode %o size %ld, expected %o %ld", h, sa.st_mode, sa.st_size, sb.st_mode, sb.st_size); return 0;
  case FSTATAT: { int fl = R(2) ? AT_SYMLINK_NOFOLLOW : R(5) ? 0 : 0x40000000; snprintf(h, 150, "fstatat(%.30s, 0x%x)", p, fl); CALL(x_fstatat(AT_FDCWD, p, &sa, fl), fstatat(AT_FDCWD, p, &sb, fl)); if (cmpstat(&sa, &sb)) BAD("%s: mode %o size %ld, expected %o %ld", h, sa.st_mode, sa.st_size, sb.st_mode, sb.st_size); return 0; }
  case IOCTL: { int a = 7, b = 7, rq = R(3) ? FIONREAD : 0x5413; snprintf(h, 150, "ioctl(%d, 0x%x)", afd, rq); static struct winsize wa, wb; CALL(x_ioctl(afd, rq, rq == FIONREAD ? (void *)&a : &wa), ioctl(bfd, rq, rq == FIONREAD ? (void *)&b : &wb)); if (a != b) BAD("%s: %d, expected %d", h, a, b); return 0; }
  case ISATTY: { ra = x_isatty(afd); rb = isatty(bfd); if (ra != rb) BAD("isatty(%d) = %ld", afd, ra);
      static int m = -1; if (m < 0) { m = posix_openpt(O_RDWR | O_NOCTTY); if (m >= 0 && x_isatty(m) != isatty(m)) BAD("isatty of a terminal = %d", x_isatty(m)); } return 0; }
  case EXECVE: { char *a[] = { "x", 0 }; if (p[0] == '/' && p[1] != 'n') return 0; snprintf(h, 150, "execve(%.30s)", p); inB(); struct stat s; if (stat(p, &s) == 0 && S_ISREG(s.st_mode) && (s.st_mode & 0111)) return 0; CALL(x_execve(p, a, a + 1), execve(p, a, a + 1)); return 0; }
  case WAIT: {
    int c = R(300), how = R(4), s = -1, opt = R(2); fflush(stdout);
    if (how == 0) { CALL(x_wait4(-1, &s, 0, 0), wait4(-1, &s, 0, 0)); return 0; }
    int pid = x_fork(); if (pid == 0) { if (how == 1) _exit(c); if (how == 2) { signal(SIGTERM, SIG_DFL); x_kill(getpid(), SIGTERM); for (;;) pause(); } x_kill(getpid(), SIGKILL); _exit(0); }
    if (pid < 0) BAD("fork returns %d", pid);
    struct { long t[18]; } ru; memset(&ru, 0x55, sizeof ru);
    ra = opt ? x_waitpid(pid, &s, 0) : x_wait4(pid, &s, 0, &ru);
    snprintf(h, 150, "wait for a child, kind %d", how);
    if (ra != pid) BAD("%s returns %ld, errno %d", h, ra, *x___errno_location());
    if (!opt && ru.t[0] == 0x5555555555555555) BAD("wait4 leaves the usage alone");
    if (how == 1 ? !WIFEXITED(s) || WEXITSTATUS(s) != (c & 255) : how == 2 ? !WIFSIGNALED(s) || WTERMSIG(s) != SIGTERM : !WIFSIGNALED(s) || WTERMSIG(s) != SIGKILL) BAD("%s: status %x, code %d", h, s, c);
    return 0; }
  case KILL: { int pid = R(2) ? getpid() : 0x7ffffff0, sg = R(2) ? 0 : R(2) ? 9999 : -1; snprintf(h, 150, "kill(%d, %d)", pid, sg); CALL(x_kill(pid, sg), kill(pid, sg)); return 0; }
  case TIME: { struct timespec ts; long t1 = time(0), t2 = -1, t3 = x_time(R(2) ? &t2 : 0), t4 = time(0); if (t3 < t1 - 1 || t3 > t4 + 1 || (t2 != -1 && t2 != t3)) BAD("time = %ld, expected %ld", t3, t1); CALL(x_clock_gettime(R(2) ? 0 : 777, &ts), (ra == -1 ? clock_gettime(777, &ts) : clock_gettime(0, &ts))); if (ra == 0 && (ts.tv_sec < t1 - 1 || ts.tv_sec > t4 + 1)) BAD("clock_gettime = %ld", ts.tv_sec); return 0; }
  default: { size_t n = R(100); memset(bufA, 0, 200); memset(bufB, 0, 200); ra = x_getrandom(bufA, n, R(2)); if (ra != (long)n) BAD("getrandom(%zu) = %ld", n, ra); for (int i = n; i < 150; ++i) if (bufA[i]) BAD("getrandom(%zu) writes at %d", n, i); int z = 0; for (size_t i = 0; i < n; ++i) z += bufA[i] == 0; if (n > 30 && z > 20) BAD("getrandom(%zu) leaves zeros", n); return 0; }
  }
}
static void populate(const char *r) {
  if (mkdir(r, 0755) || chdir(r)) abort();
  mkdir("d", 0755); mkdir("d/d", 0755); close(open("a", O_CREAT | O_WRONLY, 0644)); symlink("a", "lnk"); symlink("nowhere", "dang"); symlink("loop", "loop"); close(open("noperm", O_CREAT | O_WRONLY, 0));
}
int main(int argc, char **argv) {
  st = strtoull(argv[1], 0, 16) * 2 + 1;
  for (int i = 0; i < 10; ++i) rnd();
  int cnt = atoi(argv[2]), nbad = 0, i;
  char cwd[PATH_MAX - 10]; getcwd(cwd, sizeof cwd); setbuf(stdout, 0); umask(022);
  for (i = 0; i < NF; ++i) fa[i] = fb[i] = -1;
  sprintf(rootA, "%s/A", cwd); sprintf(rootB, "%s/B", cwd);
  populate(rootA); chdir(cwd); populate(rootB); chdir(cwd);
  for (i = 0; i < cnt && nbad < 4; ++i) nbad += one();
  printf("DONE %d fails=%lld", i, fails);
  for (int k = 0; k < NOPS; ++k) printf(" %s=%lld", ops[k], counts[k]);
  printf("\n");
  return 0;
}
