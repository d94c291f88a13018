// User-mode emulation of freestanding static ELF executables: memory, loading, system calls.
// The machine has no memory but what the program owns: everything else faults.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef __int128 i128; typedef unsigned __int128 u128;

#define TOP   ((u64)256 << 20)
#define STK   ((u64)8 << 20)
enum { PR = 1, PW = 2, PX = 4 };

static u8 *mem;
static u8 perm[TOP >> 12];
static u64 brk0, brk1, entry, pc, icount, limit = 2000000000ull;
static bool abi = true;      // monitor the calling convention

static void where(void);     // prints the registers

#define DIE(code, ...)  do { fflush(stdout); fprintf(stderr, "EMU: "); fprintf(stderr, __VA_ARGS__); \
    fprintf(stderr, " (pc=%llx)\n", (unsigned long long)pc); where(); exit(code); } while (0)

static inline u8 *at(u64 a, int n, int p) {
  if (a >= TOP - 16 || !(perm[a >> 12] & p) || !(perm[(a + n - 1) >> 12] & p))
    DIE(139, "%s of %d bytes at %llx", p == PR ? "read" : p == PW ? "write" : "fetch", n, (unsigned long long)a);
  return mem + a;
}
#define RD(T, a)     ({ T _v; memcpy(&_v, at(a, sizeof(T), PR), sizeof(T)); _v; })
#define WR(T, a, v)  ({ T _v = (T)(v); memcpy(at(a, sizeof(T), PW), &_v, sizeof(T)); })

static void own(u64 a, u64 n, int p) {
  for (u64 q = a >> 12; q <= (a + n - 1) >> 12 && n; ++q) perm[q] |= p;
}

static void load(const char *fn, int machine) {
  FILE *f = fopen(fn, "rb");
  u8 h[64];
  if (f == NULL || fread(h, 1, 64, f) != 64 || memcmp(h, "\177ELF\2\1", 6) != 0) { fprintf(stderr, "EMU: not an ELF file: %s\n", fn); exit(126); }
  u16 m, n; u64 off;
  memcpy(&m, h + 18, 2); memcpy(&n, h + 56, 2); memcpy(&off, h + 32, 8); memcpy(&entry, h + 24, 8);
  if (m != machine) { fprintf(stderr, "EMU: wrong machine %d\n", m); exit(126); }
  u64 end = 0;
  for (int i = 0; i < n; ++i) {
    u8 p[56];
    u32 type, flags; u64 o, va, fs, ms;
    fseek(f, off + i * 56, SEEK_SET);
    if (fread(p, 1, 56, f) != 56) { fprintf(stderr, "EMU: truncated\n"); exit(126); }
    memcpy(&type, p, 4); memcpy(&flags, p + 4, 4); memcpy(&o, p + 8, 8); memcpy(&va, p + 16, 8);
    memcpy(&fs, p + 32, 8); memcpy(&ms, p + 40, 8);
    if (type != 1 || ms == 0) continue;
    if (va + ms > TOP / 2 || fs > ms) { fprintf(stderr, "EMU: bad segment\n"); exit(126); }
    fseek(f, o, SEEK_SET);
    if (fread(mem + va, 1, fs, f) != fs) { fprintf(stderr, "EMU: truncated segment\n"); exit(126); }
    own(va, ms, (flags & 4 ? PR : 0) | (flags & 2 ? PW : 0) | (flags & 1 ? PX : 0));
    if (va + ms > end) end = va + ms;
  }
  fclose(f);
  brk0 = brk1 = (end + 4095) & ~(u64)4095;
}

static u64 setup_stack(int argc, char **argv) {
  u64 sp = TOP - 65536, str = sp;
  own(TOP - 65536 - STK, STK + 65536 - 4096, PR | PW);
  u64 ptr[64];
  int n = 0;
  for (int i = 0; i < argc && i < 50; ++i) {
    ptr[n++] = str;
    strcpy((char *)mem + str, argv[i]);
    str += strlen(argv[i]) + 1;
  }
  int na = n;
  ptr[n++] = 0;
  ptr[n++] = str;
  strcpy((char *)mem + str, "EMU=1");
  ptr[n++] = 0;
  ptr[n++] = 0;     // auxv
  ptr[n++] = 0;
  sp -= 16 + n * 8;
  sp &= ~(u64)15;
  u64 a = na;
  memcpy(mem + sp, &a, 8);
  memcpy(mem + sp + 8, ptr, n * 8);
  return sp;
}

static char *path(u64 a) {
  static char buf[4096];
  for (int i = 0; i < 4095; ++i)
    if ((buf[i] = RD(char, a + i)) == 0) {
      // nothing but files below the current directory
      if (buf[0] == '/' || strstr(buf, "..") != NULL) return NULL;
      return buf;
    }
  return NULL;
}

static i64 ret_(i64 r) { return r < 0 ? -(i64)errno : r; }

static i64 syscall_(u64 no, u64 a, u64 b, u64 c, u64 d) {
  switch (no) {
  case 93: case 94: fflush(stdout); exit((int)a & 255);
  case 64: case 63: {
    u64 n = 0;
    // the part that is owned
    while (n < c && b + n < TOP - 16 && (perm[(b + n) >> 12] & (no == 64 ? PR : PW))) n += 4096 - ((b + n) & 4095);
    if (n > c) n = c;
    if (n < c && n == 0) return -EFAULT;
    if ((int)a < 0 || ((int)a > 2 && (int)a < 3)) return -EBADF;
    return ret_(no == 64 ? write((int)a, mem + b, n) : read((int)a, mem + b, n)); }
  case 56: { char *p = path(b);
    if (p == NULL) return -EACCES;
    return ret_(openat(AT_FDCWD, p, (int)c | O_CLOEXEC | O_NOFOLLOW, (int)d & 0777)); }
  case 57: return ret_(close((int)a));
  case 62: return ret_(lseek((int)a, (i64)b, (int)c));
  case 35: { char *p = path(b);
    if (p == NULL) return -EACCES;
    return ret_(unlinkat(AT_FDCWD, p, (int)c)); }
  case 79: case 80: {
    struct stat st;
    int r;
    if (no == 79) {
      char *p = path(b);
      if (p == NULL) return -EACCES;
      r = stat(p, &st);
      b = c;
    } else r = fstat((int)a, &st);
    if (r < 0) return -(i64)errno;
    // asm-generic struct stat
    WR(u64, b, st.st_dev); WR(u64, b + 8, st.st_ino); WR(u32, b + 16, st.st_mode); WR(u32, b + 20, st.st_nlink);
    WR(u32, b + 24, st.st_uid); WR(u32, b + 28, st.st_gid); WR(u64, b + 32, st.st_rdev); WR(u64, b + 40, 0);
    WR(u64, b + 48, st.st_size); WR(u32, b + 56, st.st_blksize); WR(u32, b + 60, 0); WR(u64, b + 64, st.st_blocks);
    for (int i = 72; i < 128; i += 8) WR(u64, b + i, 0);
    return 0; }
  case 29: return -ENOTTY;
  case 113: { struct timespec ts;
    if (clock_gettime((clockid_t)a, &ts) < 0) return -(i64)errno;
    WR(i64, b, ts.tv_sec); WR(i64, b + 8, ts.tv_nsec);
    return 0; }
  case 129: DIE(128 + ((int)b & 63), "killed by signal %d", (int)b);
  case 214:
    if (a < brk0 || a > TOP - STK - 65536 * 2) return (i64)brk1;
    for (u64 q = brk0 >> 12; q < (TOP - STK - 65536 * 2) >> 12; ++q) perm[q] = q < (a + 4095) >> 12 ? PR | PW : 0;
    if (a > brk1) memset(mem + brk1, 0, a - brk1);
    return (i64)(brk1 = a);
  }
  DIE(120, "system call %llu", (unsigned long long)no);
}

static u64 rnd_ = 88172645463325252ull;
static inline u64 garbage(void) { rnd_ ^= rnd_ << 13; rnd_ ^= rnd_ >> 7; rnd_ ^= rnd_ << 17; return rnd_; }
