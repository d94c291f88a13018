/* Reads cases from stdin, formats them, writes length and bytes in hex.
   line: <func> <size> <i0> <i1> <i2> <d0> <d1> <d2> <fmt in hex> <string in hex>
   Integers are 16 hex digits; s in i-slots selected by the marker ffffffffffffff5N. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef unsigned long long u64;
static char in[1 << 16];
static int inlen, inpos;
static int getch(void) {
  if (inpos >= inlen) {
    inlen = read(0, in, sizeof(in));
    inpos = 0;
    if (inlen <= 0) return -1;
  }
  return (unsigned char)in[inpos++];
}
static char ob[1 << 16];
static int on;
static void flush(void) {
  int o = 0;
  while (o < on) { int n = write(1, ob + o, on - o); if (n <= 0) exit(9); o += n; }
  on = 0;
}
static void put(int c) { ob[on++] = c; if (on >= (int)sizeof(ob)) flush(); }
static void puthex(const unsigned char *p, int n) {
  for (int i = 0; i < n; ++i) { put("0123456789abcdef"[p[i] >> 4]); put("0123456789abcdef"[p[i] & 15]); }
}
static void putint(long long v) {
  char t[24]; int n = 0; u64 u = v < 0 ? -(u64)v : (u64)v;
  do t[n++] = '0' + u % 10; while (u /= 10);
  if (v < 0) put('-');
  while (n) put(t[--n]);
}
static int dig(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static int eof;
static u64 num(void) {
  u64 v = 0; int c = getch();
  if (c < 0) { eof = 1; return 0; }
  while (c > ' ') { v = v << 4 | dig(c); c = getch(); }
  return v;
}
static int bytes(char *p) {
  int n = 0, c;
  while ((c = getch()) > ' ') { int d = getch(); p[n++] = dig(c) << 4 | dig(d); }
  p[n] = 0;
  return n;
}
#if defined(__riscv)
/* Integers and floating values travel in the same registers there: pass them in the order in which the format takes them. */
#define ARGS v[0], v[1], v[2], v[3], v[4], v[5]
static void order(const char *f, const u64 *a, const u64 *b, u64 *v) {
  int i = 0, d = 0, n = 0;
  for (; *f; ++f) {
    if (*f != '%') continue;
    for (++f; *f && strchr("+-# 0123456789.*lhzjt", *f); ++f) if (*f == '*' && i < 3) v[n++] = a[i++];
    if (*f == 0) break;
    if (strchr("fgeaFGEA", *f)) { if (d < 3) v[n++] = b[d++]; }
    else if (*f != '%' && i < 3) v[n++] = a[i++];
  }
  while (n < 6) v[n++] = 0;
}
#else
#define ARGS a[0], a[1], a[2], d[0], d[1], d[2]
#endif
static int vs(int f, char *buf, size_t size, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int r = f ? vsprintf(buf, fmt, ap) : vsnprintf(buf, size, fmt, ap);
  va_end(ap);
  return r;
}
static int vf(FILE *fp, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int r = vfprintf(fp, fmt, ap);
  va_end(ap);
  return r;
}
int main(int argc, char **argv) {
  static char fmt[4096], str[3][4096], bufbase[9000];
  char *buf = bufbase + 64;
  for (;;) {
    int f = num();
    if (eof) break;
    size_t size = num();
    u64 a[3], b[3]; double d[3];
    for (int i = 0; i < 3; ++i) a[i] = num();
    for (int i = 0; i < 3; ++i) b[i] = num();
    memcpy(d, b, sizeof d);
    bytes(fmt);
    for (int i = 0; i < 3; ++i) bytes(str[i]);
    for (int i = 0; i < 3; ++i) if (a[i] >> 4 == 0xffffffffffffff5) a[i] = (u64)str[i];
    memset(bufbase, 0xa5, sizeof bufbase);
    int r = 0, shown = -1;
#if defined(__riscv)
    u64 v[6];
    order(fmt, a, b, v);
#endif
    switch (f) {
    case 0: r = snprintf(buf, size, fmt, ARGS); break;
    case 1: r = sprintf(buf, fmt, ARGS); break;
    case 2: r = vs(0, buf, size, fmt, ARGS); break;
    case 3: r = vs(1, buf, size, fmt, ARGS); break;
    case 4: case 5: {
      char *p = 0; size_t n = 0;
      FILE *fp = open_memstream(&p, &n);
      r = f == 4 ? fprintf(fp, fmt, ARGS) : vf(fp, fmt, ARGS);
      fclose(fp);
      if (n > 8000) n = 8000;
      memcpy(buf, p, n); buf[n] = 0; shown = n;
      free(p);
      break; }
    case 6: {
      flush();
      r = printf(fmt, ARGS); fflush(stdout);
      shown = 0;
      break; }
    }
    /* everything the call could have touched: from 64 bytes before to the first 40 untouched bytes after */
    int end = sizeof bufbase - 64;
    while (end > 0 && (unsigned char)buf[end - 1] == 0xa5) --end;
    int begin = 0;
    while (begin > -64 && (unsigned char)buf[begin - 1] != 0xa5) --begin;
    put('\n'); putint(r); put(' '); putint(begin); put(' '); putint(shown); put(' '); putint(end); put(' ');
    puthex((unsigned char *)buf, end);
    put('\n');
  }
  flush();
  return 0;
}
