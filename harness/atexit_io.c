/* Copies l0.. into o0.. , l<n> and standard input to standard output, l<n+1> to standard error; closes nothing and ends as told. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void copy(int i, FILE *to) {
  char nm[20]; sprintf(nm, "l%d", i);
  FILE *f = fopen(nm, "r"); int c;
  while ((c = fgetc(f)) != EOF) fputc(c, to);
  fclose(f);
}
static void bye(void) { fputs("bye", stdout); }
static void deep(int n) { if (n == 0) exit(7); deep(n - 1); }
int main(int argc, char **argv) {
  int n = atoi(argv[2]);
  FILE *o[20];
  for (int i = 0; i < n; ++i) { char nm[20]; sprintf(nm, "o%d", i); o[i] = fopen(nm, "w"); }
  for (int i = 0; i < n; ++i) copy(i, o[i]);
  copy(n, stdout); copy(n + 1, stderr);
  int c; while ((c = getchar()) != EOF) putchar(c);
  if (!strcmp(argv[1], "exit")) exit(7);
  if (!strcmp(argv[1], "nested")) deep(20);
  if (!strcmp(argv[1], "atexit")) atexit(bye);
  return 7;
}
