/* Started by the check; reports what the program sees of its start and what its children report. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>

extern char **environ;
static char before[16];   /* must be zero at start */
static int init = 0x1234567;
static double dinit = -2.5;
static void hex(char tag, const char *s) {
  putchar(tag);
  for (; *s; ++s) printf("%02x", *s & 255);
  putchar('\n');
}
int main(int argc, char **argv, char **envp) {
  const char *mode = argc > 1 ? argv[1] : "args";
  if (strcmp(mode, "stat") == 0) {
    for (int i = 2; i < argc; ++i) {
      struct stat s;
      int r = lstat(argv[i], &s);
      if (r) printf("%d %d\n", r, errno);
      else printf("%lu %lu %lu %x %u %u %lu %ld %lu %lu %ld %ld %ld %ld\n", s.st_dev, s.st_ino, s.st_nlink, s.st_mode, s.st_uid, s.st_gid, s.st_rdev, s.st_size, s.st_blksize, s.st_blocks, s.st_mtim.tv_sec, s.st_mtim.tv_nsec, s.st_atim.tv_nsec, s.st_ctim.tv_nsec);
      int k = S_ISREG(s.st_mode) ? 'f' : S_ISDIR(s.st_mode) ? 'd' : S_ISLNK(s.st_mode) ? 'l' : S_ISCHR(s.st_mode) ? 'c' : S_ISFIFO(s.st_mode) ? 'p' : '?';
      if (!r) printf("%c\n", k);
    }
    return 0;
  }
  if (strcmp(mode, "execvp") == 0 || strcmp(mode, "execve") == 0) {
    /* exec NAME ARGS... */
    int r = mode[5] == 'p' ? execvp(argv[2], argv + 3) : execve(argv[2], argv + 3, envp);
    printf("failed %d %d\n", r, errno);
    return 99;
  }
  if (strcmp(mode, "kids") == 0) {
    /* each argument: eN exit with N, kN killed by N, xN exec self exiting with N */
    int n = argc - 2, pids[64], fd[2], hold[2];
    if (pipe(fd) || pipe(hold)) return 98;
    for (int i = 0; i < n; ++i) {
      int v = atoi(argv[i + 2] + 1);
      fflush(stdout);
      int pid = fork();
      if (pid == 0) {
        char b = (char)('a' + i);
        close(fd[0]);
        if (write(fd[1], &b, 1) != 1) exit(97);
        if (argv[i + 2][0] == 'k') { read(hold[0], &b, 1); exit(96); }
        if (argv[i + 2][0] == 'x') { char *a[] = {argv[0], "code", argv[i + 2] + 1, NULL}; execve(argv[0], a, environ); exit(95); }
        exit(v);
      }
      if (pid < 0) return 94;
      if (argv[i + 2][0] == 'k' && kill(pid, v)) printf("%d kill %d\n", i, errno);
      pids[i] = pid;
    }
    close(fd[1]);
    for (int i = n; --i >= 0; ) {
      int st = -1, r = i % 2 ? waitpid(pids[i], &st, 0) : wait4(pids[i], &st, 0, NULL);
      if (r != pids[i]) printf("%d wait %d %d\n", i, r, errno);
      else if (WIFEXITED(st)) printf("%d exit %d\n", i, WEXITSTATUS(st));
      else if (WIFSIGNALED(st)) printf("%d signal %d\n", i, WTERMSIG(st));
    }
    int seen = 0; char b;
    while (read(fd[0], &b, 1) == 1) ++seen;
    printf("%d bytes\n", seen);
    int st, r = wait(&st);
    printf("%d %d\n", r, errno);
    return 0;
  }
  if (strcmp(mode, "code") == 0)
    return atoi(argv[2]);
  if (strcmp(mode, "exit") == 0)
    exit(atoi(argv[2]));
  printf("%d\n", argc);
  int i;
  for (i = 0; i < argc; ++i) hex('a', argv[i]);
  if (argv[i] != NULL) puts("argv not terminated");
  for (i = 0; envp[i] != NULL; ++i) { hex('e', envp[i]); if (environ[i] != envp[i]) puts("environ differs"); }
  for (i = 0; i < 16; ++i) if (before[i]) puts("bss not zero");
  if (init != 0x1234567 || dinit != -2.5) puts("data not initialised");
  void *aligned = &aligned;
  for (i = 0; envp[i] != NULL; ++i) {
    char *q = strchr(envp[i], '=');
    if (q == NULL || q == envp[i]) continue;
    char name[300];
    size_t l = q - envp[i];
    if (l >= sizeof(name)) continue;
    memcpy(name, envp[i], l);
    name[l] = '\0';
    hex('g', getenv(name) ? getenv(name) : "<null>");
  }
  fflush(stdout);
  return 42;
}
