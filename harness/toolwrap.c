// Stands in for cpp, cc1, as and ld: logs its start and end, and fails as told.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *logfn;

static void put(const char *s, size_t n) {
  int fd = open(logfn, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd < 0 || write(fd, s, n) != (ssize_t)n)
    _exit(99);
  close(fd);
}

static void event(char kind, const char *tool, int status, char **argv) {
  static char buf[1 << 16];
  size_t n = snprintf(buf, sizeof(buf), "%c\x1f%s\x1f%d\x1f%d", kind, tool, (int)getpid(), status);
  for (int i = 1; argv != NULL && argv[i] != NULL && n < sizeof(buf) - 5000; ++i)
    n += snprintf(buf + n, 4096, "\x1f%s", argv[i]);
  buf[n++] = '\n';
  put(buf, n);
}

static int count(const char *tool) {
  char fn[4096];
  snprintf(fn, sizeof(fn), "%s.%s", logfn, tool);
  int fd = open(fn, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd < 0 || write(fd, "x", 1) != 1)
    _exit(98);
  struct stat st;
  fstat(fd, &st);
  close(fd);
  return st.st_size;
}

static void die(const char *tool, int how) {
  event('E', tool, how, NULL);
  if (how < 0) {
    signal(-how, SIG_DFL);
    raise(-how);
  }
  _exit(how);
}

int main(int argc, char *argv[]) {
  const char *tool = basename(strdup(argv[0]));
  const char *real = getenv("TW_REAL");
  logfn = getenv("TW_LOG");
  if (real == NULL || logfn == NULL)
    return 97;
  char path[4096];
  snprintf(path, sizeof(path), "%s/%s", real, tool);

  char mode[32] = "";
  int arg = 0;
  const char *faults = getenv("TW_FAULT");  // tool:nth:mode:arg[,...]
  int n = count(tool);
  if (faults != NULL) {
    char *f = strdup(faults);
    for (char *t = strtok(f, ","); t != NULL; t = strtok(NULL, ",")) {
      char name[16], m[32];
      int nth, a;
      if (sscanf(t, "%15[^:]:%d:%31[^:]:%d", name, &nth, m, &a) == 4 && strcmp(name, tool) == 0 && nth == n) {
        strcpy(mode, m);
        arg = a;
      }
    }
  }
  event('S', tool, n, argv);

  if (strcmp(mode, "before") == 0)
    die(tool, arg);
  if (strcmp(mode, "mid") == 0) {  // reads a part of the input
    char buf[100];
    if (read(0, buf, sizeof(buf)) < 0)
      perror("read");
    usleep(20000);
    die(tool, arg);
  }
  if (strcmp(mode, "slowstart") == 0)
    usleep(arg * 1000);

  setenv("TW_TOOL", tool, 1);
  char end[64] = "";
  if (strcmp(mode, "after") == 0 || strcmp(mode, "slowend") == 0)
    snprintf(end, sizeof(end), "%s:%d", mode, arg);
  setenv("TW_END", end, 1);
  argv[0] = path;
  if (strcmp(mode, "fsize") == 0) {
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = arg;
    setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGXFSZ, SIG_IGN);
  }
  if (strcmp(mode, "partial") != 0) {
    execv(path, argv);
    perror(path);
    _exit(127);
  }

  // a part of the output, then the end
  int fd[2] = {-1, -1};
  if (pipe(fd) < 0)
    return 96;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setenv("TW_TOOL", "", 1);
    dup2(fd[1], 1);
    close(fd[0]);
    close(fd[1]);
    execv(path, argv);
    _exit(127);
  }
  close(fd[1]);
  static char buf[65536];
  ssize_t got;
  int rest = arg;
  while (rest > 0 && (got = read(fd[0], buf, rest < (int)sizeof(buf) ? rest : (int)sizeof(buf))) > 0) {
    if (write(1, buf, got) < 0)
      break;
    rest -= got;
  }
  kill(pid, SIGKILL);
  close(fd[0]);
  waitpid(pid, NULL, 0);
  die(tool, 7);
}
