// Preloaded: logs every file that is created.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

static int (*real_open)(const char *, int, ...);

// Not subject to the limit on the size of files.
static void append(const char *log, const char *buf, int n) {
  if (real_open == NULL)
    real_open = dlsym(RTLD_NEXT, "open");
  int fd = real_open(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd < 0)
    return;
  struct rlimit rl, nolim;
  getrlimit(RLIMIT_FSIZE, &rl);
  nolim = rl;
  nolim.rlim_cur = nolim.rlim_max;
  setrlimit(RLIMIT_FSIZE, &nolim);
  if (write(fd, buf, n) != n)
    perror("log");
  setrlimit(RLIMIT_FSIZE, &rl);
  close(fd);
}

static void note(const char *fn) {
  const char *log = getenv("TW_FILES");
  if (log == NULL || fn == NULL)
    return;
  char buf[8192], cwd[4096];
  int n = fn[0] == '/' ? snprintf(buf, sizeof(buf), "%s\n", fn)
                       : snprintf(buf, sizeof(buf), "%s/%s\n", getcwd(cwd, sizeof(cwd)), fn);
  append(log, buf, n);
}

#define OPEN(name) \
  int name(const char *fn, int flags, ...) { \
    int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, #name); \
    va_list ap; \
    va_start(ap, flags); \
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0; \
    va_end(ap); \
    if (flags & O_CREAT) \
      note(fn); \
    return real(fn, flags, mode); \
  }
OPEN(open)
OPEN(open64)

#define FOPEN(name) \
  FILE *name(const char *fn, const char *mode) { \
    FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, #name); \
    if (mode[0] != 'r') \
      note(fn); \
    return real(fn, mode); \
  }
FOPEN(fopen)
FOPEN(fopen64)

#define MKS(name) \
  int name(char *t, int n) { \
    int (*real)(char *, int) = dlsym(RTLD_NEXT, #name); \
    int r = real(t, n); \
    if (r >= 0) \
      note(t); \
    return r; \
  }
MKS(mkstemps)
MKS(mkstemps64)
#define MK(name) \
  int name(char *t) { \
    int (*real)(char *) = dlsym(RTLD_NEXT, #name); \
    int r = real(t); \
    if (r >= 0) \
      note(t); \
    return r; \
  }
MK(mkstemp)
MK(mkstemp64)

// The end of a stage.
static const char *tool;

static void ended(int status, void *arg) {
  int how = status;
  char mode[16] = "";
  int n = 0;
  const char *end = getenv("TW_END");
  if (end != NULL && sscanf(end, "%15[^:]:%d", mode, &n) == 2) {
    if (strcmp(mode, "slowend") == 0)
      usleep(n * 1000);
    else
      how = n;
  }
  char buf[256];
  int len = snprintf(buf, sizeof(buf), "E\x1f%s\x1f%d\x1f%d\n", tool, (int)getpid(), how);
  append(getenv("TW_LOG"), buf, len);
  if (how != status) {
    if (how < 0) {
      signal(-how, SIG_DFL);
      raise(-how);
    }
    _exit(how);
  }
}

__attribute__((constructor)) static void begin(void) {
  real_open = dlsym(RTLD_NEXT, "open");
  tool = getenv("TW_TOOL");
  if (tool != NULL && *tool != '\0') {
    tool = strdup(tool);
    on_exit(ended, NULL);
  }
}
