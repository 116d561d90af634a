// Fault injection: one call on a file under VHF_ROOT fails or is cut short.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char *paths[4096];
static int counts[8];
enum { OPENR, OPENW, READ, WRITE, MKDIR, REALPATH, RENAME, UNLINK };
static const char *names[] = {"openr", "openw", "read", "write", "mkdir", "realpath", "rename", "unlink"};

static int under(const char *p) {
  const char *root = getenv("VHF_ROOT");
  if (!root || !p) return 0;
  char buf[PATH_MAX];
  if (p[0] != '/') {
    if (!getcwd(buf, sizeof buf)) return 0;
    if (strncmp(buf, root, strlen(root)) == 0) return 1;
    if (strlen(buf) + strlen(p) + 2 > sizeof buf) return 0;
    strcat(buf, "/");
    strcat(buf, p);
    p = buf;
  }
  return strncmp(p, root, strlen(root)) == 0;
}

static void note(const char *what, int k, const char *p) {
  const char *log = getenv("VHF_LOG");
  if (!log) return;
  static int (*ropen)(const char *, int, ...);
  static ssize_t (*rwrite)(int, const void *, size_t);
  static int (*rclose)(int);
  if (!ropen) {
    ropen = dlsym(RTLD_NEXT, "open");
    rwrite = dlsym(RTLD_NEXT, "write");
    rclose = dlsym(RTLD_NEXT, "close");
  }
  int fd = ropen(log, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0) return;
  char line[PATH_MAX + 64];
  int n = snprintf(line, sizeof line, "%s %s %s\n", what, names[k], p);
  if (n > 0) (void)!rwrite(fd, line, n);
  rclose(fd);
}

// Zero: go on. Positive: fail with this error. -1: cut short. -2: return zero.
static int fault(int k, const char *p) {
  note("call", k, p);
  counts[k]++;
  const char *fn = getenv("VHF_FN");
  if (!fn || strcmp(fn, names[k])) return 0;
  const char *n = getenv("VHF_N");
  const char *e = getenv("VHF_ERR");
  if (!n || !e) return 0;
  if (!strcmp(n, "odd")) {
    if (counts[k] % 2 == 0) return 0;
  } else if (strcmp(n, "all") && atoi(n) != counts[k]) {
    return 0;
  }
  note("fired", k, p);
  return atoi(e);
}

static int do_open(const char *sym, int at, const char *p, int flags, mode_t mode) {
  int k = (flags & O_ACCMODE) == O_RDONLY ? OPENR : OPENW;
  int mine = at == AT_FDCWD && under(p) && !(flags & (O_DIRECTORY | O_PATH));
  if (mine) {
    int f = fault(k, p);
    if (f > 0) {
      errno = f;
      return -1;
    }
  }
  int fd;
  int saved;
  if (!strcmp(sym, "open") || !strcmp(sym, "open64")) {
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, sym);
    fd = r(p, flags, mode);
  } else {
    int (*r)(int, const char *, int, ...) = dlsym(RTLD_NEXT, sym);
    fd = r(at, p, flags, mode);
  }
  saved = errno;
  if (fd >= 0 && fd < 4096) {
    free(paths[fd]);
    paths[fd] = mine ? strdup(p) : 0;
  }
  errno = saved;
  return fd;
}

#define OPENER(name)                                   \
  int name(const char *p, int flags, ...) {            \
    va_list ap;                                        \
    va_start(ap, flags);                               \
    mode_t m = va_arg(ap, mode_t);                     \
    va_end(ap);                                        \
    return do_open(#name, AT_FDCWD, p, flags, m);      \
  }
#define OPENERAT(name)                                 \
  int name(int at, const char *p, int flags, ...) {    \
    va_list ap;                                        \
    va_start(ap, flags);                               \
    mode_t m = va_arg(ap, mode_t);                     \
    va_end(ap);                                        \
    return do_open(#name, at, p, flags, m);            \
  }
OPENER(open)
OPENER(open64)
OPENERAT(openat)
OPENERAT(openat64)

int close(int fd) {
  static int (*r)(int);
  if (!r) r = dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < 4096) {
    free(paths[fd]);
    paths[fd] = 0;
  }
  return r(fd);
}

ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*r)(int, void *, size_t);
  if (!r) r = dlsym(RTLD_NEXT, "read");
  if (fd >= 0 && fd < 4096 && paths[fd]) {
    int f = fault(READ, paths[fd]);
    if (f > 0) {
      errno = f;
      return -1;
    }
    if (f == -1 && n > 3) n = 3;
  }
  return r(fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*r)(int, const void *, size_t);
  if (!r) r = dlsym(RTLD_NEXT, "write");
  const char *out = fd == 1 ? getenv("VHF_STDOUT") : 0;
  if (out) {
    // Positive: every write fails with this error. -1: cut short, and interrupted every other time.
    static int odd;
    if (atoi(out) > 0) {
      errno = atoi(out);
      return -1;
    }
    if ((odd = !odd)) {
      errno = EINTR;
      return -1;
    }
    if (n > 3) n = 3;
  }
  if (fd > 2 && fd < 4096 && paths[fd]) {
    int f = fault(WRITE, paths[fd]);
    if (f > 0) {
      errno = f;
      return -1;
    }
    if (f == -1 && n > 1) n = n > 5000 ? 5000 : (n + 1) / 2;
    if (f == -2) return 0;
  }
  return r(fd, b, n);
}

int mkdir(const char *p, mode_t m) {
  static int (*r)(const char *, mode_t);
  if (!r) r = dlsym(RTLD_NEXT, "mkdir");
  if (under(p)) {
    int f = fault(MKDIR, p);
    if (f > 0) {
      errno = f;
      return -1;
    }
  }
  return r(p, m);
}

char *realpath(const char *p, char *out) {
  static char *(*r)(const char *, char *);
  if (!r) r = dlsym(RTLD_NEXT, "realpath");
  if (under(p)) {
    int f = fault(REALPATH, p);
    if (f > 0) {
      errno = f;
      return 0;
    }
  }
  return r(p, out);
}

int rename(const char *a, const char *b) {
  static int (*r)(const char *, const char *);
  if (!r) r = dlsym(RTLD_NEXT, "rename");
  if (under(b)) {
    int f = fault(RENAME, b);
    if (f > 0) {
      errno = f;
      return -1;
    }
  }
  return r(a, b);
}

int unlink(const char *p) {
  static int (*r)(const char *);
  if (!r) r = dlsym(RTLD_NEXT, "unlink");
  if (under(p)) {
    int f = fault(UNLINK, p);
    if (f > 0) {
      errno = f;
      return -1;
    }
  }
  return r(p);
}
