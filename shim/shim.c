// Preloaded into the gc-* commands by the checks: counts the calls that touch files of
// the scratch directory (relative paths, and descriptors opened through them), and at
// a chosen one stops the process (to run other commands meanwhile), makes the call
// fail, or makes a write short.
//   GCV_STOP_AT=k   SIGSTOP before the k-th call
//   GCV_FAIL_AT=k   the k-th call and, with GCV_FAIL_ALL=1, all later writes fail with GCV_ERRNO
//   GCV_SHORT=n     every write to such a descriptor writes at most n bytes
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long stop_at = -1, fail_at = -1, fail_all = 0, err_no = EIO, short_w = 0, count = 0;
static char ours[1024];

static long num(const char *n, long d) { const char *s = getenv(n); return s && *s ? atol(s) : d; }
__attribute__((constructor)) static void init(void) {
  stop_at = num("GCV_STOP_AT", -1);
  fail_at = num("GCV_FAIL_AT", -1);
  fail_all = num("GCV_FAIL_ALL", 0);
  err_no = num("GCV_ERRNO", EIO);
  short_w = num("GCV_SHORT", 0);
}
static int rel(const char *p) { return p && p[0] && p[0] != '/'; }
static int fdours(int fd) { return fd >= 0 && fd < 1024 && ours[fd]; }
// returns 1 when the call has to fail
static int hit(int is_write) {
  count++;
  if (count == stop_at) raise(SIGSTOP);
  if (count == fail_at || (fail_all && fail_at > 0 && count > fail_at && is_write)) { errno = err_no; return 1; }
  return 0;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int opened(int fd, int r) { if (fd >= 0 && fd < 1024) ours[fd] = r; return fd; }

int open(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  REAL(open);
  if (rel(p) && hit(0)) return -1;
  return opened(real(p, fl, m), rel(p));
}
int open64(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  REAL(open64);
  if (rel(p) && hit(0)) return -1;
  return opened(real(p, fl, m), rel(p));
}
int openat(int d, const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  REAL(openat);
  if (rel(p) && hit(0)) return -1;
  return opened(real(d, p, fl, m), rel(p));
}
int openat64(int d, const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  REAL(openat64);
  if (rel(p) && hit(0)) return -1;
  return opened(real(d, p, fl, m), rel(p));
}
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (fdours(fd) && hit(0)) return -1; return real(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (fdours(fd)) {
    if (hit(1)) return -1;
    if (short_w > 0 && n > (size_t)short_w) n = short_w;
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (fdours(fd) && hit(1)) return -1; return real(fd, v, n); }
int close(int fd) { REAL(close); if (fd >= 0 && fd < 1024) ours[fd] = 0; return real(fd); }
int fsync(int fd) { REAL(fsync); if (fdours(fd) && hit(1)) return -1; return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (fdours(fd) && hit(1)) return -1; return real(fd); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (fdours(fd) && hit(1)) return -1; return real(fd, n); }
int unlink(const char *p) { REAL(unlink); if (rel(p) && hit(0)) return -1; return real(p); }
int unlinkat(int d, const char *p, int fl) { REAL(unlinkat); if (rel(p) && hit(0)) return -1; return real(d, p, fl); }
int rmdir(const char *p) { REAL(rmdir); if (rel(p) && hit(0)) return -1; return real(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (rel(p) && hit(0)) return -1; return real(p, m); }
int rename(const char *p, const char *q) { REAL(rename); if (rel(p) && hit(0)) return -1; return real(p, q); }
int link(const char *p, const char *q) { REAL(link); if (rel(p) && hit(0)) return -1; return real(p, q); }
