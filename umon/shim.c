// Preloaded into banyan-cli. Records what it does to the files below SHIM_DIR and to its
// standard output (SHIM_TRACE), or kills the process before the n-th such operation
// (SHIM_KILL_AT; with SHIM_TORN the operation is done half before).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#define FDS 4096
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static int32_t id_of[FDS]; // 0 = not ours
static int32_t next_id = 1;
static int trace_fd = -1;
static long kill_at = -1, count = 0;
static int torn = 0, ready = 0;
static const char *dir;
static size_t dirlen;

static void init(void) {
  if (ready) return;
  ready = 1;
  dir = getenv("SHIM_DIR");
  dirlen = dir ? strlen(dir) : 0;
  char *t = getenv("SHIM_TRACE");
  if (t) trace_fd = syscall(SYS_openat, AT_FDCWD, t, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  char *k = getenv("SHIM_KILL_AT");
  if (k) kill_at = atol(k);
  torn = getenv("SHIM_TORN") != NULL;
}
static void put(const void *p, size_t n) {
  const char *c = p;
  while (n > 0) {
    long r = syscall(SYS_write, trace_fd, c, n);
    if (r <= 0) break;
    c += r;
    n -= r;
  }
}
// type, id, offset, length, data
static void rec(uint8_t type, int32_t id, uint64_t off, uint64_t len, const void *data, uint64_t dlen) {
  if (trace_fd < 0) return;
  uint8_t h[29];
  h[0] = type;
  memcpy(h + 1, &id, 4);
  memcpy(h + 5, &off, 8);
  memcpy(h + 13, &len, 8);
  memcpy(h + 21, &dlen, 8);
  put(h, 29);
  if (dlen) put(data, dlen);
}
static int due(void) { return ++count == kill_at; }
static void die(void) {
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}
static int ours(int fd) { return fd >= 0 && fd < FDS ? id_of[fd] : 0; }
static int opened(int fd, const char *path, int flags) {
  if (fd < 0 || fd >= FDS || !path || !dirlen || strncmp(path, dir, dirlen)) return fd;
  pthread_mutex_lock(&m);
  id_of[fd] = next_id++;
  rec('o', id_of[fd], flags, 0, path, strlen(path));
  pthread_mutex_unlock(&m);
  return fd;
}
static int do_open(int at, const char *path, int flags, mode_t mode) {
  init();
  // a file is only created or truncated as a counted operation
  if (path && dirlen && !strncmp(path, dir, dirlen) && (flags & (O_CREAT | O_TRUNC))) {
    pthread_mutex_lock(&m);
    if (due()) die();
    pthread_mutex_unlock(&m);
  }
  return opened(syscall(SYS_openat, at, path, flags, mode), path, flags);
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | 020000000)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int at, const char *path, int flags, ...) { MODE return do_open(at, path, flags, mode); }
int openat64(int at, const char *path, int flags, ...) { MODE return do_open(at, path, flags, mode); }
int close(int fd) {
  if (fd >= 0 && fd < FDS) id_of[fd] = 0;
  long r = syscall(SYS_close, fd);
  return r;
}
static ssize_t out(int fd, const void *b, size_t n, int64_t off) {
  init();
  int id = fd == 1 ? -1 : ours(fd);
  if (!id) return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
  pthread_mutex_lock(&m);
  int d = due();
  if (d && !(torn && n > 1)) die();
  size_t k = d ? n / 2 : n;
  int64_t at = off >= 0 ? off : id > 0 ? syscall(SYS_lseek, fd, 0L, SEEK_CUR) : 0;
  ssize_t r = off < 0 ? syscall(SYS_write, fd, b, k) : syscall(SYS_pwrite64, fd, b, k, off);
  if (d) die();
  if (r > 0) rec(id > 0 ? 'w' : 'p', id, at, r, b, r);
  pthread_mutex_unlock(&m);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return out(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return out(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return out(fd, b, n, o); }
static int op(uint8_t type, int fd, uint64_t len) {
  init();
  int id = ours(fd);
  pthread_mutex_lock(&m);
  if (id && due()) die();
  int r = type == 's' ? syscall(SYS_fsync, fd) : type == 'd' ? syscall(SYS_fdatasync, fd) : syscall(SYS_ftruncate, fd, len);
  if (id && r == 0) rec(type, id, 0, len, 0, 0);
  pthread_mutex_unlock(&m);
  return r;
}
int fsync(int fd) { return op('s', fd, 0); }
int fdatasync(int fd) { return op('d', fd, 0); }
int ftruncate(int fd, off_t n) { return op('t', fd, n); }
int ftruncate64(int fd, off64_t n) { return op('t', fd, n); }
int unlink(const char *p) {
  init();
  int mine = dirlen && !strncmp(p, dir, dirlen);
  pthread_mutex_lock(&m);
  if (mine && due()) die();
  int r = syscall(SYS_unlink, p);
  if (mine && r == 0) rec('u', 0, 0, 0, p, strlen(p));
  pthread_mutex_unlock(&m);
  return r;
}
