// Faults for one file, given by its path: reading fails from an offset on, or
// what was written beyond an offset is lost when the file is closed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int is(int fd, const char* kind, long* at) {
  int e = errno;
  const char *k = getenv("VERIF_FAULT"), *p = getenv("VERIF_FAULT_PATH"), *a = getenv("VERIF_FAULT_AT");
  struct stat f, g;
  int r = k && p && a && !strcmp(k, kind) && !fstat(fd, &f) && !stat(p, &g) && f.st_dev == g.st_dev && f.st_ino == g.st_ino;
  if (r) *at = atol(a);
  errno = e;
  return r;
}
#define NEXT(name) static __typeof__(&name) next; if (!next) next = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t read(int fd, void* to, size_t n) {
  NEXT(read);
  long at;
  if (is(fd, "read", &at)) {
    long pos = lseek(fd, 0, SEEK_CUR);
    if (pos >= at) { errno = EIO; return -1; }
    if ((long)n > at - pos) n = at - pos;
  }
  return next(fd, to, n);
}
ssize_t copy_file_range(int in, off64_t* inoff, int out, off64_t* outoff, size_t n, unsigned flags) {
  NEXT(copy_file_range);
  long at;
  if (is(in, "read", &at)) { errno = EOPNOTSUPP; return -1; }
  return next(in, inoff, out, outoff, n, flags);
}
ssize_t splice(int in, off64_t* inoff, int out, off64_t* outoff, size_t n, unsigned flags) {
  NEXT(splice);
  long at;
  if (is(in, "read", &at)) { errno = EINVAL; return -1; }
  return next(in, inoff, out, outoff, n, flags);
}
int close(int fd) {
  NEXT(close);
  long at;
  struct stat f;
  int lost = is(fd, "close", &at) && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY && !fstat(fd, &f) && f.st_size > at && !ftruncate(fd, at);
  int r = next(fd);
  if (lost) { errno = EIO; return -1; }
  return r;
}
