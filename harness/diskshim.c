/* Records every change made to files below one folder, and makes the chosen one fail, stop half
   way or end the process.  Loaded with LD_PRELOAD; controlled from the driver through shim_*. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>

static char dir[4096];
static size_t dirlen;
static int logfd = -1, on;
static long count, at = -1, cut = -1;
static int err, lasting, killing, tripped;
static char mine[4096];

#define REAL(name) __typeof__(name) *real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) { REAL(write); return real(fd, b, n); }
static void put(const char *s, size_t n) { while (n) { ssize_t k = raw_write(logfd, s, n); if (k <= 0) _exit(99); s += k; n -= k; } }

void shim_start(const char *d, const char *log) {
  REAL(open);
  strncpy(dir, d, sizeof dir - 1);
  dirlen = strlen(dir);
  logfd = real(log, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  memset(mine, 0, sizeof mine);
  count = 0; at = -1; tripped = 0; on = logfd >= 0;
}
/* the k-th change: with b >= 0 only b bytes are written; then error e (0: the process ends) */
void shim_arm(long k, long b, int e, int forever) { at = k; cut = b; err = e; killing = e == 0; lasting = forever; }
long shim_stop(void) { on = 0; if (logfd >= 0) close(logfd); logfd = -1; return count; }
long shim_count(void) { return count; }
int shim_tripped(void) { return tripped; }

static int inside(const char *p, char *full, size_t n) {
  if (p[0] != '/') {
    if (!getcwd(full, n)) return 0;
    strncat(full, "/", n - strlen(full) - 1);
    strncat(full, p, n - strlen(full) - 1);
  } else { strncpy(full, p, n - 1); full[n - 1] = 0; }
  return !strncmp(full, dir, dirlen) && full[dirlen] == '/';
}
static void hex(const unsigned char *b, size_t n) {
  static const char d[] = "0123456789abcdef";
  char out[2048];
  size_t k = 0;
  for (size_t i = 0; i < n; i++) { out[k++] = d[b[i] >> 4]; out[k++] = d[b[i] & 15]; if (k == sizeof out) { put(out, k); k = 0; } }
  put(out, k);
}
static void rec(const char *s) { put(s, strlen(s)); }
/* 0: go on; 1: fails (errno set); *b: how many bytes of a write still happen first */
static int due(long *b) {
  long k = count++;
  *b = -1;
  if (at >= 0 && (k == at || (k > at && tripped && lasting))) {
    if (k == at) *b = cut;
    tripped = 1;
    errno = killing ? 0 : err;
    return 1;
  }
  return 0;
}
static int failed(const char *what) { rec("X "); rec(what); rec("\n"); if (killing) _exit(77); errno = err; return -1; }

static int opened(int fd, const char *full, int there, int flags) {
  if (fd >= 0 && fd < (int)sizeof mine) {
    struct stat st;
    char line[4400];
    mine[fd] = 1;
    fstat(fd, &st);
    snprintf(line, sizeof line, "O %lu %d %d %s\n", (unsigned long)st.st_ino, !there, !!(flags & O_TRUNC), full + dirlen + 1);
    rec(line);
  }
  return fd;
}
#define OPENBODY(CALL, DIRFD) \
  mode_t mode = 0; char full[4096]; long b; struct stat st; int there; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
  if (!on || !(flags & (O_WRONLY | O_RDWR)) || (DIRFD != AT_FDCWD && path[0] != '/') || !inside(path, full, sizeof full)) return CALL; \
  there = !stat(full, &st); \
  if (due(&b)) return failed("open"); \
  return opened(CALL, full, there, flags);

int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real(path, flags, mode), AT_FDCWD) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real(path, flags, mode), AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPENBODY(real(d, path, flags, mode), d) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPENBODY(real(d, path, flags, mode), d) }

static int ours(int fd) { return on && fd >= 0 && fd < (int)sizeof mine && mine[fd]; }
static unsigned long ino(int fd) { struct stat st; fstat(fd, &st); return (unsigned long)st.st_ino; }

static ssize_t change(int fd, const void *buf, size_t n, long long off, ssize_t (*doit)(int, const void *, size_t, long long)) {
  long b;
  int bad = due(&b);
  char line[100];
  if (off < 0) off = (fcntl(fd, F_GETFL) & O_APPEND) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
  size_t want = bad ? (b > 0 ? ((size_t)b < n ? (size_t)b : n) : 0) : n;
  if (want || !bad) {
    ssize_t k = doit(fd, buf, want, off);
    if (k < 0) return k;
    snprintf(line, sizeof line, "W %lu %lld ", ino(fd), off);
    rec(line); hex(buf, k); rec("\n");
    if (!bad) return k;
    if (killing) return failed("write");
    /* a short write reports what it wrote; the failure comes with the next change */
    rec("X short\n");
    at = count; cut = -1;
    return k;
  }
  return failed("write");
}
static ssize_t seqwrite(int fd, const void *b, size_t n, long long off) { (void)off; return raw_write(fd, b, n); }
static ssize_t poswrite(int fd, const void *b, size_t n, long long off) { REAL(pwrite); return real(fd, b, n, off); }

ssize_t write(int fd, const void *b, size_t n) { return ours(fd) ? change(fd, b, n, -1, seqwrite) : raw_write(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { REAL(pwrite); return ours(fd) ? change(fd, b, n, off, poswrite) : real(fd, b, n, off); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { REAL(pwrite64); return ours(fd) ? change(fd, b, n, off, poswrite) : real(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev);
  if (!ours(fd)) return real(fd, v, n);
  for (int i = 0; i < n; i++) if (v[i].iov_len) return change(fd, v[i].iov_base, v[i].iov_len, -1, seqwrite);
  return 0;
}
static int cutting(int fd, long long n, int (*doit)(int, long long)) {
  long b; char line[100];
  if (due(&b)) return failed("truncate");
  int r = doit(fd, n);
  if (!r) { snprintf(line, sizeof line, "T %lu %lld\n", ino(fd), n); rec(line); }
  return r;
}
static int tr(int fd, long long n) { REAL(ftruncate); return real(fd, n); }
int ftruncate(int fd, off_t n) { return ours(fd) ? cutting(fd, n, tr) : tr(fd, n); }
int ftruncate64(int fd, off64_t n) { return ours(fd) ? cutting(fd, n, tr) : tr(fd, n); }

static int moved(const char *a, const char *b, int (*doit)(const char *, const char *)) {
  char fa[4096], fb[4096], line[9000]; long c;
  int ia = on && inside(a, fa, sizeof fa), ib = on && inside(b, fb, sizeof fb);
  if (!ib) return doit(a, b);
  if (due(&c)) return failed("rename");
  int r = doit(a, b);
  if (!r) { snprintf(line, sizeof line, "R %s|%s\n", ia ? fa + dirlen + 1 : "?", fb + dirlen + 1); rec(line); }
  return r;
}
static int mv(const char *a, const char *b) { REAL(rename); return real(a, b); }
int rename(const char *a, const char *b) { return moved(a, b, mv); }
int renameat(int da, const char *a, int db, const char *b) {
  REAL(renameat);
  return da == AT_FDCWD && db == AT_FDCWD ? moved(a, b, mv) : real(da, a, db, b);
}
static int rm(const char *a) { REAL(unlink); return real(a); }
int unlink(const char *a) {
  char fa[4096], line[4400]; long c;
  if (!on || !inside(a, fa, sizeof fa)) return rm(a);
  if (due(&c)) return failed("unlink");
  int r = rm(a);
  if (!r) { snprintf(line, sizeof line, "D %s\n", fa + dirlen + 1); rec(line); }
  return r;
}
int fsync(int fd) { REAL(fsync); long c; if (!ours(fd)) return real(fd); if (due(&c)) return failed("fsync"); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); long c; if (!ours(fd)) return real(fd); if (due(&c)) return failed("fsync"); return real(fd); }
int close(int fd) { REAL(close); if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0; return real(fd); }
/* the ways round write() are refused, callers fall back to it */
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(sendfile); if (ours(o)) { errno = EINVAL; return -1; } return real(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(sendfile64); if (ours(o)) { errno = EINVAL; return -1; } return real(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned f) {
  REAL(copy_file_range); if (ours(o)) { errno = EINVAL; return -1; } return real(i, pi, o, po, n, f); }
