// Puts every file operation of a process below SHIM_ROOT under the control of its parent.
// Before each the process writes "<op> <path> <n> <digest of all results so far>\n" to descriptor 199 and
// waits for one byte from 198: 'g' go on, 'd' die, 'h'/'o'/'l' die after half / one byte / all but one byte of a write.
// A lock that is held by another is reported as "blocked ..." and tried again at the next 'g'.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#define IN 198
#define OUT 199
static char root[512];
static size_t rootlen;
static volatile int on; // 1: controlled
static unsigned long long dig = 1469598103934665603ULL;
static char *fdp[2048]; // paths of open descriptors below the root
static long rd[2048];   // reads since the last other operation on it
static int held[2048];
#define REAL(name) static __typeof__(&name) r; if (!r) r = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static void mix(const void *p, size_t n) {
  const unsigned char *c = p;
  for (size_t i = 0; i < n; i++) dig = (dig ^ c[i]) * 1099511628211ULL;
}
static void mixl(long v) { mix(&v, sizeof v); }
__attribute__((constructor)) static void init(void) {
  const char *r = getenv("SHIM_ROOT");
  if (r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
}
static void out(const char *b, size_t n) { syscall(SYS_write, OUT, b, n); }
static char cmd(void) {
  char c = 'd';
  if (syscall(SYS_read, IN, &c, 1) != 1) syscall(SYS_exit_group, 70);
  return c;
}
static void die(void) { syscall(SYS_exit_group, 71); }
static char point(const char *op, const char *path, long n) {
  char b[900];
  const char *p = path ? path : "-";
  if (!strncmp(p, root, rootlen)) p += rootlen;
  int l = snprintf(b, sizeof b, "%s\t%s\t%ld\t%llx\n", op, p, n, dig);
  out(b, l);
  char c = cmd();
  if (c == 'd') die();
  return c;
}
static const char *at(int dirfd, const char *path, char *buf) {
  if (!path) return NULL;
  if (path[0] == '/') return path;
  char base[512] = "";
  if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return NULL; }
  else {
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
    if (n < 0) return NULL;
    base[n] = 0;
  }
  if (path[0]) snprintf(buf, 1024, "%s/%s", base, path); else snprintf(buf, 1024, "%s", base);
  return buf;
}
static int mine(const char *p) { return on && p && rootlen && !strncmp(p, root, rootlen); }
static int mfd(int fd) { return on && fd >= 0 && fd < 2048 && fdp[fd] != NULL; }
static void track(int fd, const char *p) {
  if (fd >= 0 && fd < 2048) { free(fdp[fd]); fdp[fd] = strdup(p); rd[fd] = 0; held[fd] = 0; }
}
#define RET(v) do { long v_ = (v); int e_ = errno; mixl(v_ < 0 ? -e_ : v_ > 0 ? 1 : 0); errno = e_; } while (0)
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char b[1024]; const char *p = at(dirfd, path, b);
  if (p && !strcmp(p, "/shim/on")) { on = 1; errno = ENOENT; return -1; }
  if (p && !strcmp(p, "/shim/off")) { on = 0; errno = ENOENT; return -1; }
  if (!mine(p)) return syscall(SYS_openat, dirfd, path, flags, mode);
  char op[32]; snprintf(op, sizeof op, "open%s%s%s%s", flags & O_CREAT ? "+c" : "", flags & O_TRUNC ? "+t" : "", flags & O_EXCL ? "+x" : "", flags & O_DIRECTORY ? "+d" : "");
  point(op, p, flags & O_ACCMODE);
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  RET(fd);
  if (fd >= 0) track(fd, p);
  return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
static void gone(int fd) { if (mfd(fd)) { free(fdp[fd]); fdp[fd] = NULL; } }
int close(int fd) {
  if (mfd(fd)) { if (held[fd]) { point("close", fdp[fd], 0); held[fd] = 0; } gone(fd); }
  return syscall(SYS_close, fd);
}
static size_t part(char c, size_t n) { return c == 'h' ? n / 2 : c == 'o' ? (n > 1 ? 1 : 0) : n ? n - 1 : 0; }
ssize_t write(int fd, const void *b, size_t n) {
  if (!mfd(fd)) return syscall(SYS_write, fd, b, n);
  rd[fd] = 0;
  char c = point("write", fdp[fd], n);
  if (c != 'g') { syscall(SYS_write, fd, b, part(c, n)); die(); }
  ssize_t r = syscall(SYS_write, fd, b, n);
  RET(r);
  return r;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off64_t o) {
  if (!mfd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  rd[fd] = 0;
  char c = point("write", fdp[fd], n);
  if (c != 'g') { syscall(SYS_pwrite64, fd, b, part(c, n), o); die(); }
  ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
  RET(r);
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (!mfd(fd)) return syscall(SYS_writev, fd, v, k);
  ssize_t t = 0;
  for (int i = 0; i < k; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
// A run of reads of one descriptor is a scheduling point before its first read, its second and its last bytes' half.
static void readpoint(int fd, size_t n) {
  rd[fd]++;
  struct stat st;
  long half = -1;
  if (n <= 32 && syscall(SYS_fstat, fd, &st) == 0) half = st.st_size / 2 / (long)(n ? n : 1);
  if (rd[fd] == 1 || rd[fd] == 2 || (rd[fd] == half && half > 2)) point("read", fdp[fd], n);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!mfd(fd)) return syscall(SYS_read, fd, b, n);
  readpoint(fd, n);
  ssize_t r = syscall(SYS_read, fd, b, n);
  int e = errno; mixl(r < 0 ? -e : r); if (r > 0) mix(b, r); errno = e;
  return r;
}
static ssize_t do_pread(int fd, void *b, size_t n, off64_t o) {
  if (!mfd(fd)) return syscall(SYS_pread64, fd, b, n, o);
  if (getenv("SHIM_PREAD")) readpoint(fd, n);
  ssize_t r = syscall(SYS_pread64, fd, b, n, o);
  int e = errno; mixl(r < 0 ? -e : r); if (r > 0) mix(b, r); errno = e;
  return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }
int flock(int fd, int op) {
  if (!mfd(fd)) return syscall(SYS_flock, fd, op);
  const char *name = (op & LOCK_UN) ? "unlock" : (op & LOCK_SH) ? "lockshared" : "lock";
  point(name, fdp[fd], op & LOCK_NB ? 1 : 0);
  for (;;) {
    int r = syscall(SYS_flock, fd, op | LOCK_NB);
    if (r == 0) { held[fd] = !(op & LOCK_UN); mixl(0); return 0; }
    if (errno != EWOULDBLOCK || (op & LOCK_NB)) { RET(-1); return -1; }
    point("blocked", fdp[fd], 0);
  }
}
static int do_fcntl(int fd, int c, void *arg) {
  if (!mfd(fd)) return syscall(SYS_fcntl, fd, c, arg);
  if (c == F_SETLK || c == F_SETLKW || c == F_OFD_SETLK || c == F_OFD_SETLKW) {
    struct flock *l = arg;
    int wait = c == F_SETLKW || c == F_OFD_SETLKW, nb = c == F_SETLKW ? F_SETLK : c == F_OFD_SETLKW ? F_OFD_SETLK : c;
    if (wait || getenv("SHIM_PREAD")) point(l->l_type == F_UNLCK ? "unlock" : "lock", fdp[fd], !wait);
    for (;;) {
      int r = syscall(SYS_fcntl, fd, nb, arg);
      if (r == 0) { held[fd] = l->l_type != F_UNLCK; mixl(0); return 0; }
      if ((errno != EAGAIN && errno != EACCES) || !wait) { RET(-1); return -1; }
      point("blocked", fdp[fd], 0);
    }
  }
  int r = syscall(SYS_fcntl, fd, c, arg);
  if (r >= 0 && (c == F_DUPFD || c == F_DUPFD_CLOEXEC)) track(r, fdp[fd]);
  return r;
}
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, c, p); }
int fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, c, p); }
static int do_trunc(int fd, off64_t n) {
  if (mfd(fd)) { rd[fd] = 0; point("truncate", fdp[fd], n); }
  int r = syscall(SYS_ftruncate, fd, n);
  if (mfd(fd)) RET(r);
  return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
int fsync(int fd) { if (mfd(fd) && getenv("SHIM_SYNC")) point("sync", fdp[fd], 0); return mfd(fd) ? 0 : syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (mfd(fd) && getenv("SHIM_SYNC")) point("sync", fdp[fd], 0); return mfd(fd) ? 0 : syscall(SYS_fdatasync, fd); }
int unlinkat(int d, const char *path, int fl) {
  char b[1024]; const char *p = at(d, path, b);
  int m = mine(p);
  if (m) point(fl & AT_REMOVEDIR ? "rmdir" : "unlink", p, 0);
  int r = syscall(SYS_unlinkat, d, path, fl);
  if (m) RET(r);
  return r;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int renameat2(int d, const char *x, int e, const char *y, unsigned fl) {
  char b[1024], c[1024]; const char *p = at(d, x, b), *q = at(e, y, c);
  int m = mine(p) || mine(q);
  if (m) { char t[1800]; snprintf(t, sizeof t, "%s>%s", p ? p : "-", q && !strncmp(q, root, rootlen) ? q + rootlen : "-"); t[700] = 0; point("rename", t, 0); }
  int r = syscall(SYS_renameat2, d, x, e, y, fl);
  if (m) RET(r);
  return r;
}
int renameat(int d, const char *x, int e, const char *y) { return renameat2(d, x, e, y, 0); }
int rename(const char *x, const char *y) { return renameat2(AT_FDCWD, x, AT_FDCWD, y, 0); }
int linkat(int d, const char *x, int e, const char *y, int fl) {
  char c[1024]; const char *q = at(e, y, c);
  int m = mine(q);
  if (m) point("link", q, 0);
  int r = syscall(SYS_linkat, d, x, e, y, fl);
  if (m) RET(r);
  return r;
}
int link(const char *x, const char *y) { return linkat(AT_FDCWD, x, AT_FDCWD, y, 0); }
int mkdirat(int d, const char *path, mode_t mode) {
  char b[1024]; const char *p = at(d, path, b);
  int m = mine(p);
  if (m) point("mkdir", p, 0);
  int r = syscall(SYS_mkdirat, d, path, mode);
  if (m) RET(r);
  return r;
}
int mkdir(const char *p, mode_t mode) { return mkdirat(AT_FDCWD, p, mode); }
static void mixst(const struct statx *s) { mixl(s->stx_mode); mixl(S_ISREG(s->stx_mode) ? (long)s->stx_size : 0); }
int statx(int d, const char *restrict path, int fl, unsigned mask, struct statx *restrict s) {
  char b[1024]; const char *p = NULL;
  int m = 0;
  if (on && path && path[0]) { p = at(d, path, b); m = mine(p); }
  if (m) point("stat", p, 0);
  int r = syscall(SYS_statx, d, path, fl, mask, s);
  if (m) { RET(r); if (r == 0) mixst(s); }
  return r;
}
static int do_stat(int d, const char *path, struct stat *s, int fl) {
  char b[1024]; const char *p = NULL; int m = 0;
  if (on && path && path[0]) { p = at(d, path, b); m = mine(p); }
  if (m) point("stat", p, 0);
  int r = syscall(SYS_newfstatat, d, path, s, fl);
  if (m) { RET(r); if (r == 0) { mixl(s->st_mode); mixl(S_ISREG(s->st_mode) ? (long)s->st_size : 0); } }
  return r;
}
int stat(const char *restrict p, struct stat *restrict s) { return do_stat(AT_FDCWD, p, s, 0); }
int stat64(const char *restrict p, struct stat64 *restrict s) { return do_stat(AT_FDCWD, p, (struct stat *)s, 0); }
int lstat(const char *restrict p, struct stat *restrict s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { return do_stat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
int access(const char *path, int mode) {
  int m = mine(path);
  if (m) point("stat", path, 0);
  int r = syscall(SYS_access, path, mode);
  if (m) RET(r);
  return r;
}
DIR *opendir(const char *path) {
  REAL(opendir);
  int m = mine(path);
  if (m) point("list", path, 0);
  DIR *d = r(path);
  if (m) {
    mixl(d == NULL);
    // what the listing will show is what is there now: small directories are read at once
    if (d) {
      DIR *e = r(path);
      struct dirent *x;
      unsigned long long sum = 0, keep = dig;
      while (e && (x = readdir(e))) { dig = 1469598103934665603ULL; mix(x->d_name, strlen(x->d_name)); sum += dig; }
      dig = keep;
      mixl((long)sum);
      if (e) closedir(e);
    }
  }
  return d;
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned fl) {
  if (mfd(a) || mfd(b)) { errno = ENOSYS; return -1; } // (plain reads and writes instead)
  return syscall(SYS_copy_file_range, a, x, b, y, n, fl);
}
ssize_t sendfile(int a, int b, off_t *x, size_t n) {
  if (mfd(a) || mfd(b)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, a, b, x, n);
}
ssize_t sendfile64(int a, int b, off64_t *x, size_t n) { return sendfile(a, b, (off_t *)x, n); }
