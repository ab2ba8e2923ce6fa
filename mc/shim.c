// libc interposition for the harness: every file-system operation of the code under test whose path lies
// inside the scratch world is a numbered event that can be recorded, killed, torn, failed or scheduled.
// Mutations outside the world are never carried out: they are recorded and answered with EPERM.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
#include "shim.h"

static struct shim_slot *S;           // control block of this (virtual) process; NULL: everything passes through
static __thread int bypass;           // this thread is the harness itself (S3 stand-in)
#define on (!bypass)
static char world[PATH_MAX];
static size_t world_len;
static unsigned char fdc[1024];       // cached class of an open fd + 1, 0 unknown

static inline long sc6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, ...) RAW_(n, __VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) sc6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long fin(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

void shim_attach(struct shim_slot *s, const char *w) {
  S = s;
  strncpy(world, w, sizeof world - 1);
  world_len = strlen(world);
  memset(fdc, 0, sizeof fdc);
}
void shim_thread_on(int v) { bypass = !v; }
int shim_is_on(void) { return on; }

// ---- paths ------------------------------------------------------------------------------------------
static void norm(char *out, const char *base, const char *p) {
  char tmp[2 * PATH_MAX];
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else snprintf(tmp, sizeof tmp, "%s/%s", base, p);
  size_t o = 0;
  char *s = tmp;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 1 && s[0] == '.') {}
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[o - 1] != '/') o--; if (o > 0) o--; }
    else if (o + n + 2 < PATH_MAX) { out[o++] = '/'; memcpy(out + o, s, n); o += n; }
    s = e;
  }
  if (o == 0) out[o++] = '/';
  out[o] = 0;
}
static int fd_path(int fd, char *out) {
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  long n = RAW(SYS_readlink, l, out, PATH_MAX - 1);
  if (n < 0) { out[0] = 0; return -1; }
  out[n] = 0; return 0;
}
static void resolve(int dirfd, const char *p, char *out) {
  char base[PATH_MAX];
  if (!p) p = "";
  if (p[0] == '/') { norm(out, "/", p); return; }
  if (dirfd == AT_FDCWD) { long n = RAW(SYS_getcwd, base, sizeof base); if (n <= 0) strcpy(base, "/"); }
  else if (fd_path(dirfd, base)) strcpy(base, "/");
  if (!*p) { strcpy(out, base); return; }
  norm(out, base, p);
}
static int under(const char *abs, const char *dir) {
  size_t n = strlen(dir);
  return n && !strncmp(abs, dir, n) && (abs[n] == '/' || abs[n] == 0);
}
// class of an absolute path: see shim.h
static int classify(const char *abs) {
  if (!world_len) return C_OUT;
  if (!under(abs, world)) return C_OUT;
  const char *r = abs + world_len;
  static const struct { const char *n; int c; } t[] = {
      {"/local", C_LOCAL}, {"/remote", C_REMOTE}, {"/tmp", C_TMP}, {"/input", C_INPUT},
      {"/repo", C_REPO}, {"/local2", C_LOCAL2}, {"/home", C_HOME}};
  for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (under(r, t[i].n)) return t[i].c;
  return C_WORLD;
}
static const char *rel(const char *abs) {
  if (under(abs, world)) { const char *r = abs + world_len; if (*r == '/') r++; return r; }
  return abs;
}
static int fd_class(int fd) {
  if (fd < 0) return C_OUT;
  if (fd < (int)sizeof fdc && fdc[fd]) return fdc[fd] - 1;
  char p[PATH_MAX];
  int c = C_OUT;
  if (!fd_path(fd, p) && p[0] == '/') c = classify(p);
  if (fd < (int)sizeof fdc) fdc[fd] = c + 1;
  return c;
}
static void fd_forget(int fd) { if (fd >= 0 && fd < (int)sizeof fdc) fdc[fd] = 0; }

// ---- events -----------------------------------------------------------------------------------------
static void put(char *dst, const char *src) {
  size_t n = strlen(src);
  if (n >= SHIM_PATH) { src += n - (SHIM_PATH - 1); n = SHIM_PATH - 1; }
  memcpy(dst, src, n); dst[n] = 0;
}
static void handover(struct shim_ev *e, int blocked) {
  S->pending = (int)(S->nev - 1);
  S->blocked = blocked;
  (void)e;
  char b = 'p';
  RAW(SYS_write, S->to_ctl, &b, 1);
  long n;
  do n = RAW(SYS_read, S->from_ctl, &b, 1); while (n == -EINTR);
  if (n != 1) RAW(SYS_exit_group, 99);
  if (b == 'k') RAW(SYS_exit_group, 137);
}
struct verdict { int act; int err; int64_t m; struct shim_ev *ev; };
static struct verdict enter(int op, int cls, const char *p1, const char *p2, int64_t size, int mutating) {
  struct verdict v = {A_DO, 0, 0, NULL};
  int saved = errno;
  uint32_t i = S->nev;
  static struct shim_ev dummy;
  struct shim_ev *e = &dummy;
  if (i < SHIM_MAXEV) { e = &S->ev[i]; }
  else S->overflow = 1;
  S->nev = i + 1;
  e->op = op; e->cls = cls; e->mut = mutating; e->size = size; e->ret = INT64_MIN; e->err = 0;
  put(e->path, p1 ? rel(p1) : ""); put(e->path2, p2 ? rel(p2) : "");
  v.ev = e;
  if (S->sched && (S->sched_mask & (1u << cls))) handover(e, 0);
  if (cls == C_OUT) {  // only mutating operations outside the world get here
    v.act = A_ERR; v.err = EPERM; S->outside = 1;
  }
  for (int k = 0; k < S->nplan; k++) {
    struct shim_plan *pl = &S->plan[k];
    if (pl->kind == P_FULL) {  // disk full from event `at` on
      if (i >= pl->at && mutating && (op == OP_WRITE || op == OP_COPY || op == OP_OPENW || op == OP_MKDIR || op == OP_SYMLINK || op == OP_LINK) && cls != C_OUT) {
        v.act = A_ERR; v.err = (int)pl->arg; S->hit = 1;
      }
      continue;
    }
    if (pl->at != i) continue;
    S->hit++;
    switch (pl->kind) {
      case P_KILL: RAW(SYS_exit_group, 137); break;
      case P_KILLPART: v.act = A_KILLPART; v.m = pl->arg; break;
      case P_ERR: v.act = A_ERR; v.err = (int)pl->arg; break;
      case P_SHORT: v.act = A_SHORT; v.m = pl->arg; break;
    }
  }
  errno = saved;
  return v;
}
static long leave(struct verdict *v, long r) {
  if (v->ev) { v->ev->ret = r; v->ev->err = r < 0 ? errno : 0; }
  return r;
}
#define FAIL(v) do { errno = (v).err; return leave(&(v), -1); } while (0)
static int act_path(int cls) { return S && on && cls != C_OUT && cls != C_REPO && cls != C_HOME; }

// a request of the S3 stand-in is an event as well; returns the plan's action for it
int shim_s3_event(const char *what, int64_t size, int mutating, int64_t *arg) {
  if (!S) return 0;
  uint32_t i = S->nev;
  struct verdict v = enter(OP_S3, C_S3, what, NULL, size, mutating);
  v.ev->ret = 0;
  if (v.act == A_KILLPART) { *arg = v.m; return P_KILLPART; }
  if (v.act == A_ERR) { *arg = v.err; return P_ERR; }
  if (v.act == A_SHORT) { *arg = v.m; return P_SHORT; }
  (void)i;
  return 0;
}
void shim_die(void) { RAW(SYS_exit_group, 137); }

// ---- open / close -----------------------------------------------------------------------------------
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (!S || !on) return (int)fin(RAW(SYS_openat, dirfd, path, flags, mode));
  char p[PATH_MAX]; resolve(dirfd, path, p);
  int cls = classify(p);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (cls == C_OUT && (!w || under(p, "/dev") || under(p, "/proc"))) return (int)fin(RAW(SYS_openat, dirfd, path, flags, mode));
  if ((cls == C_REPO || cls == C_HOME) && !w) return (int)fin(RAW(SYS_openat, dirfd, path, flags, mode));
  struct verdict v = enter(w ? OP_OPENW : OP_OPENR, cls, p, NULL, flags, w);
  if (v.act == A_ERR) FAIL(v);
  long r = fin(RAW(SYS_openat, dirfd, path, flags, mode));
  if (r >= 0) { fd_forget((int)r); if (r < (long)sizeof fdc) fdc[r] = cls + 1; }
  return (int)leave(&v, r);
}
int open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(d, p, f, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (!S || !on) { if (S) fd_forget(fd); return (int)fin(RAW(SYS_close, fd)); }
  int cls = fd_class(fd);
  char p[PATH_MAX]; p[0] = 0;
  if (act_path(cls) && !S->sched) {
    fd_path(fd, p);
    struct verdict v = enter(OP_CLOSE, cls, p, NULL, 0, 0);
    long r = RAW(SYS_close, fd); fd_forget(fd);
    if (v.act == A_ERR) FAIL(v);
    return (int)leave(&v, fin(r));
  }
  fd_forget(fd);
  return (int)fin(RAW(SYS_close, fd));
}
int dup2(int a, int b) { fd_forget(b); return (int)fin(RAW(SYS_dup2, a, b)); }

// ---- data -------------------------------------------------------------------------------------------
static ssize_t data_in(int op, int fd, int64_t n, struct verdict *v, int *done) {
  int cls = fd_class(fd);
  *done = 0; v->ev = NULL; v->act = A_DO;
  if (!act_path(cls)) return 0;
  char p[PATH_MAX]; fd_path(fd, p);
  *v = enter(op, cls, p, NULL, n, op == OP_WRITE);
  if (v->act == A_ERR) { errno = v->err; *done = 1; leave(v, -1); return -1; }
  return 0;
}
static int64_t cap(struct verdict *v, int64_t n) {
  if ((v->act == A_SHORT || v->act == A_KILLPART) && v->m < n) return v->m;
  return n;
}
#define AFTER(v) do { if ((v).act == A_KILLPART) RAW(SYS_exit_group, 137); } while (0)
ssize_t read(int fd, void *b, size_t n) {
  if (!S || !on) return fin(RAW(SYS_read, fd, b, n));
  struct verdict v; int d; data_in(OP_READ, fd, n, &v, &d); if (d) return -1;
  ssize_t r = fin(RAW(SYS_read, fd, b, cap(&v, n)));
  return leave(&v, r);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (!S || !on) return fin(RAW(SYS_pread64, fd, b, n, o));
  struct verdict v; int d; data_in(OP_READ, fd, n, &v, &d); if (d) return -1;
  return leave(&v, fin(RAW(SYS_pread64, fd, b, cap(&v, n), o)));
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *iov, int c) {
  if (!S || !on) return fin(RAW(SYS_readv, fd, iov, c));
  struct verdict v; int d; data_in(OP_READ, fd, c, &v, &d); if (d) return -1;
  if (v.act == A_SHORT && c > 0) return leave(&v, fin(RAW(SYS_read, fd, iov[0].iov_base, cap(&v, iov[0].iov_len))));
  return leave(&v, fin(RAW(SYS_readv, fd, iov, c)));
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!S || !on) return fin(RAW(SYS_write, fd, b, n));
  struct verdict v; int d; data_in(OP_WRITE, fd, n, &v, &d); if (d) return -1;
  ssize_t r = fin(RAW(SYS_write, fd, b, cap(&v, n)));
  AFTER(v);
  return leave(&v, r);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!S || !on) return fin(RAW(SYS_pwrite64, fd, b, n, o));
  struct verdict v; int d; data_in(OP_WRITE, fd, n, &v, &d); if (d) return -1;
  ssize_t r = fin(RAW(SYS_pwrite64, fd, b, cap(&v, n), o));
  AFTER(v);
  return leave(&v, r);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
  if (!S || !on) return fin(RAW(SYS_writev, fd, iov, c));
  int64_t n = 0; for (int i = 0; i < c; i++) n += iov[i].iov_len;
  struct verdict v; int d; data_in(OP_WRITE, fd, n, &v, &d); if (d) return -1;
  if (v.act == A_SHORT || v.act == A_KILLPART) {
    int64_t left = cap(&v, n), done = 0;
    for (int i = 0; i < c && left > 0; i++) {
      size_t k = (int64_t)iov[i].iov_len < left ? iov[i].iov_len : (size_t)left;
      long r = RAW(SYS_write, fd, iov[i].iov_base, k);
      if (r < 0) break;
      done += r; left -= r;
    }
    AFTER(v);
    return leave(&v, done);
  }
  return leave(&v, fin(RAW(SYS_writev, fd, iov, c)));
}
ssize_t copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned f) {
  if (!S || !on) return fin(RAW(SYS_copy_file_range, fi, oi, fo, oo, n, f));
  int cls = fd_class(fo);
  if (!act_path(cls)) return fin(RAW(SYS_copy_file_range, fi, oi, fo, oo, n, f));
  char p[PATH_MAX], q[PATH_MAX]; fd_path(fo, p); fd_path(fi, q);
  // size of the event: what can really be copied now
  struct stat st; int64_t avail = n;
  if (!RAW(SYS_fstat, fi, &st)) {
    int64_t pos = oi ? *oi : RAW(SYS_lseek, fi, 0, SEEK_CUR);
    if (st.st_size - pos < avail) avail = st.st_size - pos;
    if (avail < 0) avail = 0;
  }
  struct verdict v = enter(OP_COPY, cls, p, q, avail, 1);
  if (v.act == A_ERR) FAIL(v);
  ssize_t r = fin(RAW(SYS_copy_file_range, fi, oi, fo, oo, cap(&v, n), f));
  AFTER(v);
  return leave(&v, r);
}
static ssize_t do_sendfile(int fo, int fi, off64_t *oi, size_t n) {
  if (!S || !on) return fin(RAW(SYS_sendfile, fo, fi, oi, n));
  int cls = fd_class(fo);
  if (!act_path(cls)) return fin(RAW(SYS_sendfile, fo, fi, oi, n));
  char p[PATH_MAX], q[PATH_MAX]; fd_path(fo, p); fd_path(fi, q);
  struct stat st; int64_t avail = n;
  if (!RAW(SYS_fstat, fi, &st)) {
    int64_t pos = oi ? *oi : RAW(SYS_lseek, fi, 0, SEEK_CUR);
    if (st.st_size - pos < avail) avail = st.st_size - pos;
    if (avail < 0) avail = 0;
  }
  struct verdict v = enter(OP_COPY, cls, p, q, avail, 1);
  if (v.act == A_ERR) FAIL(v);
  ssize_t r = fin(RAW(SYS_sendfile, fo, fi, oi, cap(&v, n)));
  AFTER(v);
  return leave(&v, r);
}
ssize_t sendfile(int fo, int fi, off_t *oi, size_t n) { return do_sendfile(fo, fi, (off64_t *)oi, n); }
ssize_t sendfile64(int fo, int fi, off64_t *oi, size_t n) { return do_sendfile(fo, fi, oi, n); }
static int fd_op(int op, int fd, long nr, long a) {
  if (!S || !on) return (int)fin(RAW(nr, fd, a));
  int cls = fd_class(fd);
  if (!act_path(cls)) return (int)fin(RAW(nr, fd, a));
  char p[PATH_MAX]; fd_path(fd, p);
  struct verdict v = enter(op, cls, p, NULL, a, op != OP_SYNC);
  if (v.act == A_ERR) FAIL(v);
  return (int)leave(&v, fin(RAW(nr, fd, a)));
}
int ftruncate64(int fd, off64_t n) { return fd_op(OP_TRUNC_, fd, SYS_ftruncate, n); }
int ftruncate(int fd, off_t n) { return fd_op(OP_TRUNC_, fd, SYS_ftruncate, n); }
int fchmod(int fd, mode_t m) { return fd_op(OP_CHMOD, fd, SYS_fchmod, m); }
int fsync(int fd) { return fd_op(OP_SYNC, fd, SYS_fsync, 0); }
int fdatasync(int fd) { return fd_op(OP_SYNC, fd, SYS_fdatasync, 0); }
int flock(int fd, int o) {
  if (S && on && S->sched) {
    for (;;) {
      long r = RAW(SYS_flock, fd, o | 4 /*LOCK_NB*/);
      if (r != -EWOULDBLOCK || (o & 4)) return (int)fin(r);
      struct verdict v = {0}; char p[PATH_MAX]; fd_path(fd, p);
      (void)v;
      if (S->nev < SHIM_MAXEV) { struct shim_ev *e = &S->ev[S->nev++]; memset(e, 0, sizeof *e); e->op = OP_LOCK; e->cls = fd_class(fd); put(e->path, rel(p)); handover(e, 1); }
    }
  }
  return (int)fin(RAW(SYS_flock, fd, o));
}

// ---- names ------------------------------------------------------------------------------------------
// one- and two-path mutations; a path outside the world makes the operation refused (unless both inside)
static long path1(int op, int dirfd, const char *path, long nr, long a, long b, long c, long d, int mutating) {
  if (!S || !on) return fin(RAW(nr, a, b, c, d));
  char p[PATH_MAX]; resolve(dirfd, path, p);
  int cls = classify(p);
  if (!mutating && !act_path(cls)) return fin(RAW(nr, a, b, c, d));
  struct verdict v = enter(op, cls, p, NULL, 0, mutating);
  if (v.act == A_ERR) FAIL(v);
  return leave(&v, fin(RAW(nr, a, b, c, d)));
}
static long path2(int op, int d1, const char *a1, int d2, const char *a2, long nr, long a, long b, long c, long d, long e) {
  if (!S || !on) return fin(RAW(nr, a, b, c, d, e));
  char p[PATH_MAX], q[PATH_MAX]; resolve(d1, a1, p); resolve(d2, a2, q);
  int cp = classify(p), cq = classify(q);
  int cls = cp == C_OUT ? C_OUT : cq;   // both ends are changed by rename/link
  struct verdict v = enter(op, cls, p, q, 0, 1);
  if (v.act == A_ERR) FAIL(v);
  return leave(&v, fin(RAW(nr, a, b, c, d, e)));
}
int rename(const char *a, const char *b) { return (int)path2(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0); }
int renameat(int x, const char *a, int y, const char *b) { return (int)path2(OP_RENAME, x, a, y, b, SYS_renameat2, x, (long)a, y, (long)b, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return (int)path2(OP_RENAME, x, a, y, b, SYS_renameat2, x, (long)a, y, (long)b, f); }
int link(const char *a, const char *b) { return (int)path2(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return (int)path2(OP_LINK, x, a, y, b, SYS_linkat, x, (long)a, y, (long)b, f); }
int unlink(const char *p) { return (int)path1(OP_UNLINK, AT_FDCWD, p, SYS_unlinkat, AT_FDCWD, (long)p, 0, 0, 1); }
int unlinkat(int d, const char *p, int f) { return (int)path1(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, d, p, SYS_unlinkat, d, (long)p, f, 0, 1); }
int rmdir(const char *p) { return (int)path1(OP_RMDIR, AT_FDCWD, p, SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR, 0, 1); }
int remove(const char *p) { int r = unlink(p); if (r && errno == EISDIR) r = rmdir(p); return r; }
int mkdir(const char *p, mode_t m) { return (int)path1(OP_MKDIR, AT_FDCWD, p, SYS_mkdirat, AT_FDCWD, (long)p, m, 0, 1); }
int mkdirat(int d, const char *p, mode_t m) { return (int)path1(OP_MKDIR, d, p, SYS_mkdirat, d, (long)p, m, 0, 1); }
int chmod(const char *p, mode_t m) { return (int)path1(OP_CHMOD, AT_FDCWD, p, SYS_fchmodat, AT_FDCWD, (long)p, m, 0, 1); }
int fchmodat(int d, const char *p, mode_t m, int f) { return (int)path1(OP_CHMOD, d, p, SYS_fchmodat, d, (long)p, m, 0, 1); }
int truncate64(const char *p, off64_t n) { return (int)path1(OP_TRUNC_, AT_FDCWD, p, SYS_truncate, (long)p, n, 0, 0, 1); }
int truncate(const char *p, off_t n) { return (int)path1(OP_TRUNC_, AT_FDCWD, p, SYS_truncate, (long)p, n, 0, 0, 1); }
static int do_symlink(const char *t, int d, const char *p) {
  if (!S || !on) return (int)fin(RAW(SYS_symlinkat, t, d, p));
  char q[PATH_MAX]; resolve(d, p, q);
  struct verdict v = enter(OP_SYMLINK, classify(q), q, t, 0, 1);
  if (v.act == A_ERR) FAIL(v);
  return (int)leave(&v, fin(RAW(SYS_symlinkat, t, d, p)));
}
int symlink(const char *t, const char *p) { return do_symlink(t, AT_FDCWD, p); }
int symlinkat(const char *t, int d, const char *p) { return do_symlink(t, d, p); }
int utimes(const char *p, const struct timeval tv[2]) { return (int)path1(OP_UTIME, AT_FDCWD, p, SYS_utimes, (long)p, (long)tv, 0, 0, 1); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { return (int)path1(OP_UTIME, d, p, SYS_utimensat, d, (long)p, (long)t, f, 1); }

// ---- queries ----------------------------------------------------------------------------------------
int stat64(const char *p, struct stat64 *s) { return (int)path1(OP_STAT, AT_FDCWD, p, SYS_newfstatat, AT_FDCWD, (long)p, (long)s, 0, 0); }
int stat(const char *p, struct stat *s) { return (int)path1(OP_STAT, AT_FDCWD, p, SYS_newfstatat, AT_FDCWD, (long)p, (long)s, 0, 0); }
int lstat64(const char *p, struct stat64 *s) { return (int)path1(OP_STAT, AT_FDCWD, p, SYS_newfstatat, AT_FDCWD, (long)p, (long)s, AT_SYMLINK_NOFOLLOW, 0); }
int lstat(const char *p, struct stat *s) { return (int)path1(OP_STAT, AT_FDCWD, p, SYS_newfstatat, AT_FDCWD, (long)p, (long)s, AT_SYMLINK_NOFOLLOW, 0); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) {
  if (p && !*p) return (int)fin(RAW(SYS_newfstatat, d, p, s, f));
  return (int)path1(OP_STAT, d, p, SYS_newfstatat, d, (long)p, (long)s, f, 0);
}
int fstatat(int d, const char *p, struct stat *s, int f) { return fstatat64(d, p, (struct stat64 *)s, f); }
static int do_fstat(int fd, void *s) {
  if (S && on && !S->sched && act_path(fd_class(fd))) return fd_op(OP_SYNC, fd, SYS_fstat, (long)s);
  return (int)fin(RAW(SYS_fstat, fd, s));
}
int fstat64(int fd, struct stat64 *s) { return do_fstat(fd, s); }
int fstat(int fd, struct stat *s) { return do_fstat(fd, s); }
int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
  if (!S || !on) return (int)fin(RAW(SYS_statx, d, p, f, m, s));
  if (!p || !*p) {
    if (!S->sched && act_path(fd_class(d))) {
      char q[PATH_MAX]; fd_path(d, q);
      struct verdict v = enter(OP_STAT, fd_class(d), q, NULL, 0, 0);
      if (v.act == A_ERR) FAIL(v);
      return (int)leave(&v, fin(RAW(SYS_statx, d, p, f, m, s)));
    }
    return (int)fin(RAW(SYS_statx, d, p, f, m, s));
  }
  char q[PATH_MAX]; resolve(d, p, q);
  int cls = classify(q);
  if (!act_path(cls)) return (int)fin(RAW(SYS_statx, d, p, f, m, s));
  struct verdict v = enter(OP_STAT, cls, q, NULL, 0, 0);
  if (v.act == A_ERR) FAIL(v);
  return (int)leave(&v, fin(RAW(SYS_statx, d, p, f, m, s)));
}
int access(const char *p, int m) { return (int)path1(OP_STAT, AT_FDCWD, p, SYS_faccessat, AT_FDCWD, (long)p, m, 0, 0); }
int faccessat(int d, const char *p, int m, int f) { (void)f; return (int)path1(OP_STAT, d, p, SYS_faccessat, d, (long)p, m, 0, 0); }
ssize_t readlink(const char *p, char *b, size_t n) { return path1(OP_STAT, AT_FDCWD, p, SYS_readlinkat, AT_FDCWD, (long)p, (long)b, n, 0); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { return path1(OP_STAT, d, p, SYS_readlinkat, d, (long)p, (long)b, n, 0); }
static char *(*real_realpath)(const char *, char *);
char *realpath(const char *p, char *out) {
  if (!real_realpath) real_realpath = dlsym(RTLD_NEXT, "realpath");
  if (!S || !on || !p) return real_realpath(p, out);
  char q[PATH_MAX]; resolve(AT_FDCWD, p, q);
  int cls = classify(q);
  if (!act_path(cls)) return real_realpath(p, out);
  struct verdict v = enter(OP_STAT, cls, q, NULL, 0, 0);
  if (v.act == A_ERR) { errno = v.err; leave(&v, -1); return NULL; }
  char *r = real_realpath(p, out);
  leave(&v, r ? 0 : -1);
  return r;
}

// ---- directories: the whole listing is read at the first readdir and served in the order the plan says ----
#define MAXD 64
static struct { DIR *d; struct dirent64 **e; int n, i; int64_t fail_at; } dirs[MAXD];
static DIR *(*r_opendir)(const char *); static DIR *(*r_fdopendir)(int);
static struct dirent64 *(*r_readdir64)(DIR *); static int (*r_closedir)(DIR *);
static void dirinit(void) {
  if (r_opendir) return;
  r_opendir = dlsym(RTLD_NEXT, "opendir"); r_fdopendir = dlsym(RTLD_NEXT, "fdopendir");
  r_readdir64 = dlsym(RTLD_NEXT, "readdir64"); r_closedir = dlsym(RTLD_NEXT, "closedir");
}
DIR *opendir(const char *p) {
  dirinit();
  if (!S || !on) return r_opendir(p);
  char q[PATH_MAX]; resolve(AT_FDCWD, p, q);
  int cls = classify(q);
  if (!act_path(cls)) return r_opendir(p);
  struct verdict v = enter(OP_OPENDIR, cls, q, NULL, 0, 0);
  if (v.act == A_ERR) { errno = v.err; leave(&v, -1); return NULL; }
  DIR *d = r_opendir(p);
  leave(&v, d ? 0 : -1);
  if (d) fd_forget(dirfd(d));
  return d;
}
DIR *fdopendir(int fd) { dirinit(); return r_fdopendir(fd); }
static int cmp(const void *a, const void *b) { return strcmp((*(struct dirent64 *const *)a)->d_name, (*(struct dirent64 *const *)b)->d_name); }
static void permute(struct dirent64 **e, int n, int64_t order) {
  qsort(e, n, sizeof *e, cmp);
  if (order == 0) return;
  if (order == 1) { for (int i = 0; i < n / 2; i++) { struct dirent64 *t = e[i]; e[i] = e[n - 1 - i]; e[n - 1 - i] = t; } return; }
  int64_t k = order - 2;               // the k-th permutation (Lehmer code), for listings of any size
  for (int i = n; i > 1; i--) { int j = (int)(k % i); k /= i; struct dirent64 *t = e[i - 1]; e[i - 1] = e[j]; e[j] = t; }
}
struct dirent64 *readdir64(DIR *d) {
  dirinit();
  if (!S || !on) return r_readdir64(d);
  int cls = fd_class(dirfd(d));
  if (!act_path(cls)) return r_readdir64(d);
  int s = -1;
  for (int i = 0; i < MAXD; i++) if (dirs[i].d == d) s = i;
  if (s < 0) {
    for (int i = 0; i < MAXD; i++) if (!dirs[i].d) { s = i; break; }
    if (s < 0) return r_readdir64(d);
    char p[PATH_MAX]; fd_path(dirfd(d), p);
    struct verdict v = enter(OP_READDIR, cls, p, NULL, 0, 0);
    dirs[s].d = d; dirs[s].i = 0; dirs[s].n = 0; dirs[s].e = NULL; dirs[s].fail_at = v.act == A_ERR ? v.err : 0;
    int capn = 0; struct dirent64 *e;
    while ((e = r_readdir64(d))) {
      if (dirs[s].n == capn) { capn = capn ? 2 * capn : 32; dirs[s].e = realloc(dirs[s].e, capn * sizeof *dirs[s].e); }
      struct dirent64 *c = malloc(sizeof *c); memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
      dirs[s].e[dirs[s].n++] = c;
    }
    permute(dirs[s].e, dirs[s].n, S->dir_order);
    leave(&v, dirs[s].n);
    errno = 0;
  }
  if (dirs[s].fail_at && dirs[s].i >= dirs[s].n / 2) { errno = (int)dirs[s].fail_at; dirs[s].fail_at = 0; dirs[s].i = dirs[s].n; return NULL; }
  if (dirs[s].i >= dirs[s].n) return NULL;
  return dirs[s].e[dirs[s].i++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  dirinit();
  for (int i = 0; i < MAXD; i++) if (dirs[i].d == d) {
    for (int k = 0; k < dirs[i].n; k++) free(dirs[i].e[k]);
    free(dirs[i].e); memset(&dirs[i], 0, sizeof dirs[i]);
  }
  if (S) fd_forget(dirfd(d));
  return r_closedir(d);
}

// ---- time, randomness, identity ---------------------------------------------------------------------
int clock_gettime(clockid_t c, struct timespec *t) {
  if (S && on && c == CLOCK_REALTIME) { t->tv_sec = S->now; t->tv_nsec = S->now_ns; return 0; }
  return (int)fin(RAW(SYS_clock_gettime, c, t));
}
int gettimeofday(struct timeval *t, void *z) {
  if (S && on) { t->tv_sec = S->now; t->tv_usec = S->now_ns / 1000; return 0; }
  return (int)fin(RAW(SYS_gettimeofday, t, z));
}
time_t time(time_t *t) {
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!S || !on) return fin(RAW(SYS_getrandom, b, n, f));
  for (size_t i = 0; i < n; i++) {
    S->rng = S->rng * 6364136223846793005ull + 1442695040888963407ull;
    ((unsigned char *)b)[i] = S->rng >> 56;
  }
  return (ssize_t)n;
}
pid_t getpid(void) { if (S && on && S->pid) return S->pid; return (pid_t)RAW(SYS_getpid, 0); }

// ---- the machine and the user
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  if (S && on && S->cpus) {
    memset(m, 0, n);
    for (int i = 0; i < S->cpus; i++) CPU_SET(i, m);
    return 0;
  }
  long r = RAW(SYS_sched_getaffinity, p, n, m);
  if (r < 0) { errno = -r; return -1; }
  memset((char *)m + r, 0, n - r);
  return 0;
}
long sysconf(int k) {
  static long (*real)(int);
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  if (S && on && S->cpus && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return S->cpus;
  return real(k);
}
uid_t getuid(void) { return S && on && S->uid ? S->uid : (uid_t)RAW(SYS_getuid, 0); }
uid_t geteuid(void) { return S && on && S->uid ? S->uid : (uid_t)RAW(SYS_geteuid, 0); }
gid_t getgid(void) { return S && on && S->uid ? S->uid : (gid_t)RAW(SYS_getgid, 0); }
gid_t getegid(void) { return S && on && S->uid ? S->uid : (gid_t)RAW(SYS_getegid, 0); }
int uname(struct utsname *u) {
  long r = RAW(SYS_uname, u);
  if (r < 0) { errno = -r; return -1; }
  if (S && on && S->uid) { snprintf(u->nodename, sizeof u->nodename, "host%d", S->uid); snprintf(u->release, sizeof u->release, "3.2.%d", S->uid); }
  return 0;
}
int gethostname(char *b, size_t n) {
  struct utsname u;
  if (uname(&u)) return -1;
  snprintf(b, n, "%s", u.nodename);
  return 0;
}

// ---- argument vector of the process (rewritten in place before the code under test runs) --------------
static char **saved_argv; static int saved_argc;
__attribute__((constructor)) static void save_args(int argc, char **argv) { saved_argv = argv; saved_argc = argc; }
int shim_set_args(char **a, int n) {
  if (n >= saved_argc) return -1;
  for (int i = 0; i < n; i++) saved_argv[i] = a[i];
  saved_argv[n] = NULL;
  return 0;
}
