// Virtual disk: every path under /sim/ lives in memory; every system call on
// it is a scheduling point and a place where a fault may be injected.
// Not instrumented; allocates only with malloc.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core_int.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>

using namespace sim;

namespace vfs {

uint64_t g_io = 0;

struct Inode { unsigned char *data; size_t size, cap; int ino; int nlink; };
struct Name { char *path; Inode *node; };
struct Desc { Inode *node; uint64_t pos; int flags; int wr; int rd; FILE *fp; };
struct Log { int kind; uint64_t off; size_t len; unsigned char *data; };

enum { MAXNAME = 512, MAXFD = 1024 };
static Name g_name[MAXNAME]; static int g_nname = 0;
static Desc *g_fd[MAXFD];
static int g_nextino = 1000, g_nopen = 0;
static bool g_full = false;
static uint64_t g_used = 0;
static Inode *g_lognode = 0; static char *g_logpath = 0;
static Log *g_log = 0; static size_t g_nlog = 0, g_clog = 0;
static unsigned char *g_log0 = 0; static size_t g_log0n = 0;

static bool is_sim(const char *p) { return p && !strncmp(p, "/sim/", 5); }
static Name *find(const char *p) {
  for (int i = 0; i < g_nname; i++) if (!strcmp(g_name[i].path, p)) return &g_name[i];
  return 0;
}
static Inode *new_inode() { Inode *n = (Inode *)calloc(1, sizeof(Inode)); n->ino = g_nextino++; n->nlink = 1; return n; }
static Name *create(const char *p) {
  Name *n = find(p);
  if (!n) { if (g_nname == MAXNAME) abort(); n = &g_name[g_nname++]; n->path = strdup(p); n->node = 0; }
  n->node = new_inode();
  if (g_logpath && !strcmp(p, g_logpath)) g_lognode = n->node;
  return n;
}
static void drop(Name *n) {
  g_used -= n->node->size;
  n->node->nlink = 0;
  free(n->path); *n = g_name[--g_nname];
}
static void reserve(Inode *n, size_t sz) {
  if (sz <= n->cap) return;
  size_t c = n->cap ? n->cap : 4096; while (c < sz) c *= 2;
  n->data = (unsigned char *)realloc(n->data, c); n->cap = c;
}
static void resize(Inode *n, size_t sz) {
  reserve(n, sz);
  if (sz > n->size) memset(n->data + n->size, 0, sz - n->size);
  if (n->nlink) g_used += sz - n->size;
  n->size = sz;
}
static void add_log(Inode *n, int kind, uint64_t off, const void *d, size_t len) {
  if (n != g_lognode) return;
  if (g_nlog == g_clog) { g_clog = g_clog ? g_clog * 2 : 256; g_log = (Log *)realloc(g_log, g_clog * sizeof(Log)); }
  Log &l = g_log[g_nlog++]; l.kind = kind; l.off = off; l.len = len; l.data = (unsigned char *)malloc(len + 1);
  if (len) memcpy(l.data, d, len);
}

void reset() { g_io = 0; }

bool exists(const std::string &p) { return find(p.c_str()) != 0; }
Bytes get(const std::string &p) { Name *n = find(p.c_str()); return n ? Bytes(n->node->data, n->node->data + n->node->size) : Bytes(); }
void put(const std::string &p, const Bytes &b) {
  Name *o = find(p.c_str()); if (o) drop(o);
  Name *n = create(p.c_str()); resize(n->node, b.size()); if (!b.empty()) memcpy(n->node->data, &b[0], b.size());
}
void remove(const std::string &p) { Name *o = find(p.c_str()); if (o) drop(o); }
int open_fds() { return g_nopen; }
uint64_t io_ops() { return g_io; }
void free_disk() { g_full = false; }

void start_log(const std::string &p) {
  stop_log();
  g_logpath = strdup(p.c_str());
  Name *n = find(g_logpath);
  g_lognode = n ? n->node : 0;
  free(g_log0); g_log0 = 0; g_log0n = 0;
  if (n) { g_log0n = n->node->size; g_log0 = (unsigned char *)malloc(g_log0n + 1); memcpy(g_log0, n->node->data, g_log0n); }
  g_nlog = 0;
}
void stop_log() { g_lognode = 0; free(g_logpath); g_logpath = 0; }
size_t log_size() { return g_nlog; }
size_t log_len(size_t i) { return i < g_nlog && g_log[i].kind == 0 ? g_log[i].len : 0; }
static void apply(Bytes &b, const Log &l, size_t len) {
  if (l.kind == 1) { b.resize(l.off, 0); return; }
  if (!len) return;
  if (b.size() < l.off + len) b.resize(l.off + len, 0);
  memcpy(&b[l.off], l.data, len);
}
Bytes image(size_t n, size_t torn) {
  Bytes b(g_log0, g_log0 + g_log0n);
  for (size_t i = 0; i < n && i < g_nlog; i++) apply(b, g_log[i], g_log[i].len);
  if (n < g_nlog && g_log[n].kind == 0) apply(b, g_log[n], torn < g_log[n].len ? torn : g_log[n].len);
  return b;
}

//---------------------------------------------------------------------------
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

static Desc *desc(int fd) { return fd >= 0 && fd < MAXFD ? g_fd[fd] : 0; }

static void io_begin() { g_io++; io_point(); }

// common part of open and fopen; returns errno or 0
static int v_open(const char *p, int flags, Desc **out) {
  io_begin();
  static const int kinds[] = { F_OPEN_FAIL };
  uint64_t prm;
  if (fault_decide(kinds, 1, &prm) == F_OPEN_FAIL) {
    static const int errs[] = { EMFILE, EACCES, EIO };
    return errs[prm % 3];
  }
  Name *n = find(p);
  if (n && (flags & O_CREAT) && (flags & O_EXCL)) return EEXIST;
  if (!n) {
    if (!(flags & O_CREAT)) return ENOENT;
    if (g_full) return ENOSPC;
    n = create(p);
  }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && n->node->size) { resize(n->node, 0); add_log(n->node, 1, 0, 0, 0); }
  Desc *d = (Desc *)calloc(1, sizeof(Desc));
  d->node = n->node; d->flags = flags;
  d->rd = (flags & O_ACCMODE) != O_WRONLY; d->wr = (flags & O_ACCMODE) != O_RDONLY;
  *out = d;
  return 0;
}
static int v_real_null() { return syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0); }

static int open_path(const char *p, int flags) {
  Desc *d; int e = v_open(p, flags, &d);
  if (e) { errno = e; return -1; }
  int fd = v_real_null();
  if (fd < 0 || fd >= MAXFD) { free(d); errno = EMFILE; return -1; }
  g_fd[fd] = d; g_nopen++;
  return fd;
}
static int v_close_desc(int fd) {
  // returns errno or 0; the descriptor is gone either way
  io_begin();
  static const int kinds[] = { F_CLOSE_EIO };
  uint64_t prm; int r = 0;
  if (g_fd[fd]->wr && fault_decide(kinds, 1, &prm) == F_CLOSE_EIO) r = EIO;
  free(g_fd[fd]); g_fd[fd] = 0; g_nopen--;
  return r;
}
static ssize_t v_read(Desc *d, void *buf, size_t n, uint64_t off) {
  if (!d->rd) { errno = EBADF; return -1; }
  io_begin();
  static const int kinds[] = { F_READ_EIO, F_READ_EOF, F_EINTR, F_READ_SHORT };
  uint64_t prm;
  size_t avail = off < d->node->size ? d->node->size - off : 0;
  if (n > avail) n = avail;
  if (n) switch (fault_decide(kinds, 4, &prm)) {
    case F_READ_EIO: errno = EIO; return -1;
    case F_READ_EOF: return 0;
    case F_EINTR: errno = EINTR; return -1;
    case F_READ_SHORT: if (n > 1) n = 1 + prm % (n - 1); break;
    default: break;
  }
  if (n) { check_range(buf, n, true, "(read)"); memcpy(buf, d->node->data + off, n); }
  return n;
}
static ssize_t v_write(Desc *d, const void *buf, size_t n, uint64_t off) {
  if (!d->wr) { errno = EBADF; return -1; }
  io_begin();
  if (n == 0) return 0;
  static const int kinds[] = { F_WRITE_EIO, F_ENOSPC, F_EINTR, F_WRITE_SHORT };
  static const int inplace[] = { F_WRITE_EIO, F_EINTR, F_WRITE_SHORT };   // takes no room
  uint64_t prm;
  size_t grow = off + n > d->node->size ? off + n - d->node->size : 0;
  if (g_full && grow) { errno = ENOSPC; return -1; }
  uint64_t cap = faults().disk_capacity;
  if (cap && grow && fault_window_open() && g_used + grow > cap) {
    count_fault(F_ENOSPC); probe("disk capacity reached");
    size_t fit = g_used < cap ? cap - g_used : 0;
    g_full = true;
    size_t old = n - (grow < n ? grow : n);
    size_t k = off <= d->node->size ? old + fit : 0;
    if (k >= n) k = n - 1;
    if (k == 0) { errno = ENOSPC; return -1; }
    n = k;
  } else switch (grow ? fault_decide(kinds, 4, &prm) : fault_decide(inplace, 3, &prm)) {
    case F_WRITE_EIO: errno = EIO; return -1;
    case F_ENOSPC:
      g_full = true;
      if (n > 1 && (prm & 1)) { n = 1 + (prm >> 1) % (n - 1); break; }
      errno = ENOSPC; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_WRITE_SHORT: if (n > 1) n = 1 + prm % (n - 1); break;
    default: break;
  }
  check_range(buf, n, false, "(write)");
  if (off + n > d->node->size) resize(d->node, off + n);
  memcpy(d->node->data + off, buf, n);
  add_log(d->node, 0, off, buf, n);
  return n;
}
static void v_stat(Inode *n, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 77; st->st_ino = n->ino; st->st_mode = S_IFREG | 0644; st->st_nlink = n->nlink;
  st->st_size = n->size; st->st_blksize = 4096; st->st_blocks = (n->size + 511) / 512;
}

} // namespace vfs

using namespace vfs;

static int mode_flags(const char *m) {
  bool plus = strchr(m, '+') != 0;
  switch (m[0]) {
    case 'r': return plus ? O_RDWR : O_RDONLY;
    case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    default:  return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  }
}
static FILE *v_fopen(const char *p, const char *m) {
  typedef FILE *(*F)(const char *, const char *);
  static F rf = real<F>("fopen64");
  if (!is_sim(p)) return rf(p, m);
  Desc *d; int e = v_open(p, mode_flags(m), &d);
  if (e) { errno = e; return 0; }
  FILE *f = rf("/dev/null", "r+");
  int fd = f ? fileno(f) : -1;
  if (fd < 0 || fd >= MAXFD) { free(d); errno = EMFILE; return 0; }
  d->fp = f; g_fd[fd] = d; g_nopen++;
  return f;
}

extern "C" {
FILE *fopen(const char *p, const char *m) { return v_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return v_fopen(p, m); }
int fclose(FILE *f) {
  typedef int (*F)(FILE *); static F rf = real<F>("fclose");
  int fd = f ? fileno(f) : -1;
  int e = 0;
  if (desc(fd)) e = v_close_desc(fd);
  int r = rf(f);
  if (e) { errno = e; return EOF; }
  return r;
}
static int do_open(const char *p, int fl, mode_t m) {
  if (is_sim(p)) return open_path(p, fl);
  return syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return do_open(p, fl, m); }
int openat(int dfd, const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
  if (is_sim(p)) { return open_path(p, fl); }
  return syscall(SYS_openat, dfd, p, fl, m);
}
int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (!desc(fd)) return syscall(SYS_close, fd);
  int e = v_close_desc(fd);
  syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  Desc *d = desc(fd); if (!d) return syscall(SYS_read, fd, b, n);
  ssize_t r = v_read(d, b, n, d->pos); if (r > 0) d->pos += r; return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { Desc *d = desc(fd); if (!d) return syscall(SYS_pread64, fd, b, n, o); return v_read(d, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
  Desc *d = desc(fd); if (!d) return syscall(SYS_write, fd, b, n);
  if (d->flags & O_APPEND) d->pos = d->node->size;
  ssize_t r = v_write(d, b, n, d->pos); if (r > 0) d->pos += r; return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { Desc *d = desc(fd); if (!d) return syscall(SYS_pwrite64, fd, b, n, o); return v_write(d, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  Desc *d = desc(fd); if (!d) return syscall(SYS_writev, fd, v, c);
  ssize_t tot = 0;
  // one system call may transfer only part: each vector decides its own fate
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : -1;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
off64_t lseek64(int fd, off64_t o, int w) {
  Desc *d = desc(fd); if (!d) return syscall(SYS_lseek, fd, o, w);
  int64_t np = w == SEEK_SET ? o : w == SEEK_CUR ? (int64_t)d->pos + o : (int64_t)d->node->size + o;
  if (np < 0) { errno = EINVAL; return -1; }
  d->pos = np; return np;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int fstat(int fd, struct stat *st) { Desc *d = desc(fd); if (!d) return syscall(SYS_fstat, fd, st); v_stat(d->node, st); return 0; }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) {
  if (!is_sim(p)) return syscall(SYS_stat, p, st);
  Name *n = find(p); if (!n) { errno = ENOENT; return -1; } v_stat(n->node, st); return 0;
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) { if (!is_sim(p)) return syscall(SYS_lstat, p, st); return stat(p, st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int access(const char *p, int m) { if (!is_sim(p)) return syscall(SYS_access, p, m); if (find(p)) return 0; errno = ENOENT; return -1; }
int ftruncate64(int fd, off64_t l) {
  Desc *d = desc(fd); if (!d) return syscall(SYS_ftruncate, fd, l);
  io_begin();
  if ((uint64_t)l > d->node->size) {
    static const int kinds[] = { F_ENOSPC }; uint64_t prm;
    if (g_full || fault_decide(kinds, 1, &prm) == F_ENOSPC) { g_full = true; errno = ENOSPC; return -1; }
  }
  resize(d->node, l); add_log(d->node, 1, l, 0, 0); return 0;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int unlink(const char *p) { if (!is_sim(p)) return syscall(SYS_unlink, p); Name *n = find(p); if (!n) { errno = ENOENT; return -1; } drop(n); return 0; }
int remove(const char *p) { if (is_sim(p)) return unlink(p); typedef int (*F)(const char *); static F rf = real<F>("remove"); return rf(p); }
int rename(const char *a, const char *b) {
  if (!is_sim(a)) return syscall(SYS_rename, a, b);
  Name *n = find(a); if (!n) { errno = ENOENT; return -1; }
  io_begin();
  n = find(a); if (!n) { errno = ENOENT; return -1; }
  Name *o = find(b); if (o) { drop(o); n = find(a); }
  free(n->path); n->path = strdup(b); return 0;
}
int flock(int fd, int op) { if (!desc(fd)) return syscall(SYS_flock, fd, op); return 0; }
int fsync(int fd) { if (!desc(fd)) return syscall(SYS_fsync, fd); io_begin(); return 0; }
int fdatasync(int fd) { return fsync(fd); }
static int do_fcntl(int fd, int cmd, void *arg) {
  Desc *d = desc(fd);
  if (!d) return syscall(SYS_fcntl, fd, cmd, arg);
  if (cmd == F_GETFL) return d->flags;
  return 0;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
}
