/* LD_PRELOAD shim: every file operation on paths below a chosen directory is reported to a
 * controller, which decides what happens: g = go, k = die before it, tN = write only N bytes and
 * die, eN = fail with errno N, sN = short write of N bytes (continue).  Activated by
 * vf_start(dir, rfd, wfd) (after fork) or by VF_SHIM_DIR/VF_SHIM_R/VF_SHIM_W in the environment. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int active = 0, rfd = -1, wfd = -1;
static char dir[4096];
static size_t dlen = 0;
static char names[1024][256];
static unsigned char track[1024];

void vf_start(const char *d, int r, int w) {
  strncpy(dir, d, sizeof dir - 1);
  dlen = strlen(dir);
  rfd = r; wfd = w; active = 1;
}
void vf_stop(void) { active = 0; }
__attribute__((constructor)) static void init(void) {
  const char *d = getenv("VF_SHIM_DIR"), *r = getenv("VF_SHIM_R"), *w = getenv("VF_SHIM_W");
  if (d && r && w) vf_start(d, atoi(r), atoi(w));
}
static int below(const char *p, char *out) {
  if (!active || !p) return 0;
  char buf[4096];
  if (p[0] != '/') {
    if (syscall(SYS_getcwd, buf, sizeof buf) < 0) return 0;
    size_t l = strlen(buf);
    snprintf(buf + l, sizeof buf - l, "/%s", p[0] == '.' && p[1] == '/' ? p + 2 : p);
  } else { strncpy(buf, p, sizeof buf - 1); buf[sizeof buf - 1] = 0; }
  if (strncmp(buf, dir, dlen) != 0 || (buf[dlen] != '/' && buf[dlen] != 0)) return 0;
  snprintf(out, 256, "%s", buf + dlen);
  return 1;
}
static void die(void) { syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) ; }
/* returns command letter; *arg its number */
static char ask(const char *op, const char *name, long n, long *arg) {
  char line[700], rep[64];
  int l = snprintf(line, sizeof line, "%s %ld %s\n", op, n, name[0] ? name : "/");
  int o = 0;
  while (o < l) { long k = syscall(SYS_write, wfd, line + o, (size_t)(l - o)); if (k <= 0) die(); o += (int)k; }
  int i = 0;
  for (;;) {
    long k = syscall(SYS_read, rfd, rep + i, 1L);
    if (k <= 0) die();
    if (rep[i] == '\n') break;
    if (i < 60) i++;
  }
  rep[i] = 0;
  *arg = i > 1 ? atol(rep + 1) : 0;
  if (rep[0] == 'k') die();
  return rep[0];
}
#define REAL(f, ret, ...) static ret (*r_##f)(__VA_ARGS__); if (!r_##f) r_##f = dlsym(RTLD_NEXT, #f)

static int do_open(int at, const char *p, int flags, mode_t m) {
  char nm[256];
  int b = (at == AT_FDCWD || (p && p[0] == '/')) && below(p, nm);
  if (b) {
    long a; char op[16];
    snprintf(op, sizeof op, "open%s%s%s%s", (flags & O_ACCMODE) == O_RDONLY ? "R" : "W", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", flags & O_EXCL ? "x" : "");
    char c = ask(op, nm, 0, &a);
    if (c == 'e') { errno = (int)a; return -1; }
  }
  int fd = (int)syscall(SYS_openat, at, p, flags, m);
  if (fd >= 0 && fd < 1024) { track[fd] = (unsigned char)b; if (b) strcpy(names[fd], nm); }
  return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | 020000000)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, m); }
int openat64(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_write(int fd, const void *b, size_t n) {
  if (active && fd >= 0 && fd < 1024 && track[fd]) {
    long a; char c = ask("write", names[fd], (long)n, &a);
    if (c == 't') { if (a > 0) syscall(SYS_write, fd, b, (size_t)a); die(); }
    if (c == 's') return syscall(SYS_write, fd, b, (size_t)a);
    if (c == 'e') { errno = (int)a; return -1; }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t read(int fd, void *b, size_t n) {
  if (active && fd >= 0 && fd < 1024 && track[fd]) { long a; ask("read", names[fd], (long)n, &a); }
  return syscall(SYS_read, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (active && fd >= 0 && fd < 1024 && track[fd]) {
    long a; char c = ask("write", names[fd], (long)n, &a);
    if (c == 't') { if (a > 0) syscall(SYS_pwrite64, fd, b, (size_t)a, o); die(); }
  }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (active && fd >= 0 && fd < 1024 && track[fd]) {
    ssize_t t = 0;
    for (int i = 0; i < n; i++) { ssize_t k = do_write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; }
    return t;
  }
  return syscall(SYS_writev, fd, v, n);
}
int close(int fd) { if (fd >= 0 && fd < 1024) track[fd] = 0; return (int)syscall(SYS_close, fd); }
int dup(int fd) { int k = (int)syscall(SYS_dup, fd); if (k >= 0 && k < 1024 && fd < 1024 && (track[k] = track[fd])) strcpy(names[k], names[fd]); return k; }
static int two(const char *op, const char *a, const char *b, int *err) {
  char na[256], nb[256], nm[600];
  int x = below(a, na), y = below(b, nb);
  if (x || y) {
    snprintf(nm, sizeof nm, "%s -> %s", x ? na : "(outside)", y ? nb : "(outside)");
    long g; char c = ask(op, nm, 0, &g);
    if (c == 'e') { *err = (int)g; return 1; }
  }
  return 0;
}
int rename(const char *a, const char *b) { int e; if (two("rename", a, b, &e)) { errno = e; return -1; } return (int)syscall(SYS_rename, a, b); }
int renameat(int d, const char *a, int f, const char *b) { int e; if (two("rename", a, b, &e)) { errno = e; return -1; } return (int)syscall(SYS_renameat, d, a, f, b); }
int renameat2(int d, const char *a, int f, const char *b, unsigned fl) { int e; if (two("rename", a, b, &e)) { errno = e; return -1; } return (int)syscall(SYS_renameat2, d, a, f, b, fl); }
int link(const char *a, const char *b) { int e; if (two("link", a, b, &e)) { errno = e; return -1; } return (int)syscall(SYS_link, a, b); }
static int one(const char *op, const char *p) { char nm[256]; long a; if (below(p, nm) && ask(op, nm, 0, &a) == 'e') { errno = (int)a; return 1; } return 0; }
int unlink(const char *p) { if (one("unlink", p)) return -1; return (int)syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { if (one("unlink", p)) return -1; return (int)syscall(SYS_unlinkat, d, p, f); }
int remove(const char *p) { if (one("unlink", p)) return -1; int r = (int)syscall(SYS_unlink, p); if (r < 0 && errno == EISDIR) r = (int)syscall(SYS_rmdir, p); return r; }
int mkdir(const char *p, mode_t m) { if (one("mkdir", p)) return -1; return (int)syscall(SYS_mkdir, p, m); }
int truncate(const char *p, off_t n) { if (one("truncate", p)) return -1; return (int)syscall(SYS_truncate, p, n); }
int ftruncate(int fd, off_t n) { if (active && fd >= 0 && fd < 1024 && track[fd]) { long a; ask("truncate", names[fd], (long)n, &a); } return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
static int do_stat(const char *p) { return one("stat", p); }
int stat(const char *p, struct stat *s) { if (do_stat(p)) return -1; return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { if (do_stat(p)) return -1; return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int access(const char *p, int m) { if (do_stat(p)) return -1; return (int)syscall(SYS_access, p, m); }
int flock(int fd, int op) {
  if (active && fd >= 0 && fd < 1024 && track[fd]) {
    long a; ask("flock", names[fd], op, &a);
    if ((op & LOCK_UN) || (op & LOCK_NB)) return (int)syscall(SYS_flock, fd, op);
    while (syscall(SYS_flock, fd, op | LOCK_NB) < 0) { if (errno != EWOULDBLOCK) return -1; ask("wait", names[fd], op, &a); }
    return 0;
  }
  return (int)syscall(SYS_flock, fd, op);
}
/* stdio in C programs: route the stream through the wrappers above */
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t o = 0;
  while (o < n) { ssize_t k = write((int)(long)c, b + o, n - o); if (k <= 0) return o ? (ssize_t)o : 0; o += (size_t)k; }
  return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = lseek64((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return close((int)(long)c); }
static FILE *cfile[64]; static int cfdno[64];
static FILE *wrap(int fd, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(long)fd, mode, io);
  for (int i = 0; f && i < 64; i++) if (!cfile[i] || cfdno[i] == fd) { cfile[i] = f; cfdno[i] = fd; break; }
  return f;
}
int fileno(FILE *f) { for (int i = 0; i < 64; i++) if (f && cfile[i] == f) return cfdno[i]; REAL(fileno, int, FILE *); return r_fileno(f); }
FILE *fdopen(int fd, const char *mode) { if (active && fd >= 0 && fd < 1024 && track[fd]) return wrap(fd, mode); REAL(fdopen, FILE *, int, const char *); return r_fdopen(fd, mode); }
int fsync(int fd) { if (active && fd >= 0 && fd < 1024 && track[fd]) { long a; if (ask("fsync", names[fd], 0, &a) == 'e') { errno = (int)a; return -1; } } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (active && fd >= 0 && fd < 1024 && track[fd]) { long a; if (ask("fsync", names[fd], 0, &a) == 'e') { errno = (int)a; return -1; } } return (int)syscall(SYS_fdatasync, fd); }
static FILE *do_fopen(const char *p, const char *mode, const char *sym) {
  char nm[256];
  if (!below(p, nm)) { FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, sym); return f(p, mode); }
  int plus = strchr(mode, '+') != NULL, fl = 0;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = do_open(AT_FDCWD, p, fl, 0666);
  if (fd < 0) return NULL;
  return wrap(fd, mode);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }
