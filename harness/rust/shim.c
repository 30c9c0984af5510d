// LD_PRELOAD shim for rust-create-cascade: numbers the file operations it makes below VERIF_ROOT, makes the one numbered
// VERIF_FAULT fail (VERIF_ERRNO), ends the process before the one numbered VERIF_KILL (VERIF_TORN: in the middle of it, when it writes), and lists directories in the order
// given by the permutation number VERIF_ORDER. VERIF_OPS names a file that gets one line per operation.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
static const char *root; static size_t rootlen; static long fault = -1, killat = -1, torn = -1, order, n; static int err = EIO, opsfd = -1, up;
#define FDS 256
static char mine[FDS]; static char name[FDS][200];
static void init(void) {
  if (up) return;
  up = 1;
  root = getenv("VERIF_ROOT"); rootlen = root ? strlen(root) : 0;
  char *s;
  if ((s = getenv("VERIF_FAULT"))) fault = atol(s);
  if ((s = getenv("VERIF_KILL"))) killat = atol(s);
  if ((s = getenv("VERIF_TORN"))) torn = atol(s);
  if ((s = getenv("VERIF_ORDER"))) order = atol(s);
  if ((s = getenv("VERIF_ERRNO"))) err = atoi(s);
  if ((s = getenv("VERIF_OPS"))) opsfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}
static int below(const char *p) { return root && p && !strncmp(p, root, rootlen); }
// 1 when the operation is to fail
static int op(const char *what, const char *on) {
  init();
  long i = n++;
  if (i == killat) { kill(getpid(), SIGKILL); }
  if (opsfd >= 0) { char b[400]; int l = snprintf(b, sizeof b, "%s %s\n", what, on + (below(on) ? rootlen : 0)); syscall(SYS_write, opsfd, b, l); }
  if (i == fault) { errno = err; return 1; }
  return 0;
}
#define REAL(f) static __typeof__(&f) real; if (!real) real = (__typeof__(&f))dlsym(RTLD_NEXT, #f)
static int opened(int fd, const char *p) { if (fd >= 0 && fd < FDS) { mine[fd] = 1; snprintf(name[fd], sizeof name[fd], "%s", p); } return fd; }
static int doopen(const char *p, int fl, int mode) {
  init();
  if (!below(p)) return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  if (op(fl & (O_WRONLY | O_RDWR) ? "create" : "open", p)) return -1;
  return opened(syscall(SYS_openat, AT_FDCWD, p, fl, mode), p);
}
#define MODE int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { MODE return doopen(p, fl, mode); }
int open64(const char *p, int fl, ...) { MODE return doopen(p, fl | O_LARGEFILE, mode); }
ssize_t write(int fd, const void *b, size_t c) {
  if (fd >= 0 && fd < FDS && mine[fd]) {
    if (op("write", name[fd])) return -1;
    if (n - 1 == torn) { syscall(SYS_write, fd, b, c / 2); kill(getpid(), SIGKILL); }
  }
  return syscall(SYS_write, fd, b, c);
}
ssize_t read(int fd, void *b, size_t c) {
  if (fd >= 0 && fd < FDS && mine[fd] && op("read", name[fd])) return -1;
  return syscall(SYS_read, fd, b, c);
}
int close(int fd) { if (fd >= 0 && fd < FDS) mine[fd] = 0; return syscall(SYS_close, fd); }
int mkdir(const char *p, mode_t m) { init(); if (below(p) && op("mkdir", p)) return -1; return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int rename(const char *p, const char *q) { init(); if (below(q) && op("rename", q)) return -1; return syscall(SYS_renameat, AT_FDCWD, p, AT_FDCWD, q); }
int unlink(const char *p) { init(); if (below(p) && op("unlink", p)) return -1; return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rmdir(const char *p) { init(); if (below(p) && op("rmdir", p)) return -1; return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char *p, int fl) { init(); if (root && op("unlinkat", p)) return -1; return syscall(SYS_unlinkat, d, p, fl); }
int statx(int d, const char *__restrict p, int fl, unsigned m, struct statx *__restrict s) {
  init();
  if (below(p) && op("stat", p)) return -1;
  return syscall(SYS_statx, d, p, fl, m, s);
}
// directories: read whole, sorted by name, permuted
#define DIRS 32
static struct { DIR *d; struct dirent64 *e; int n, at; char path[200]; } dirs[DIRS];
static int cmp(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
DIR *opendir(const char *p) {
  REAL(opendir);
  init();
  if (below(p) && op("opendir", p)) return NULL;
  DIR *d = real(p);
  if (!d || !below(p)) return d;
  static struct dirent64 *(*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
  struct dirent64 *e, *v = calloc(64, sizeof *v), *o = calloc(64, sizeof *v); int k = 0;
  while (k < 64 && (e = rd(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) memcpy(&v[k++], e, sizeof *e);
  qsort(v, k, sizeof *v, cmp);
  long q = order;
  for (int i = 0, left = k; left; i++, left--) { int j = q % left; q /= left; o[i] = v[j]; memmove(&v[j], &v[j + 1], (left - j - 1) * sizeof *v); }
  free(v);
  for (int i = 0; i < DIRS; i++) if (!dirs[i].d) { dirs[i].d = d; dirs[i].e = o; dirs[i].n = k; dirs[i].at = 0; snprintf(dirs[i].path, 200, "%s", p); break; }
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64);
  for (int i = 0; i < DIRS; i++) if (d && dirs[i].d == d) {
    if (op("readdir", dirs[i].path)) return NULL;
    return dirs[i].at < dirs[i].n ? &dirs[i].e[dirs[i].at++] : NULL;
  }
  return real(d);
}
int closedir(DIR *d) {
  REAL(closedir);
  for (int i = 0; i < DIRS; i++) if (d && dirs[i].d == d) { dirs[i].d = NULL; free(dirs[i].e); }
  return real(d);
}
