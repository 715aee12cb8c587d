/* LD_PRELOAD: a process stops before every file operation below $STEP_DIR, tells the scheduler (fd
   $STEP_OUT) and waits for its decision (fd $STEP_IN): g(o), k(ill), h(alf a write, then killed). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static int in = -1, out = -1;
static const char *dir;
static ssize_t (*rread)(int, void *, size_t);
static ssize_t (*rwrite)(int, const void *, size_t);
__attribute__((constructor)) static void start(void) {
    rread = dlsym(RTLD_NEXT, "read");
    rwrite = dlsym(RTLD_NEXT, "write");
    if (getenv("STEP_IN")) in = atoi(getenv("STEP_IN")), out = atoi(getenv("STEP_OUT")), dir = getenv("STEP_DIR");
}
static int mine(const char *p) { return dir && p && strstr(p, dir) == p; }
static int minefd(int fd) {
    char l[64], b[4096];
    if (!dir || fd == in || fd == out) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    return mine(b);
}
static char stop(const char *what) {
    char c = 'k';
    (void)what;
    if (rwrite(out, "s", 1) != 1 || rread(in, &c, 1) != 1) _exit(9);
    if (c == 'k') _exit(9);
    return c;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
static int half_open(char c, int r) { if (c == 'h') _exit(9); return r; }
#define OPEN(name) int name(const char *p, int fl, ...) { REAL(name); mode_t m = 0; va_list a; va_start(a, fl); if (fl & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
    if (!mine(p)) return real(p, fl, m); char c = stop(#name); return half_open(c, real(p, fl, m)); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { REAL(name); mode_t m = 0; va_list a; va_start(a, fl); if (fl & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
    if (!mine(p)) return real(d, p, fl, m); char c = stop(#name); return half_open(c, real(d, p, fl, m)); }
OPENAT(openat) OPENAT(openat64)
ssize_t read(int fd, void *b, size_t n) { if (minefd(fd)) { char c = stop("read"); if (c == 'h') _exit(9); if (n > 3000) n = 3000; } return rread(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (!minefd(fd)) return rwrite(fd, b, n);
    char c = stop("write");
    if (c == 'h') { rwrite(fd, b, n / 2); _exit(9); }
    if (n > 3000) n = 3000; /* a write may be partial */
    return rwrite(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(writev);
    if (minefd(fd)) { char c = stop("writev"); if (c == 'h') { if (k) rwrite(fd, v[0].iov_base, v[0].iov_len / 2); _exit(9); } }
    return real(fd, v, k);
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (minefd(b)) { char c = stop("copy"); if (c == 'h') { real(a, x, b, y, n / 2, f); _exit(9); } if (n > 3000) n = 3000; }
    return real(a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) {
    REAL(sendfile64);
    if (minefd(o)) { char c = stop("sendfile"); if (c == 'h') { real(o, i, x, n / 2); _exit(9); } if (n > 3000) n = 3000; }
    return real(o, i, x, n);
}
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (minefd(fd)) { char c = stop("ftruncate"); int r = real(fd, n); if (c == 'h') _exit(9); return r; } return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (minefd(fd)) { char c = stop("ftruncate"); int r = real(fd, n); if (c == 'h') _exit(9); return r; } return real(fd, n); }
int rename(const char *a, const char *b) { REAL(rename); if (mine(b)) { char c = stop("rename"); int r = real(a, b); if (c == 'h') _exit(9); return r; } return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (mine(b)) { char c = stop("rename"); int r = real(d, a, e, b); if (c == 'h') _exit(9); return r; } return real(d, a, e, b); }
int unlink(const char *a) { REAL(unlink); if (mine(a)) { char c = stop("unlink"); int r = real(a); if (c == 'h') _exit(9); return r; } return real(a); }
int link(const char *a, const char *b) { REAL(link); if (mine(b)) { char c = stop("link"); int r = real(a, b); if (c == 'h') _exit(9); return r; } return real(a, b); }
int fsync(int fd) { REAL(fsync); if (minefd(fd)) { if (stop("fsync") == 'h') _exit(9); } return real(fd); }
int flock(int fd, int op) { static int (*real)(int, int); if (!real) real = dlsym(RTLD_NEXT, "flock"); if (minefd(fd)) { if (stop("flock") == 'h') _exit(9); } return real(fd, op); }
