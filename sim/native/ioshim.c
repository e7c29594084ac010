/* Records every change of files below one directory, as the C library sees it, and makes chosen changes fail.
   Loaded with LD_PRELOAD; does nothing before shim_arm was called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 4096
static char prefix[PATH_MAX];
static int armed = 0;
static char tracked[NFD];
static char *buf = 0;
static size_t used = 0, cap = 0;
static long count = 0, fail_at = -1;
static int fail_errno = 0, fail_sticky = 0, fail_short = 0;
static long failed = 0;

#define REAL(name) static __typeof__(&name) real = 0; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void put(const void *p, size_t n) {
    if (used + n > cap) { cap = (used + n) * 2 + 65536; buf = realloc(buf, cap); if (!buf) abort(); }
    memcpy(buf + used, p, n); used += n;
}
static void rec(char op, int64_t a, int64_t b, const void *d1, size_t n1, const void *d2, size_t n2) {
    int64_t h[5] = {op, a, b, (int64_t)n1, (int64_t)n2};
    put(h, sizeof h); put(d1, n1); put(d2, n2);
}
static int ours(const char *p) { return armed && p && strncmp(p, prefix, strlen(prefix)) == 0; }
static int ourfd(int fd) { return armed && fd >= 0 && fd < NFD && tracked[fd]; }

/* 1 if this change has to fail */
static int due(void) {
    long n = count++;
    if (fail_at < 0) return 0;
    if (n == fail_at || (fail_sticky && n > fail_at)) { failed++; return 1; }
    return 0;
}

void shim_arm(const char *p, long at, int err, int sticky, int sh) {
    strncpy(prefix, p, sizeof prefix - 1); memset(tracked, 0, sizeof tracked);
    used = 0; count = 0; failed = 0; fail_at = at; fail_errno = err; fail_sticky = sticky; fail_short = sh; armed = 1;
}
void shim_disarm(void) { armed = 0; }
long shim_count(void) { return count; }
long shim_failed(void) { return failed; }
const char *shim_log(void) { return buf; }
long shim_log_size(void) { return (long)used; }
void shim_mark(long x) { if (armed) rec('M', x, 0, "", 0, "", 0); }
int shim_present(void) { return 1; }

static int opened(int fd, const char *path, int flags) {
    if (fd >= 0 && fd < NFD) {
        tracked[fd] = 0;
        if (ours(path) && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT))) {
            tracked[fd] = 1; rec('O', fd, flags, path, strlen(path), "", 0);
        }
    }
    return fd;
}
static int changes(const char *path, int flags) { return ours(path) && (flags & (O_CREAT | O_TRUNC)); }

#define OPEN(name, ...) \
    mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    REAL(name); if (changes(path, flags) && due()) { errno = fail_errno; return -1; } \
    return opened(real(__VA_ARGS__, flags, mode), path, flags);
int open(const char *path, int flags, ...) { OPEN(open, path) }
int open64(const char *path, int flags, ...) { OPEN(open64, path) }
int openat(int dir, const char *path, int flags, ...) { OPEN(openat, dir, path) }
int openat64(int dir, const char *path, int flags, ...) { OPEN(openat64, dir, path) }
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    REAL(close);
    if (ourfd(fd)) { tracked[fd] = 0; rec('C', fd, 0, "", 0, "", 0); }
    return real(fd);
}

ssize_t write(int fd, const void *p, size_t n) {
    REAL(write);
    if (!ourfd(fd)) return real(fd, p, n);
    if (due()) {
        if (!fail_short || n < 2) { errno = fail_errno; return -1; }
        n /= 2;
    }
    off_t o = lseek(fd, 0, SEEK_CUR);
    ssize_t r = real(fd, p, n);
    if (r > 0) {
        if (fcntl(fd, F_GETFL) & O_APPEND) o = lseek(fd, 0, SEEK_CUR) - r;
        rec('W', fd, o, p, r, "", 0);
    }
    return r;
}
#define PWRITE(name) \
    REAL(name); if (!ourfd(fd)) return real(fd, p, n, o); \
    if (due()) { if (!fail_short || n < 2) { errno = fail_errno; return -1; } n /= 2; } \
    ssize_t r = real(fd, p, n, o); if (r > 0) rec('W', fd, o, p, r, "", 0); return r;
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { PWRITE(pwrite) }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { PWRITE(pwrite64) }
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (!ourfd(fd)) return real(fd, v, n);
    ssize_t t = 0;
    for (int i = 0; i < n; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
#define TRUNC(name) \
    REAL(name); if (!ourfd(fd)) return real(fd, n); if (due()) { errno = fail_errno; return -1; } \
    int r = real(fd, n); if (r == 0) rec('T', fd, n, "", 0, "", 0); return r;
int ftruncate(int fd, off_t n) { TRUNC(ftruncate) }
int ftruncate64(int fd, off64_t n) { TRUNC(ftruncate64) }
int rename(const char *a, const char *b) {
    REAL(rename); int us = ours(a) || ours(b);
    if (us && due()) { errno = fail_errno; return -1; }
    int r = real(a, b); if (us && r == 0) rec('R', 0, 0, a, strlen(a), b, strlen(b)); return r;
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL(renameat); int us = ours(a) || ours(b);
    if (us && due()) { errno = fail_errno; return -1; }
    int r = real(d, a, e, b); if (us && r == 0) rec('R', 0, 0, a, strlen(a), b, strlen(b)); return r;
}
int link(const char *a, const char *b) {
    REAL(link); int us = ours(a) || ours(b);
    if (us && due()) { errno = fail_errno; return -1; }
    int r = real(a, b); if (us && r == 0) rec('L', 0, 0, a, strlen(a), b, strlen(b)); return r;
}
int unlink(const char *a) {
    REAL(unlink); if (ours(a) && due()) { errno = fail_errno; return -1; }
    int r = real(a); if (ours(a) && r == 0) rec('U', 0, 0, a, strlen(a), "", 0); return r;
}
int unlinkat(int d, const char *a, int f) {
    REAL(unlinkat); if (ours(a) && due()) { errno = fail_errno; return -1; }
    int r = real(d, a, f); if (ours(a) && r == 0) rec('U', 0, 0, a, strlen(a), "", 0); return r;
}
int mkdir(const char *a, mode_t m) {
    REAL(mkdir); if (ours(a) && due()) { errno = fail_errno; return -1; }
    int r = real(a, m); if (ours(a) && r == 0) rec('D', 0, 0, a, strlen(a), "", 0); return r;
}
/* callers fall back to read and write */
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    REAL(sendfile); if (ourfd(out)) { errno = ENOTSOCK; return -1; } return real(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(sendfile64); if (ourfd(out)) { errno = ENOTSOCK; return -1; } return real(out, in, o, n);
}
