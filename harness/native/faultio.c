/* LD_PRELOAD library: counts the file-changing calls below one directory in a process group, and at a chosen
 * one kills the group (optionally after a part of a write) or lets it fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN, WRITE, RENAME, UNLINK, MKDIR, TRUNC, LINK, NKINDS };
struct shared {
    int armed, mode /* 0 count, 1 kill, 2 fail once, 3 fail from then on */, err;
    long at, frac, n, hit, hit_kind, kinds[NKINDS];
    char log[65536];
    long loglen;
};
static struct shared *S;
static char root[PATH_MAX];
static size_t rootlen;

void fi_setup(const char *dir) {
    if (!S) S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(S, 0, sizeof *S);
    strncpy(root, dir, sizeof root - 1);
    rootlen = strlen(root);
}
void fi_arm(int mode, long at, long frac, int err) {
    S->mode = mode; S->at = at; S->frac = frac; S->err = err;
    __sync_synchronize();
    S->armed = 1;
}
long fi_count(void) { return S->n; }
long fi_hit(void) { return S->hit; }
long fi_kind(int k) { return S->kinds[k]; }
long fi_hit_kind(void) { return S->hit_kind; }
const char *fi_log(void) { return S->log; }

static int below(const char *p) {
    char buf[PATH_MAX];
    if (!S || !S->armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf / 2)) return 0;
        strcat(buf, "/"); strncat(buf, p, sizeof buf / 2 - 2); p = buf;
    }
    return strncmp(p, root, rootlen) == 0;
}
static int fdpath(int fd, char *buf) {
    char l[64]; ssize_t n;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, buf, PATH_MAX - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return 1;
}
/* 0: go on; 1: fail with errno */
static int op(int kind, const char *path, long size, long *part) {
    long i = __sync_add_and_fetch(&S->n, 1), len, at;
    char line[256];
    const char *b = strrchr(path, '/');
    __sync_add_and_fetch(&S->kinds[kind], 1);
    len = snprintf(line, sizeof line, "%c%.100s ", "OWRUMTL"[kind], b ? b + 1 : path);
    at = __sync_fetch_and_add(&S->loglen, len);
    if (at + len < (long)sizeof S->log) memcpy(S->log + at, line, len);
    if (S->mode == 0 || (S->mode == 3 ? i < S->at : i != S->at)) return 0;
    if (S->mode == 3 && kind == UNLINK) return 0;   /* a full disk allows that */
    if (!S->hit) { S->hit = i; S->hit_kind = kind; }
    if (S->mode == 1) {
        if (part) *part = S->frac < size ? S->frac : size;
        return 2;
    }
    if (S->mode == 3 && (kind == RENAME)) return 0;
    errno = S->err;
    return 1;
}
static void die(void) { kill(0, SIGKILL); for (;;) pause(); }

#define REAL(name, ...) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define WR (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)
#define SIMPLE(kind, path, r) do { if (below(path)) { int o = op(kind, path, 0, NULL); if (o == 2) die(); if (o) return r; } } while (0)

#define OPENBODY(call) \
    mode_t m = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap); \
    if (fl & WR) SIMPLE(OPEN, p, -1); \
    return call;
int open(const char *p, int fl, ...) { REAL(open); OPENBODY(real(p, fl, m)) }
int open64(const char *p, int fl, ...) { REAL(open64); OPENBODY(real(p, fl, m)) }
int openat(int d, const char *p, int fl, ...) { REAL(openat); OPENBODY(real(d, p, fl, m)) }
int openat64(int d, const char *p, int fl, ...) { REAL(openat64); OPENBODY(real(d, p, fl, m)) }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    char path[PATH_MAX];
    if (S && S->armed && fdpath(fd, path) && below(path)) {
        long part = 0; int o = op(WRITE, path, n, &part);
        if (o == 2) { if (part) real(fd, b, part); die(); }
        if (o) return -1;
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) {
    REAL(pwrite64);
    char path[PATH_MAX];
    if (S && S->armed && fdpath(fd, path) && below(path)) {
        long part = 0; int o = op(WRITE, path, n, &part);
        if (o == 2) { if (part) real(fd, b, part, at); die(); }
        if (o) return -1;
    }
    return real(fd, b, n, at);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    char path[PATH_MAX];
    if (S && S->armed && fdpath(fd, path) && below(path)) { int o = op(WRITE, path, 0, NULL); if (o == 2) die(); if (o) return -1; }
    return real(fd, v, c);
}
ssize_t sendfile(int o_, int i_, off_t *off, size_t n);
ssize_t sendfile(int fd, int in, off_t *off, size_t n) {
    REAL(sendfile);
    char path[PATH_MAX];
    if (S && S->armed && fdpath(fd, path) && below(path)) { int o = op(WRITE, path, 0, NULL); if (o == 2) die(); if (o) return -1; }
    return real(fd, in, off, n);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    char path[PATH_MAX];
    if (S && S->armed && fdpath(fd, path)) SIMPLE(TRUNC, path, -1);
    return real(fd, n);
}
int rename(const char *a, const char *b) { REAL(rename); SIMPLE(RENAME, b, -1); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); SIMPLE(RENAME, b, -1); return real(d, a, e, b); }
int unlink(const char *p) { REAL(unlink); SIMPLE(UNLINK, p, -1); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); SIMPLE(UNLINK, p, -1); return real(d, p, f); }
int rmdir(const char *p) { REAL(rmdir); SIMPLE(UNLINK, p, -1); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); SIMPLE(MKDIR, p, -1); return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); SIMPLE(MKDIR, p, -1); return real(d, p, m); }
int link(const char *a, const char *b) { REAL(link); SIMPLE(LINK, b, -1); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); SIMPLE(LINK, b, -1); return real(a, b); }
