/* System-call seam for file I/O under one directory.
 *
 * Preloaded into the simulator process.  Calls on files below the armed
 * directory are numbered, logged (with their data) and may be failed,
 * shortened or turned into the death of the process.  Everything else, and
 * everything while disarmed, goes straight to libc.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 64
enum { ERR = 1, SHORT = 2, CRASH_BEFORE = 3, CRASH_AFTER = 4, CRASH_MID = 5 };
typedef struct { int at, act; long arg; int fired; } fault_t;

static char prefix[1024];
static size_t plen;
static int logfd = -1, armed, nops, nreads;
static long capacity = -1, used;
static fault_t plan[MAXPLAN];
static int nplan;
static char tracked[MAXFD];
static int fired_n;
static char fired_log[8192];

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

static void emit(const char *op, int fd, uint64_t ino, long off, long res, const char *p1, const char *p2, const void *data, size_t n) {
    char h[3000];
    int k = snprintf(h, sizeof h, "%s\t%d\t%llu\t%ld\t%ld\t%zu\t%s\t%s\n", op, fd, (unsigned long long)ino, off, res, n, p1 ? p1 : "", p2 ? p2 : "");
    if (logfd < 0) return;
    raw_write(logfd, h, k);
    if (n) raw_write(logfd, data, n);
    raw_write(logfd, "\n", 1);
}

static void note(const char *op, int idx, fault_t *f) {
    char b[128];
    snprintf(b, sizeof b, "%s@%d:%d:%ld;", op, idx, f->act, f->arg);
    if (strlen(fired_log) + strlen(b) < sizeof fired_log) strcat(fired_log, b);
    f->fired = 1;
    fired_n++;
    emit("fault", idx, f->act, f->arg, 0, op, 0, 0, 0);
}

static void die(void) { syscall(SYS_exit_group, 77); }

static int absolute(const char *p, char *out, size_t n, int dirfd) {
    if (!p) return 0;
    if (p[0] == '/') snprintf(out, n, "%s", p);
    else {
        char cwd[1024];
        if (dirfd != AT_FDCWD) {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t k = readlink(l, cwd, sizeof cwd - 1);
            if (k < 0) return 0;
            cwd[k] = 0;
        } else if (!getcwd(cwd, sizeof cwd)) return 0;
        while (p[0] == '.' && p[1] == '/') p += 2;
        if (!strcmp(p, ".") || !*p) snprintf(out, n, "%s", cwd);
        else snprintf(out, n, "%s/%s", cwd, p);
    }
    return plen && !strncmp(out, prefix, plen) && (out[plen] == '/' || out[plen] == 0);
}

static uint64_t inode(int fd) { struct stat s; return fstat(fd, &s) ? 0 : s.st_ino; }

static fault_t *step(const char *op, int *idx) {
    *idx = nops++;
    for (int i = 0; i < nplan; i++)
        if (plan[i].at == *idx && !plan[i].fired) {
            fault_t *f = &plan[i];
            note(op, *idx, f);
            if (f->act == CRASH_BEFORE) die();
            return f;
        }
    return 0;
}
static void after(fault_t *f) { if (f && (f->act == CRASH_AFTER || f->act == CRASH_MID)) die(); }

/* control interface, called through ctypes */
void disk_arm(const char *dir, int log) { snprintf(prefix, sizeof prefix, "%s", dir); plen = strlen(prefix); logfd = log; nops = nreads = 0; nplan = 0; fired_n = 0; fired_log[0] = 0; capacity = -1; used = 0; memset(tracked, 0, sizeof tracked); armed = 1; }
void disk_disarm(void) { armed = 0; }
void disk_fault(int at, int act, long arg) { if (nplan < MAXPLAN) { plan[nplan].at = at; plan[nplan].act = act; plan[nplan].arg = arg; plan[nplan].fired = 0; nplan++; } }
void disk_clear(void) { nplan = 0; capacity = -1; }
void disk_capacity(long c) { capacity = c; used = 0; }
int disk_ops(void) { return nops; }
const char *disk_fired(void) { return fired_log; }
void disk_mark(const char *text) { emit("mark", 0, 0, 0, 0, text, 0, 0, 0); }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

static int do_open(int dirfd, const char *path, int flags, int mode, int at) {
    char ab[2048];
    int mine = armed && absolute(path, ab, sizeof ab, dirfd), idx;
    fault_t *f = 0;
    int existed = 0;
    if (mine) {
        struct stat s;
        existed = !stat(ab, &s);
        f = step("open", &idx);
        if (f && f->act == ERR) { errno = f->arg; return -1; }
        if (capacity == 0 && (flags & O_CREAT) && !existed) { fired_n++; emit("fault", idx, 9, 0, 0, "enospc", 0, 0, 0); errno = ENOSPC; return -1; }
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (mine && fd >= 0) {
        if (fd < MAXFD) tracked[fd] = 1;
        emit("open", fd, inode(fd), flags, existed, ab, 0, 0, 0);
        int e = errno;
        after(f);
        errno = e;
    }
    return fd;
}
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode, 0); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode, 0); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode, 1); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode, 1); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }

#define MINE(fd) (armed && (fd) >= 0 && (fd) < MAXFD && tracked[fd])

static ssize_t do_write(int fd, const void *buf, size_t n, off64_t off, int positional) {
    if (!MINE(fd)) return positional ? syscall(SYS_pwrite64, fd, buf, n, off) : raw_write(fd, buf, n);
    int idx;
    fault_t *f = step("write", &idx);
    if (f && f->act == ERR) { errno = f->arg; return -1; }
    size_t want = n;
    if (f && (f->act == SHORT || f->act == CRASH_MID) && n > 1) { want = f->arg % (long)n; if (!want && f->act == SHORT) want = 1; }
    if (capacity >= 0) {
        if (used >= capacity) { fired_n++; emit("fault", idx, 9, 0, 0, "enospc", 0, 0, 0); errno = ENOSPC; return -1; }
        if (used + (long)want > capacity) { want = capacity - used; emit("fault", idx, 9, 0, 0, "enospc-short", 0, 0, 0); }
    }
    struct stat s;
    int fl = fcntl(fd, F_GETFL);
    off64_t at = positional ? off : (fl & O_APPEND) ? (fstat(fd, &s), s.st_size) : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    ssize_t r = positional ? syscall(SYS_pwrite64, fd, buf, want, off) : raw_write(fd, buf, want);
    if (r > 0) { used += r; emit("write", fd, inode(fd), at, r, 0, 0, buf, r); }
    int e = errno;
    after(f);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!MINE(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
/* no in-kernel copies of tracked files: callers fall back to read and write */
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { if (MINE(o) || MINE(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, p, n); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { return sendfile64(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned fl) { if (MINE(o) || MINE(i)) { errno = EXDEV; return -1; } return syscall(SYS_copy_file_range, i, a, o, b, n, fl); }

ssize_t read(int fd, void *buf, size_t n) {
    if (!MINE(fd)) return syscall(SYS_read, fd, buf, n);
    int idx;
    fault_t *f = step("read", &idx);
    if (f && f->act == ERR) { errno = f->arg; return -1; }
    if (f && f->act == SHORT && n > 1) { n = f->arg % (long)n; if (!n) n = 1; }
    ssize_t r = syscall(SYS_read, fd, buf, n);
    int e = errno;
    emit("read", fd, 0, 0, r, 0, 0, 0, 0);
    after(f);
    errno = e;
    return r;
}

static int do_sync(int fd, long nr) {
    if (!MINE(fd)) return syscall(nr, fd);
    int idx;
    fault_t *f = step("fsync", &idx);
    if (f && f->act == ERR) { if (f->arg != EINTR) emit("fsyncfail", fd, inode(fd), 0, -1, 0, 0, 0, 0); errno = f->arg; return -1; }
    /* the simulated disk decides what survives: no need to flush the real one */
    emit("fsync", fd, inode(fd), 0, 0, 0, 0, 0, 0);
    after(f);
    return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
void sync(void) { if (armed) emit("sync", 0, 0, 0, 0, 0, 0, 0, 0); }

int close(int fd) {
    if (!MINE(fd)) return syscall(SYS_close, fd);
    int idx;
    fault_t *f = step("close", &idx);
    uint64_t ino = inode(fd);
    tracked[fd] = 0;
    int r = syscall(SYS_close, fd);
    emit("close", fd, ino, 0, r, 0, 0, 0, 0);
    after(f);
    if (f && f->act == ERR) { errno = f->arg; return -1; }
    return r;
}

static int do_trunc(int fd, off64_t n) {
    if (!MINE(fd)) return syscall(SYS_ftruncate, fd, n);
    int idx;
    fault_t *f = step("ftruncate", &idx);
    if (f && f->act == ERR) { errno = f->arg; return -1; }
    int r = syscall(SYS_ftruncate, fd, n);
    emit("ftruncate", fd, inode(fd), n, r, 0, 0, 0, 0);
    after(f);
    return r;
}
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }

static int do_rename(int d1, const char *a, int d2, const char *b) {
    char pa[2048], pb[2048];
    int m1 = armed && absolute(a, pa, sizeof pa, d1), m2 = armed && absolute(b, pb, sizeof pb, d2);
    if (!m1 && !m2) return syscall(SYS_renameat, d1, a, d2, b);
    int idx;
    fault_t *f = step("rename", &idx);
    if (f && f->act == ERR) { errno = f->arg; return -1; }
    int r = syscall(SYS_renameat, d1, a, d2, b);
    if (!r) emit("rename", 0, 0, 0, m1 ? 0 : 1, pa, pb, 0, 0);
    int e = errno;
    after(f);
    errno = e;
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }

static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
    char pa[2048], pb[2048];
    int m1 = armed && absolute(a, pa, sizeof pa, d1), m2 = armed && absolute(b, pb, sizeof pb, d2);
    if (!m1 && !m2) return syscall(SYS_linkat, d1, a, d2, b, fl);
    int idx;
    fault_t *f = step("link", &idx);
    if (f && f->act == ERR) { errno = f->arg; return -1; }
    int r = syscall(SYS_linkat, d1, a, d2, b, fl);
    if (!r) emit("link", 0, 0, 0, 0, pa, pb, 0, 0);
    int e = errno;
    after(f);
    errno = e;
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl); }

static int do_unlink(int d, const char *p, int fl) {
    char ab[2048];
    if (!(armed && absolute(p, ab, sizeof ab, d))) return syscall(SYS_unlinkat, d, p, fl);
    int idx;
    fault_t *f = step("unlink", &idx);
    if (f && f->act == ERR) { errno = f->arg; return -1; }
    int r = syscall(SYS_unlinkat, d, p, fl);
    if (!r) emit("unlink", 0, 0, fl, 0, ab, 0, 0, 0);
    int e = errno;
    after(f);
    errno = e;
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0); }

int dup(int fd) { int r = syscall(SYS_dup, fd); if (MINE(fd) && r >= 0 && r < MAXFD) tracked[r] = 1; return r; }
