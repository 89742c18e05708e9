/* Disk seam: LD_PRELOAD shim that makes every libc file operation below a scratch prefix visible to the simulator,
 * which may fail it, shorten it, or end the process before, inside or after it.  Inactive until ds_arm().
 * Operations are numbered 0,1,2,... in two classes: mutating (class 0) and reading (class 1). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_FSYNC, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_LINK, OP_TRUNC, OP_CHMOD, OP_MKDIR,
       OP_RMDIR, OP_SYMLINK, OP_OPENR, OP_READ };
enum { ACT_ERRNO = 1, ACT_SHORT, ACT_CRASH_BEFORE, ACT_CRASH_MID, ACT_CRASH_AFTER };
#define CRASH_CODE 77
#define MAXF 64
#define MAXFD 1024

struct fault { int cls, k, action, val, sticky; };
static struct fault faults[MAXF];
static int nfaults, armed, logfd = -1;
static int counts[2];
static int fired[16];
static char prefix[PATH_MAX];
static size_t prefixlen;
static unsigned char tracked[MAXFD]; /* 1: reading, 2: writing */

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

struct rec { uint8_t type; uint8_t pad[3]; int32_t fd, flags, result, err; int64_t off; uint32_t p1, p2, dlen, k; };

static void logrec(int type, int fd, int flags, long result, int64_t off, const char *p1, const char *p2,
                   const void *data, size_t dlen, int k)
{
    if (logfd < 0) return;
    struct rec r;
    memset(&r, 0, sizeof r);
    r.type = type; r.fd = fd; r.flags = flags; r.result = (int32_t)result; r.err = errno; r.off = off;
    r.p1 = p1 ? strlen(p1) : 0; r.p2 = p2 ? strlen(p2) : 0; r.dlen = dlen; r.k = k;
    int e = errno;
    raw_write(logfd, &r, sizeof r);
    if (r.p1) raw_write(logfd, p1, r.p1);
    if (r.p2) raw_write(logfd, p2, r.p2);
    size_t done = 0;
    while (done < dlen) { long w = raw_write(logfd, (const char *)data + done, dlen - done); if (w <= 0) break; done += w; }
    errno = e;
}

static void crash(void) { syscall(SYS_exit_group, CRASH_CODE); __builtin_unreachable(); }

static struct fault *find(int cls, int k, int type)
{
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (f->cls != cls) continue;
        if (f->k == k) return f;
        if (f->sticky && k > f->k && (type == OP_OPEN || type == OP_WRITE || type == OP_READ || type == OP_TRUNC)) return f;
    }
    return NULL;
}

static int under(int dirfd, const char *path, char *out)
{
    if (!armed || !path) return 0;
    char buf[PATH_MAX * 2];
    if (path[0] == '/') snprintf(buf, sizeof buf, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            long n = syscall(SYS_readlink, l, cwd, sizeof cwd - 1); if (n < 0) return 0; cwd[n] = 0;
        }
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
    }
    /* normalise ./ and // (no .. handling: the harness does not use it) */
    char *o = out; const char *s = buf;
    while (*s && o - out < PATH_MAX - 2) {
        if (s[0] == '/' && s[1] == '/') { s++; continue; }
        if (s[0] == '/' && s[1] == '.' && (s[2] == '/' || s[2] == 0)) { s += 2; continue; }
        *o++ = *s++;
    }
    *o = 0;
    return strncmp(out, prefix, prefixlen) == 0 && (out[prefixlen] == '/' || out[prefixlen] == 0);
}

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* returns 1 if the operation must fail with errno already set */
static int pre(int cls, int type, int *k, struct fault **f)
{
    *k = counts[cls]++;
    *f = find(cls, *k, type);
    if (!*f) return 0;
    if ((*f)->action == ACT_CRASH_BEFORE) { fired[ACT_CRASH_BEFORE]++; crash(); }
    if ((*f)->action == ACT_ERRNO) { fired[ACT_ERRNO]++; errno = (*f)->val; return 1; }
    return 0;
}
static void post(struct fault *f)
{
    if (f && (f->action == ACT_CRASH_AFTER || f->action == ACT_CRASH_MID)) { fired[f->action]++; crash(); }
}

/* ---- API ---- */
void ds_arm(const char *p, int lfd)
{
    snprintf(prefix, sizeof prefix, "%s", p); prefixlen = strlen(prefix);
    logfd = lfd; counts[0] = counts[1] = 0; memset(tracked, 0, sizeof tracked); memset(fired, 0, sizeof fired);
    nfaults = 0; armed = 1;
}
void ds_disarm(void) { armed = 0; nfaults = 0; logfd = -1; }
void ds_reset(void) { nfaults = 0; counts[0] = counts[1] = 0; memset(fired, 0, sizeof fired); }
int ds_fault(int cls, int k, int action, int val, int sticky)
{
    if (nfaults >= MAXF) return -1;
    faults[nfaults++] = (struct fault){cls, k, action, val, sticky};
    return 0;
}
void ds_clear(void) { nfaults = 0; }
int ds_count(int cls) { return counts[cls]; }
int ds_fired(int action) { return fired[action]; }

/* ---- operations ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    REAL(int, openat, int, const char *, int, ...);
    char abs[PATH_MAX];
    if (!under(dirfd, path, abs)) return real_openat(dirfd, path, flags, mode);
    int mut = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
    int k; struct fault *f;
    if (pre(mut ? 0 : 1, mut ? OP_OPEN : OP_OPENR, &k, &f)) {
        logrec(mut ? OP_OPEN : OP_OPENR, -1, flags, -1, 0, abs, NULL, NULL, 0, k); return -1;
    }
    int fd = real_openat(dirfd, path, flags, mode);
    logrec(mut ? OP_OPEN : OP_OPENR, fd, flags, fd, 0, abs, NULL, NULL, 0, k);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = mut ? 2 : 1;
    post(f);
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static int is_tracked(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int positional)
{
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    if (!is_tracked(fd)) return positional ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
    int64_t at = off;
    if (!positional) {
        int fl = fcntl(fd, F_GETFL);
        if (fl & O_APPEND) { struct stat st; fstat(fd, &st); at = st.st_size; }
        else at = lseek(fd, 0, SEEK_CUR);
    }
    int k; struct fault *f;
    if (pre(0, OP_WRITE, &k, &f)) { logrec(OP_WRITE, fd, 0, -1, at, NULL, NULL, NULL, 0, k); return -1; }
    size_t m = n;
    if (f && (f->action == ACT_SHORT || f->action == ACT_CRASH_MID) && n > 1) {
        m = (size_t)f->val % n; if (m == 0 && f->action == ACT_SHORT) m = 1;
        if (f->action == ACT_SHORT) fired[ACT_SHORT]++;
    }
    ssize_t r = positional ? real_pwrite64(fd, b, m, off) : real_write(fd, b, m);
    logrec(OP_WRITE, fd, 0, r, at, NULL, NULL, b, r > 0 ? r : 0, k);
    post(f);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return do_write(fd, b, n, off, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return do_write(fd, b, n, off, 1); }
ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!is_tracked(fd)) return real_writev(fd, iov, cnt);
    ssize_t tot = 0;
    for (int i = 0; i < cnt; i++) {
        ssize_t r = do_write(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < iov[i].iov_len) break;
    }
    return tot;
}

static ssize_t do_read(int fd, void *b, size_t n, off_t off, int positional)
{
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread64, int, void *, size_t, off_t);
    if (!is_tracked(fd)) return positional ? real_pread64(fd, b, n, off) : real_read(fd, b, n);
    int k; struct fault *f;
    if (pre(1, OP_READ, &k, &f)) { logrec(OP_READ, fd, 0, -1, 0, NULL, NULL, NULL, 0, k); return -1; }
    size_t m = n;
    if (f && f->action == ACT_SHORT && n > 1) { m = (size_t)f->val % n; if (m == 0) m = 1; fired[ACT_SHORT]++; }
    ssize_t r = positional ? real_pread64(fd, b, m, off) : real_read(fd, b, m);
    logrec(OP_READ, fd, 0, r, 0, NULL, NULL, NULL, 0, k);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t off) { return do_read(fd, b, n, off, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return do_read(fd, b, n, off, 1); }
ssize_t readv(int fd, const struct iovec *iov, int cnt)
{
    REAL(ssize_t, readv, int, const struct iovec *, int);
    if (!is_tracked(fd)) return real_readv(fd, iov, cnt);
    return cnt ? do_read(fd, iov[0].iov_base, iov[0].iov_len, 0, 0) : 0;
}

static int do_sync(int fd, int data)
{
    REAL(int, fsync, int);
    if (!is_tracked(fd)) return real_fsync(fd);
    (void)data;
    int k; struct fault *f;
    if (pre(0, OP_FSYNC, &k, &f)) { logrec(OP_FSYNC, fd, 0, -1, 0, NULL, NULL, NULL, 0, k); return -1; }
    logrec(OP_FSYNC, fd, 0, 0, 0, NULL, NULL, NULL, 0, k); /* the simulated disk: nothing to wait for */
    post(f);
    return 0;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }

int close(int fd)
{
    REAL(int, close, int);
    if (!is_tracked(fd)) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return real_close(fd); }
    int was = tracked[fd]; tracked[fd] = 0;
    if (was == 1) return real_close(fd);
    int k; struct fault *f;
    int bad = pre(0, OP_CLOSE, &k, &f), e = errno;
    int r = real_close(fd);
    if (bad) { errno = e; r = -1; }
    logrec(OP_CLOSE, fd, 0, r, 0, NULL, NULL, NULL, 0, k);
    post(f);
    return r;
}

#define TWO(name, type, d1, p1, d2, p2, realcall, flags) \
    char a1[PATH_MAX], a2[PATH_MAX]; \
    int u1 = under(d1, p1, a1), u2 = under(d2, p2, a2); \
    if (!u1 && !u2) return realcall; \
    int k; struct fault *f; \
    if (pre(0, type, &k, &f)) { logrec(type, -1, flags, -1, 0, a1, a2, NULL, 0, k); return -1; } \
    int r = realcall; \
    logrec(type, -1, flags, r, 0, a1, a2, NULL, 0, k); \
    post(f); return r;

int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); TWO(rename, OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, real_rename(a, b), 0) }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(int, renameat, int, const char *, int, const char *); TWO(renameat, OP_RENAME, d1, a, d2, b, real_renameat(d1, a, d2, b), 0) }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); TWO(renameat2, OP_RENAME, d1, a, d2, b, real_renameat2(d1, a, d2, b, fl), fl) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); TWO(link, OP_LINK, AT_FDCWD, a, AT_FDCWD, b, real_link(a, b), 0) }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { REAL(int, linkat, int, const char *, int, const char *, int); TWO(linkat, OP_LINK, d1, a, d2, b, real_linkat(d1, a, d2, b, fl), fl) }

#define ONE(type, d, p, realcall, fl) \
    char a1[PATH_MAX]; \
    if (!under(d, p, a1)) return realcall; \
    int k; struct fault *f; \
    if (pre(0, type, &k, &f)) { logrec(type, -1, fl, -1, 0, a1, NULL, NULL, 0, k); return -1; } \
    int r = realcall; \
    logrec(type, -1, fl, r, 0, a1, NULL, NULL, 0, k); \
    post(f); return r;

int unlink(const char *p) { REAL(int, unlink, const char *); ONE(OP_UNLINK, AT_FDCWD, p, real_unlink(p), 0) }
int unlinkat(int d, const char *p, int fl) { REAL(int, unlinkat, int, const char *, int); ONE(OP_UNLINK, d, p, real_unlinkat(d, p, fl), fl) }
int remove(const char *p) { REAL(int, remove, const char *); ONE(OP_UNLINK, AT_FDCWD, p, real_remove(p), 0) }
int rmdir(const char *p) { REAL(int, rmdir, const char *); ONE(OP_RMDIR, AT_FDCWD, p, real_rmdir(p), 0) }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); ONE(OP_MKDIR, AT_FDCWD, p, real_mkdir(p, m), 0) }
int chmod(const char *p, mode_t m) { REAL(int, chmod, const char *, mode_t); ONE(OP_CHMOD, AT_FDCWD, p, real_chmod(p, m), 0) }
int fchmodat(int d, const char *p, mode_t m, int fl) { REAL(int, fchmodat, int, const char *, mode_t, int); ONE(OP_CHMOD, d, p, real_fchmodat(d, p, m, fl), 0) }
int truncate(const char *p, off_t n) { REAL(int, truncate, const char *, off_t); char a1[PATH_MAX]; if (!under(AT_FDCWD, p, a1)) return real_truncate(p, n);
    int k; struct fault *f; if (pre(0, OP_TRUNC, &k, &f)) { logrec(OP_TRUNC, -1, 0, -1, n, a1, NULL, NULL, 0, k); return -1; }
    int r = real_truncate(p, n); logrec(OP_TRUNC, -1, 0, r, n, a1, NULL, NULL, 0, k); post(f); return r; }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
static int do_ftruncate(int fd, off_t n)
{
    REAL(int, ftruncate64, int, off64_t);
    if (!is_tracked(fd)) return real_ftruncate64(fd, n);
    int k; struct fault *f;
    if (pre(0, OP_TRUNC, &k, &f)) { logrec(OP_TRUNC, fd, 0, -1, n, NULL, NULL, NULL, 0, k); return -1; }
    int r = real_ftruncate64(fd, n); logrec(OP_TRUNC, fd, 0, r, n, NULL, NULL, NULL, 0, k); post(f); return r;
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftruncate(fd, n); }
int symlink(const char *t, const char *p) { REAL(int, symlink, const char *, const char *); ONE(OP_SYMLINK, AT_FDCWD, p, real_symlink(t, p), 0) }

/* in-kernel copies would bypass the write seam: refuse them, so that callers fall back to read/write */
ssize_t sendfile(int out, int in, off_t *off, size_t n) { REAL(ssize_t, sendfile, int, int, off_t *, size_t); if (is_tracked(out) || is_tracked(in)) { errno = ENOTSOCK; return -1; } return real_sendfile(out, in, off, n); }
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if (is_tracked(out) || is_tracked(in)) { errno = ENOTSOCK; return -1; } return real_sendfile64(out, in, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (is_tracked(o) || is_tracked(i)) { errno = EXDEV; return -1; } return real_copy_file_range(i, oi, o, oo, n, fl); }
