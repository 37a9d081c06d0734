/* Storage seam for the generator: preloaded into the interpreter, inert until dst_arm() is called in a forked child.
 *
 * Counts every operation that changes a file or directory below one root and, at chosen operations, fails it, shortens it,
 * or ends the process before, in the middle of or after it.  All state is per process.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { F_NONE, F_ERR, F_SHORT, F_CRASH_BEFORE, F_CRASH_MID, F_CRASH_AFTER, F_STICKY };
static char root[512];
static size_t rootlen;
static int armed, nf, reads;
static struct { long at; int kind, err, fired; } fl[16];
static long count;
static int sticky;
static char *logbuf;
static size_t loglen, logcap;

static void logop(const char *op, const char *path, long n, const char *what)
{
    char b[700];
    int k = snprintf(b, sizeof b, "%ld %s %s %ld %s\n", count, op, path + rootlen, n, what);
    if (k < 0) return;
    if (k >= (int)sizeof b) k = sizeof b - 1;
    if (loglen + k >= logcap) {
        logcap = 2 * logcap + 65536;
        logbuf = realloc(logbuf, logcap);
    }
    memcpy(logbuf + loglen, b, k);
    loglen += k;
}

void dst_arm(const char *r, int n, const long *at, const int *kind, const int *err)
{
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    nf = n > 16 ? 16 : n;
    for (int i = 0; i < nf; i++) { fl[i].at = at[i]; fl[i].kind = kind[i]; fl[i].err = err[i]; fl[i].fired = 0; }
    count = 0;
    sticky = 0;
    loglen = 0;
    armed = 1;
}
void dst_disarm(void) { armed = 0; reads = 0; }
void dst_reads(int on) { reads = on; }   /* count operations that read, too */
long dst_count(void) { return count; }
long dst_fired(int i) { return fl[i].fired; }
const char *dst_log(void) { if (!logbuf) return ""; logbuf[loglen] = 0; return logbuf; }

static int below(const char *p)
{
    char a[1024];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(a, 500)) return 0;
        strcat(a, "/");
        strncat(a, p, 500);
        p = a;
    }
    return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}
static int fdpath(int fd, char *b, size_t n)
{
    char l[64];
    if (!armed) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = syscall(SYS_readlink, l, b, n - 1);
    if (k <= 0) return 0;
    b[k] = 0;
    return below(b);
}
static void die(void) { syscall(SYS_exit_group, 77); }

/* What happens to the next operation.  Returns the fault kind; errors set errno. */
static int next(const char *op, const char *path, long n, int space, int is_write)
{
    count++;
    for (int i = 0; i < nf; i++) {
        if (fl[i].at != count || fl[i].fired) continue;
        int k = fl[i].kind;
        if (k == F_SHORT && (!is_write || n < 2)) { fl[i].at++; continue; }   /* applies to the next write */
        if (k == F_CRASH_MID && (!is_write || n < 2)) k = F_CRASH_BEFORE;
        if (fl[i].err == EINTR && k == F_ERR && !strcmp(op, "close")) { fl[i].at++; continue; }
        fl[i].fired++;
        if (k == F_STICKY) { sticky = fl[i].err; break; }
        logop(op, path, n, k == F_ERR ? (fl[i].err == EINTR && (!strcmp(op, "read") || !strcmp(op, "openr")) ? "eintr" : "error") : k == F_SHORT ? "short" : "crash");
        if (k == F_CRASH_BEFORE) die();
        if (k == F_ERR) { errno = fl[i].err; return F_ERR; }
        return k;
    }
    if (sticky && space) { logop(op, path, n, "error"); errno = sticky; return F_ERR; }
    logop(op, path, n, "ok");
    return F_NONE;
}
static void after(int k) { if (k == F_CRASH_AFTER) die(); }

/* ---------------------------------------------------------------- opens */
static int do_open(int dir, const char *p, int fl_, mode_t m)
{
    if ((fl_ & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && below(p)) {
        char a[1100];
        strncpy(a, p, sizeof a - 1);
        a[sizeof a - 1] = 0;
        int k = next("open", p[0] == '/' ? a : root, fl_, !!(fl_ & O_CREAT), 0);
        if (k == F_ERR) return -1;
        int r = syscall(SYS_openat, dir, p, fl_, m);
        int e = errno;
        after(k);
        errno = e;
        return r;
    }
    if (reads && below(p) && next("openr", p[0] == '/' ? p : root, fl_, 0, 0) == F_ERR) return -1;
    return syscall(SYS_openat, dir, p, fl_, m);
}
static ssize_t faulty_read(int fd, void *b, size_t n, off64_t off, int pos)
{
    char path[1024];
    if (reads && n && fdpath(fd, path, sizeof path)) {
        int k = next("read", path, n, 0, 1);
        if (k == F_ERR) return -1;
        if (k == F_SHORT) n = n > 64 ? 1 + (n * 2654435761u + count * 40503u) % 61 : 1;
    }
    return pos ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return faulty_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return faulty_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return faulty_read(fd, b, n, o, 1); }
#define MODE mode_t m = 0; if (f & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, f); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f | O_LARGEFILE, m); }
int openat(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return do_open(d, p, f | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

/* ---------------------------------------------------------------- writes */
static ssize_t faulty_write(int fd, const void *b, size_t n, off64_t off, int pos)
{
    char path[1024];
    int k = F_NONE;
    size_t m = n;
    if (fdpath(fd, path, sizeof path)) {
        k = next("write", path, n, 1, 1);
        if (k == F_ERR) return -1;
        if (k == F_SHORT || k == F_CRASH_MID) m = n / 2;
    }
    ssize_t r = pos ? syscall(SYS_pwrite64, fd, b, m, off) : syscall(SYS_write, fd, b, m);
    if (k == F_CRASH_MID || k == F_CRASH_AFTER) die();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return faulty_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return faulty_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return faulty_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    char path[1024];
    if (!fdpath(fd, path, sizeof path)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = faulty_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n)
{
    char path[1024];
    if (fdpath(out, path, sizeof path)) { errno = EINVAL; return -1; }   /* callers fall back to write */
    return syscall(SYS_sendfile, out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f)
{
    char path[1024];
    if (fdpath(out, path, sizeof path)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
}
int close(int fd)
{
    char path[1024];
    int fg = armed ? fcntl(fd, F_GETFL) : 0;
    if (armed && fg >= 0 && (fg & O_ACCMODE) != O_RDONLY && fdpath(fd, path, sizeof path)) {
        int k = next("close", path, 0, 0, 0);
        int e = errno;
        int r = syscall(SYS_close, fd);
        after(k);
        if (k == F_ERR) { errno = e; return -1; }
        return r;
    }
    return syscall(SYS_close, fd);
}

/* ---------------------------------------------------------------- stdio on such a file (ndarray.tofile) */
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    size_t t = 0;
    while (t < n) {
        ssize_t r = write((int)(long)c, b + t, n - t);
        if (r < 0) return t;  /* stdio takes anything less than n as an error */
        if (r == 0) break;
        t += r;
    }
    return t;
}
static int ck_seek(void *c, off64_t *o, int w)
{
    off64_t r = syscall(SYS_lseek, (int)(long)c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) { return close((int)(long)c); }
FILE *fdopen(int fd, const char *mode)
{
    static FILE *(*real)(int, const char *);
    if (!real) real = dlsym(RTLD_NEXT, "fdopen");
    char path[1024];
    if (!fdpath(fd, path, sizeof path)) return real(fd, mode);
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    return fopencookie((void *)(long)fd, mode, io);
}

/* ---------------------------------------------------------------- names */
#define NAME(op, p, space, call)                     \
    if (!below(p)) return call;                      \
    int k = next(op, p[0] == '/' ? p : root, 0, space, 0); \
    if (k == F_ERR) return -1;                       \
    int r = call, e = errno;                         \
    after(k);                                        \
    errno = e;                                       \
    return r;
int mkdir(const char *p, mode_t m) { NAME("mkdir", p, 1, syscall(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { NAME("mkdir", p, 1, syscall(SYS_mkdirat, d, p, m)) }
int rmdir(const char *p) { NAME("rmdir", p, 0, syscall(SYS_rmdir, p)) }
int unlink(const char *p) { NAME("unlink", p, 0, syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int f) { NAME("unlink", p, 0, syscall(SYS_unlinkat, d, p, f)) }
int rename(const char *a, const char *p) { NAME("rename", p, 1, syscall(SYS_rename, a, p)) }
int renameat(int d, const char *a, int d2, const char *p) { NAME("rename", p, 1, syscall(SYS_renameat, d, a, d2, p)) }
int link(const char *a, const char *p) { NAME("link", p, 1, syscall(SYS_link, a, p)) }
int symlink(const char *a, const char *p) { NAME("symlink", p, 1, syscall(SYS_symlink, a, p)) }
int truncate(const char *p, off_t n) { NAME("truncate", p, 1, syscall(SYS_truncate, p, n)) }
int fsync(int fd)
{
    char path[1024];
    if (fdpath(fd, path, sizeof path) && next("fsync", path, 0, 0, 0) == F_ERR) return -1;
    return syscall(SYS_fsync, fd);
}
int ftruncate64(int fd, off64_t n)
{
    char path[1024];
    if (fdpath(fd, path, sizeof path) && next("truncate", path, n, 1, 0) == F_ERR) return -1;
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
