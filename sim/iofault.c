/* Simulated storage faults: an interposed libc I/O layer. While armed, every I/O call on files under one directory is an
 * event; a script says what happens at which event. Everything else passes through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_STAT, K_FSTAT, K_LSEEK, K_RENAME, K_UNLINK, K_FSYNC, K_TRUNC, K_OTHER };
enum { A_ERRNO, A_EINTR, A_SHORT, A_KILL_BEFORE, A_KILL_AFTER, A_TORN_KILL, A_LOST_CLOSE, A_PARTIAL_ERRNO };

#define MAXF 1024
#define MAXE 20000
#define MAXS 64
static char prefix[PATH_MAX];
static size_t plen;
static volatile int armed;
static unsigned char mine[MAXF];   /* descriptor belongs to the simulated storage; 2: writable */
static long base_len[MAXF];        /* file length before the last write */
static int nev;
static struct { int kind, wr; } ev[MAXE];
static struct { int at, act, arg, fired; } script[MAXS];
static int nscript;

void iof_arm(const char *p)
{
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    nev = 0;
    armed = 1;
}
void iof_disarm(void) { armed = 0; }
void iof_clear(void) { nscript = 0; }
void iof_add(int at, int act, int arg)
{
    if (nscript < MAXS) {
        script[nscript].at = at; script[nscript].act = act; script[nscript].arg = arg; script[nscript].fired = 0;
        nscript++;
    }
}
int iof_count(void) { return nev; }
int iof_kind(int i) { return i < MAXE ? ev[i].kind : -1; }
int iof_wr(int i) { return i < MAXE ? ev[i].wr : -1; }
int iof_fired(int i) { return script[i].fired; }
int iof_open_files(void)
{
    int n = 0;
    for (int i = 0; i < MAXF; i++) n += mine[i] != 0;
    return n;
}

static void *next(const char *name) { return dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))next(name)

static int ours_path(int dfd, const char *p)
{
    char cwd[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] == '/') return strncmp(p, prefix, plen) == 0;
    if (dfd != AT_FDCWD) return dfd >= 0 && dfd < MAXF && mine[dfd];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, prefix, plen) == 0;
}
static int ours_fd(int fd) { return armed && fd >= 0 && fd < MAXF && mine[fd]; }

/* index into the script, or -1 */
static int event(int kind, int wr)
{
    int n = nev++;
    if (n < MAXE) { ev[n].kind = kind; ev[n].wr = wr; }
    for (int i = 0; i < nscript; i++)
        if (script[i].at == n) { script[i].fired = 1; return i; }
    return -1;
}
static void die(void) { _exit(77); }

/* simple events: an error before the call, or a crash before/after it */
#define BEFORE(kind, wr) \
    int s_ = event(kind, wr); \
    if (s_ >= 0) { \
        if (script[s_].act == A_KILL_BEFORE || script[s_].act == A_TORN_KILL) die(); \
        if (script[s_].act == A_ERRNO || script[s_].act == A_PARTIAL_ERRNO) { errno = script[s_].arg; return -1; } \
        if (script[s_].act == A_EINTR) { errno = EINTR; return -1; } \
    }
#define AFTER() if (s_ >= 0 && script[s_].act == A_KILL_AFTER) die()

static int is_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY; }

static int opened(int fd, int flags)
{
    if (fd >= 0 && fd < MAXF) {
        mine[fd] = is_write(flags) ? 2 : 1;
        base_len[fd] = 0;
    }
    return fd;
}

#define OPENAT(fname) \
int fname(int dfd, const char *path, int flags, ...) \
{ \
    REAL(int, #fname, int, const char *, int, ...); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!ours_path(dfd, path)) return real(dfd, path, flags, mode); \
    BEFORE(K_OPEN, is_write(flags)); \
    int fd = opened(real(dfd, path, flags, mode), flags); \
    AFTER(); \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)

#define OPEN(fname) \
int fname(const char *path, int flags, ...) \
{ \
    REAL(int, #fname, const char *, int, ...); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!ours_path(AT_FDCWD, path)) return real(path, flags, mode); \
    BEFORE(K_OPEN, is_write(flags)); \
    int fd = opened(real(path, flags, mode), flags); \
    AFTER(); \
    return fd; \
}
OPEN(open)
OPEN(open64)

static size_t cut(int s, size_t n)
{
    size_t k = (size_t)script[s].arg;
    return n < 2 ? n : 1 + k % (n - 1);
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, "read", int, void *, size_t);
    if (!ours_fd(fd)) return real(fd, buf, n);
    BEFORE(K_READ, 0);
    if (s_ >= 0 && script[s_].act == A_SHORT) n = cut(s_, n);
    ssize_t r = real(fd, buf, n);
    AFTER();
    return r;
}

ssize_t pread64(int fd, void *buf, size_t n, off_t o)
{
    REAL(ssize_t, "pread64", int, void *, size_t, off_t);
    if (!ours_fd(fd)) return real(fd, buf, n, o);
    BEFORE(K_READ, 0);
    if (s_ >= 0 && script[s_].act == A_SHORT) n = cut(s_, n);
    ssize_t r = real(fd, buf, n, o);
    AFTER();
    return r;
}

static void note_length(int fd)
{
    struct stat st;
    if (fstat(fd, &st) == 0) base_len[fd] = st.st_size;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!ours_fd(fd)) return real(fd, buf, n);
    int s_ = event(K_WRITE, 1);
    int a = s_ >= 0 ? script[s_].act : -1;
    if (a == A_KILL_BEFORE) die();
    if (a == A_ERRNO) { errno = script[s_].arg; return -1; }
    if (a == A_EINTR) { errno = EINTR; return -1; }
    armed = 0;
    note_length(fd);
    armed = 1;
    if (a == A_SHORT) n = cut(s_, n);
    if (a == A_TORN_KILL) { (void)!real(fd, buf, cut(s_, n)); die(); }
    if (a == A_PARTIAL_ERRNO) { (void)!real(fd, buf, n/2); errno = script[s_].arg; return -1; }
    ssize_t r = real(fd, buf, n);
    AFTER();
    return r;
}

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!ours_fd(fd)) return real(fd, iov, cnt);
    BEFORE(K_WRITE, 1);
    ssize_t r = real(fd, iov, cnt);
    AFTER();
    return r;
}

int close(int fd)
{
    REAL(int, "close", int);
    if (!ours_fd(fd)) {
        if (fd >= 0 && fd < MAXF) mine[fd] = 0;
        return real(fd);
    }
    int wr = mine[fd] == 2;
    int s_ = event(K_CLOSE, wr);
    int a = s_ >= 0 ? script[s_].act : -1;
    if (a == A_KILL_BEFORE || a == A_TORN_KILL) die();
    mine[fd] = 0;
    if (a == A_ERRNO || a == A_LOST_CLOSE || a == A_PARTIAL_ERRNO) {
        /* delayed write error: what the last write delivered is lost; the descriptor is gone all the same */
        if (wr) (void)!ftruncate(fd, base_len[fd]);
        real(fd);
        errno = script[s_].arg ? script[s_].arg : EIO;
        return -1;
    }
    int r = real(fd);
    AFTER();
    return r;
}

#define PATHCALL(ret, fname, kind, wr, pathexpr, dfdexpr, args, call, ...) \
ret fname args \
{ \
    REAL(ret, #fname, __VA_ARGS__); \
    if (!ours_path(dfdexpr, pathexpr)) return real call; \
    BEFORE(kind, wr); \
    ret r = real call; \
    AFTER(); \
    return r; \
}
PATHCALL(int, stat, K_STAT, 0, p, AT_FDCWD, (const char *restrict p, struct stat *restrict b), (p, b), const char *, struct stat *)
PATHCALL(int, stat64, K_STAT, 0, p, AT_FDCWD, (const char *restrict p, struct stat64 *restrict b), (p, b), const char *, struct stat64 *)
PATHCALL(int, lstat, K_STAT, 0, p, AT_FDCWD, (const char *restrict p, struct stat *restrict b), (p, b), const char *, struct stat *)
PATHCALL(int, lstat64, K_STAT, 0, p, AT_FDCWD, (const char *restrict p, struct stat64 *restrict b), (p, b), const char *, struct stat64 *)
PATHCALL(int, fstatat64, K_STAT, 0, p, d, (int d, const char *restrict p, struct stat64 *restrict b, int f), (d, p, b, f), int, const char *, struct stat64 *, int)
PATHCALL(int, access, K_STAT, 0, p, AT_FDCWD, (const char *p, int m), (p, m), const char *, int)
PATHCALL(int, rename, K_RENAME, 1, b, AT_FDCWD, (const char *a, const char *b), (a, b), const char *, const char *)
PATHCALL(int, renameat, K_RENAME, 1, b, e, (int d, const char *a, int e, const char *b), (d, a, e, b), int, const char *, int, const char *)
PATHCALL(int, unlink, K_UNLINK, 1, p, AT_FDCWD, (const char *p), (p), const char *)
PATHCALL(int, unlinkat, K_UNLINK, 1, p, d, (int d, const char *p, int f), (d, p, f), int, const char *, int)
PATHCALL(int, mkdir, K_OTHER, 1, p, AT_FDCWD, (const char *p, mode_t m), (p, m), const char *, mode_t)
PATHCALL(int, link, K_OTHER, 1, b, AT_FDCWD, (const char *a, const char *b), (a, b), const char *, const char *)
PATHCALL(int, symlink, K_OTHER, 1, b, AT_FDCWD, (const char *a, const char *b), (a, b), const char *, const char *)
PATHCALL(int, truncate64, K_TRUNC, 1, p, AT_FDCWD, (const char *p, off_t o), (p, o), const char *, off_t)

#define FDCALL(ret, fname, kind, args, call, ...) \
ret fname args \
{ \
    REAL(ret, #fname, __VA_ARGS__); \
    if (!ours_fd(fd)) return real call; \
    BEFORE(kind, mine[fd] == 2); \
    ret r = real call; \
    AFTER(); \
    return r; \
}
FDCALL(int, fstat, K_FSTAT, (int fd, struct stat *b), (fd, b), int, struct stat *)
FDCALL(int, fstat64, K_FSTAT, (int fd, struct stat64 *b), (fd, b), int, struct stat64 *)
FDCALL(off_t, lseek, K_LSEEK, (int fd, off_t o, int w), (fd, o, w), int, off_t, int)
FDCALL(off64_t, lseek64, K_LSEEK, (int fd, off64_t o, int w), (fd, o, w), int, off64_t, int)
FDCALL(int, fsync, K_FSYNC, (int fd), (fd), int)
FDCALL(int, fdatasync, K_FSYNC, (int fd), (fd), int)
FDCALL(int, ftruncate64, K_TRUNC, (int fd, off64_t o), (fd, o), int, off64_t)
