// Disk seam: interposes the mutating file system calls of this process for paths under one prefix.
// Numbered operations can be made to crash the process (before, after, or half-way through a write), to fail with an
// errno (once or from then on), or to be short.  Everything else passes through untouched.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 65536
static char g_prefix[PATH_MAX];
static size_t g_plen = 0;
static int g_on = 0;
static long g_n = 0;             // mutating operations so far
static long g_crash_at = -1;     // operation number that crashes
static int g_crash_mode = 0;     // 0 before, 1 after, 2 half-way (writes only; otherwise before)
static long g_fail_at = -1;
static int g_fail_errno = 0;
static int g_fail_sticky = 0;    // 1: every later write-like operation fails too; 2: full disk, i.e. from then on only
                                 // operations that need new space fail
static long g_short = 0;         // >0: writes are cut to at most this many bytes
static long g_fired_fail = 0, g_fired_short = 0;
static unsigned char g_fd[MAXFD];

// reads of files below a second prefix
static char r_prefix[PATH_MAX];
static size_t r_plen = 0;
static int r_on = 0;
static long r_n = 0, r_fail_at = -1, r_short = 0, r_fired_fail = 0, r_fired_short = 0;
static int r_errno = 0, r_sticky = 0;
static unsigned char r_fd[MAXFD];

#define LOGN 65536
static char g_log[LOGN];
static size_t g_logn = 0;

static void note(const char *op, const char *path, long n) {
    if (!path) path = "?";
    const char *b = strrchr(path, '/');
    b = b ? b + 1 : path;
    char line[400];
    int k = snprintf(line, sizeof line, "%ld:%s:%.120s:%ld\n", g_n, op, b, n);
    if (k > 0 && g_logn + (size_t)k < LOGN) { memcpy(g_log + g_logn, line, k); g_logn += k; }
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

static int tracked_path(const char *p) {
    if (!g_on || !p) return 0;
    if (p[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        size_t l = strlen(cwd);
        if (l >= g_plen) return strncmp(cwd, g_prefix, g_plen) == 0 && (cwd[g_plen] == 0 || cwd[g_plen] == '/');
        return 0;
    }
    return strncmp(p, g_prefix, g_plen) == 0 && (p[g_plen] == 0 || p[g_plen] == '/');
}

static void die(void) { syscall(SYS_exit_group, 77); }

// Process scheduling: a process that used up its turn stops before its next file system operation until the simulator
// grants it more of them.
static int s_rfd = -1, s_wfd = -1;
static int32_t s_budget = 0;
static void stall(void) {
    if (s_rfd < 0) return;
    while (s_budget == 0) {
        int32_t v = 0;
        if (syscall(SYS_write, s_wfd, "p", 1L) != 1) die();
        if (syscall(SYS_read, s_rfd, &v, 4L) != 4) die();
        s_budget = v;
    }
    if (s_budget < 0) die();
    s_budget--;
}

// returns 0 to go on, -1 to fail with errno set, 1 to crash after, 2 to crash half-way
static int gate(const char *op, const char *path, long size, int writelike) {
    stall();
    g_n++;
    note(op, path, size);
    if (g_n == g_crash_at) {
        if (g_crash_mode == 1) return 1;
        if (g_crash_mode == 2 && size > 0) return 2;
        die();
    }
    if (g_fail_sticky == 2) {
        if (g_fail_at > 0 && g_n >= g_fail_at && writelike == 2) { g_fired_fail++; errno = g_fail_errno; return -1; }
        return 0;
    }
    if (g_fail_at > 0 && (g_n == g_fail_at || (g_fail_sticky && g_n > g_fail_at && writelike))) {
        g_fired_fail++;
        errno = g_fail_errno;
        return -1;
    }
    return 0;
}

static int open_common(int dirfd, const char *path, int flags, mode_t mode) {
    static int (*ropenat)(int, const char *, int, ...);
    if (!ropenat) ropenat = dlsym(RTLD_NEXT, "openat");
    int t = (dirfd == AT_FDCWD || (path && path[0] == '/')) ? tracked_path(path) : 0;
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    int mut = t && (flags & (O_CREAT | O_TRUNC)) && wr;
    int g = 0;
    if (t && !wr && !(flags & O_DIRECTORY)) stall();
    if (mut) {
        // opening an existing file without O_TRUNC changes nothing
        struct stat st;
        int exists = fstatat(AT_FDCWD, path, &st, 0) == 0;
        if (exists && !(flags & O_TRUNC)) mut = 0;
        else {
            g = gate((flags & O_TRUNC) && exists ? "trunc" : "create", path, 0, (flags & O_TRUNC) && exists ? 1 : 2);
            if (g < 0) return -1;
        }
    }
    int fd = ropenat(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) g_fd[fd] = (unsigned char)(t && wr);
    if (fd >= 0 && fd < MAXFD)
        r_fd[fd] = (unsigned char)(r_on && path && strncmp(path, r_prefix, r_plen) == 0);
    if (g == 1) die();
    return fd;
}

// returns -1 (errno set) or the number of bytes that may be read
static ssize_t read_gate(size_t n) {
    r_n++;
    if (r_fail_at > 0 && (r_n == r_fail_at || (r_sticky && r_n > r_fail_at))) {
        r_fired_fail++;
        errno = r_errno;
        return -1;
    }
    if (r_short > 0 && (long)n > r_short) { r_fired_short++; return r_short; }
    return (ssize_t)n;
}
#define RTRK(fd) (r_on && (fd) >= 0 && (fd) < MAXFD && r_fd[fd])

ssize_t read(int fd, void *b, size_t n) {
    ssize_t (*r)(int, void *, size_t) = REAL(read);
    if (RTRK(fd)) { ssize_t k = read_gate(n); if (k < 0) return -1; n = (size_t)k; }
    return r(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    ssize_t (*r)(int, void *, size_t, off_t) = REAL(pread);
    if (RTRK(fd)) { ssize_t k = read_gate(n); if (k < 0) return -1; n = (size_t)k; }
    return r(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    ssize_t (*r)(int, void *, size_t, off64_t) = REAL(pread64);
    if (RTRK(fd)) { ssize_t k = read_gate(n); if (k < 0) return -1; n = (size_t)k; }
    return r(fd, b, n, o);
}

int open(const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    return open_common(AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    return open_common(AT_FDCWD, p, flags | O_LARGEFILE, m);
}
int openat(int d, const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    return open_common(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    return open_common(d, p, flags | O_LARGEFILE, m);
}
int creat(const char *p, mode_t m) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (fd >= 0 && fd < MAXFD) { g_fd[fd] = 0; r_fd[fd] = 0; }
    return REAL(close)(fd);
}

static const char *fdname(int fd) {
    static char buf[PATH_MAX], l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, buf, sizeof buf - 1);
    if (n < 0) return "?";
    buf[n] = 0;
    return buf;
}

// 2 if writing n bytes at offset o (-1: at the current position) needs new space, 1 otherwise
static int grows(int fd, long long o, size_t n) {
    struct stat st;
    if (fstat(fd, &st) != 0) return 1;
    if (o < 0) {
        int fl = fcntl(fd, F_GETFL);
        o = (fl & O_APPEND) ? (long long)st.st_size : (long long)lseek(fd, 0, SEEK_CUR);
    }
    return o + (long long)n > (long long)st.st_size ? 2 : 1;
}

#define TRK(fd) (g_on && (fd) >= 0 && (fd) < MAXFD && g_fd[fd])

ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*r)(int, const void *, size_t) = REAL(write);
    if (!TRK(fd)) return r(fd, b, n);
    int g = gate("write", fdname(fd), (long)n, grows(fd, -1, n));
    if (g < 0) { if (g_fail_errno == ENOSPC && n > 1 && g_fired_fail == 1) return r(fd, b, n / 2); return -1; }
    if (g == 2) { r(fd, b, n / 2); die(); }
    size_t want = n;
    if (g_short > 0 && (long)n > g_short) { want = g_short; g_fired_short++; }
    ssize_t k = r(fd, b, want);
    if (g == 1) die();
    return k;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    ssize_t (*r)(int, const void *, size_t, off_t) = REAL(pwrite);
    if (!TRK(fd)) return r(fd, b, n, o);
    int g = gate("pwrite", fdname(fd), (long)n, grows(fd, o, n));
    if (g < 0) return -1;
    if (g == 2) { r(fd, b, n / 2, o); die(); }
    ssize_t k = r(fd, b, n, o);
    if (g == 1) die();
    return k;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    ssize_t (*r)(int, const void *, size_t, off64_t) = REAL(pwrite64);
    if (!TRK(fd)) return r(fd, b, n, o);
    int g = gate("pwrite", fdname(fd), (long)n, grows(fd, o, n));
    if (g < 0) return -1;
    if (g == 2) { r(fd, b, n / 2, o); die(); }
    ssize_t k = r(fd, b, n, o);
    if (g == 1) die();
    return k;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    ssize_t (*r)(int, const struct iovec *, int) = REAL(writev);
    if (!TRK(fd)) return r(fd, v, c);
    int g = gate("writev", fdname(fd), 0, 1);
    if (g < 0) return -1;
    ssize_t k = r(fd, v, c);
    if (g == 1) die();
    return k;
}
int ftruncate(int fd, off_t l) {
    int (*r)(int, off_t) = REAL(ftruncate);
    if (!TRK(fd)) return r(fd, l);
    int g = gate("ftruncate", fdname(fd), 0, 1);
    if (g < 0) return -1;
    int k = r(fd, l);
    if (g == 1) die();
    return k;
}
int ftruncate64(int fd, off64_t l) {
    int (*r)(int, off64_t) = REAL(ftruncate64);
    if (!TRK(fd)) return r(fd, l);
    int g = gate("ftruncate", fdname(fd), 0, 1);
    if (g < 0) return -1;
    int k = r(fd, l);
    if (g == 1) die();
    return k;
}
#define PATH_OP(NAME, ARGS, CALL, P, TAG) \
int NAME ARGS { \
    int (*r) ARGS = REAL(NAME); \
    if (!tracked_path(P)) return r CALL; \
    int g = gate(TAG, P, 0, 0); \
    if (g < 0) return -1; \
    int k = r CALL; \
    if (g == 1) { die(); } \
    return k; \
}
PATH_OP(rename, (const char *a, const char *b), (a, b), b, "rename")
PATH_OP(unlink, (const char *a), (a), a, "unlink")
PATH_OP(remove, (const char *a), (a), a, "unlink")
PATH_OP(rmdir, (const char *a), (a), a, "rmdir")
PATH_OP(mkdir, (const char *a, mode_t m), (a, m), a, "mkdir")
PATH_OP(truncate, (const char *a, off_t l), (a, l), a, "truncate")
PATH_OP(link, (const char *a, const char *b), (a, b), b, "link")
PATH_OP(symlink, (const char *a, const char *b), (a, b), b, "symlink")

int renameat(int d1, const char *a, int d2, const char *b) {
    int (*r)(int, const char *, int, const char *) = REAL(renameat);
    if (!(d2 == AT_FDCWD || b[0] == '/') || !tracked_path(b)) return r(d1, a, d2, b);
    int g = gate("rename", b, 0, 0);
    if (g < 0) return -1;
    int k = r(d1, a, d2, b);
    if (g == 1) die();
    return k;
}
static int at_tracked(int d, const char *p) {
    if (!g_on || !p) return 0;
    if (d == AT_FDCWD || p[0] == '/') return tracked_path(p);
    return tracked_path(fdname(d));
}
int unlinkat(int d, const char *p, int f) {
    int (*r)(int, const char *, int) = REAL(unlinkat);
    if (!at_tracked(d, p)) return r(d, p, f);
    int g = gate("unlink", p, 0, 0);
    if (g < 0) return -1;
    int k = r(d, p, f);
    if (g == 1) die();
    return k;
}
int mkdirat(int d, const char *p, mode_t m) {
    int (*r)(int, const char *, mode_t) = REAL(mkdirat);
    if (!at_tracked(d, p)) return r(d, p, m);
    int g = gate("mkdir", p, 0, 0);
    if (g < 0) return -1;
    int k = r(d, p, m);
    if (g == 1) die();
    return k;
}
ssize_t copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned int f) {
    ssize_t (*r)(int, off64_t *, int, off64_t *, size_t, unsigned int) = REAL(copy_file_range);
    if (!TRK(fo)) return r(fi, oi, fo, oo, n, f);
    int g = gate("copy", fdname(fo), 0, 1);
    if (g < 0) return -1;
    ssize_t k = r(fi, oi, fo, oo, n, f);
    if (g == 1) die();
    return k;
}
ssize_t sendfile64(int fo, int fi, off64_t *o, size_t n) {
    static ssize_t (*r)(int, int, off64_t *, size_t);
    if (!r) r = dlsym(RTLD_NEXT, "sendfile64");
    if (!TRK(fo)) return r(fo, fi, o, n);
    int g = gate("sendfile", fdname(fo), (long)n, 1);
    if (g < 0) return -1;
    if (g == 2) { r(fo, fi, o, n / 2); die(); }
    ssize_t k = r(fo, fi, o, n);
    if (g == 1) die();
    return k;
}
ssize_t sendfile(int fo, int fi, off_t *o, size_t n) { return sendfile64(fo, fi, (off64_t *)o, n); }

// ---- control, called through ctypes
void dst_arm(const char *prefix, long crash_at, int crash_mode, long fail_at, int fail_errno, int sticky, long shortw) {
    g_on = 0;
    snprintf(g_prefix, sizeof g_prefix, "%s", prefix);
    g_plen = strlen(g_prefix);
    g_n = 0; g_logn = 0; g_fired_fail = 0; g_fired_short = 0;
    g_crash_at = crash_at; g_crash_mode = crash_mode;
    g_fail_at = fail_at; g_fail_errno = fail_errno; g_fail_sticky = sticky; g_short = shortw;
    g_on = 1;
}
void dst_turns(int rfd, int wfd) { s_rfd = rfd; s_wfd = wfd; s_budget = 0; if (rfd >= 0) { s_budget = 0; stall(); } }
void dst_disarm(void) { g_on = 0; }
long dst_count(void) { return g_n; }
long dst_fired_fail(void) { return g_fired_fail; }
long dst_fired_short(void) { return g_fired_short; }
const char *dst_log(void) { g_log[g_logn < LOGN ? g_logn : LOGN - 1] = 0; return g_log; }

void dst_arm_read(const char *prefix, long fail_at, int fail_errno, int sticky, long shortr) {
    snprintf(r_prefix, sizeof r_prefix, "%s", prefix);
    r_plen = strlen(r_prefix);
    r_n = 0; r_fired_fail = 0; r_fired_short = 0;
    r_fail_at = fail_at; r_errno = fail_errno; r_sticky = sticky; r_short = shortr;
    r_on = r_plen > 0;
}
long dst_reads(void) { return r_n; }
long dst_fired_read(void) { return r_fired_fail; }
long dst_fired_short_read(void) { return r_fired_short; }
