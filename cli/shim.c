/* Observer and fault injector for the file operations of one process,
 * loaded with LD_PRELOAD.  Every operation on a path below $SHIM_ROOT (or a
 * relative path) is an event: it gets a number, is written to $SHIM_LOG and
 * can be made to fail by $SHIM_PLAN, a list "number=action,..." with actions
 *   E<errno>  fail with that error          S  transfer only a part
 *   Z         transfer nothing (return 0)   K  kill the process before it
 *   L         kill the process after it
 * "number+=action" applies to that event and all later ones of its kind.  */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(name) ((__typeof__(&name))real(#name))
static void *real(const char *n) {
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) _exit(88);
    return p;
}

#define MAXFD 1024
static char *fdpath[MAXFD];
static struct { DIR *d; char *p; } dirs[256];
static int ready, logfd = -1;
static const char *root;
static long events;
struct rule { long n; int persist; char act; int err; char kind[16]; };
static struct rule rules[64];
static int nrules;

static void setup(void) {
    if (ready) return;
    ready = 1;
    root = getenv("SHIM_ROOT");
    const char *l = getenv("SHIM_LOG");
    if (l) {
        int f = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        logfd = syscall(SYS_fcntl, f, F_DUPFD_CLOEXEC, 1000);
        syscall(SYS_close, f);
    }
    const char *p = getenv("SHIM_PLAN");
    while (p && *p && nrules < 64) {
        char *e;
        struct rule r = {0};
        r.n = strtol(p, &e, 10);
        if (*e == '+') { r.persist = 1; e++; }
        if (*e != '=') break;
        r.act = e[1];
        e += 2;
        if (r.act == 'E') r.err = strtol(e, &e, 10);
        rules[nrules++] = r;
        p = *e == ',' ? e + 1 : 0;
    }
}
__attribute__((constructor)) static void init(void) {
    setup();
    const char *n = getenv("SHIM_NOFILE");
    if (n) {
        struct rlimit l = {atoi(n), atoi(n)};
        setrlimit(RLIMIT_NOFILE, &l);
    }
}

static int inside(const char *p) {
    setup();
    if (!root || !p) return 0;
    if (p[0] != '/') return 1;
    return strncmp(p, root, strlen(root)) == 0;
}
static void note(const char *kind, const char *path, const char *res) {
    if (logfd < 0) return;
    char b[9000];
    int k = snprintf(b, sizeof b, "%ld\t%s\t%s\t", events, kind, res);
    for (const char *c = path; *c && k < 8900; c++) {
        if (*c == '\n' || *c == '\t' || *c == '\\') { b[k++] = '\\'; b[k++] = *c == '\n' ? 'n' : *c == '\t' ? 't' : '\\'; }
        else b[k++] = *c;
    }
    b[k++] = '\n';
    syscall(SYS_write, logfd, b, k);
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
/* returns the action for this event: 0 none, 'E' (errno set), 'S', 'Z', 'L' */
static char event(const char *kind, const char *path) {
    events++;
    char act = 0;
    int err = 0;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (r->n == events) {
            strncpy(r->kind, kind, sizeof r->kind - 1);
            act = r->act; err = r->err;
        } else if (r->persist && events > r->n && r->kind[0] && !strcmp(r->kind, kind)) {
            act = r->act; err = r->err;
        }
    }
    /* partial transfers exist for transfers only, an empty one for writing */
    if (act == 'S' && strcmp(kind, "read") && strcmp(kind, "write")) act = 0;
    if (act == 'Z' && strcmp(kind, "write")) act = 0;
    char res[32] = "-";
    if (act == 'E') snprintf(res, sizeof res, "E%d", err);
    else if (act) snprintf(res, sizeof res, "%c", act);
    note(kind, path, res);
    if (act == 'K') die();
    if (act == 'E') errno = err;
    return act;
}
static void after(char act) { if (act == 'L') die(); }
static void track(int fd, const char *p) {
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); }
}
static const char *of(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }

static const char *mode_of(int fl) {
    if (fl & O_DIRECTORY) return "opendir";
    if ((fl & O_ACCMODE) == O_RDONLY) return "open-read";
    return fl & O_TRUNC ? "open-trunc" : "open-write";
}
#define OPEN_BODY(callexpr)                                     \
    mode_t m = 0;                                               \
    if (fl & (O_CREAT | O_TMPFILE)) {                           \
        va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); \
    }                                                           \
    if (!inside(p)) return callexpr;                            \
    char act = event(mode_of(fl), p);                           \
    if (act == 'E') return -1;                                  \
    int fd = callexpr;                                          \
    track(fd, p);                                               \
    after(act);                                                 \
    return fd;
int open(const char *p, int fl, ...) { OPEN_BODY(REAL(open)(p, fl, m)) }
int open64(const char *p, int fl, ...) { OPEN_BODY(REAL(open64)(p, fl, m)) }
int openat(int d, const char *p, int fl, ...) { OPEN_BODY(REAL(openat)(d, p, fl, m)) }
int openat64(int d, const char *p, int fl, ...) { OPEN_BODY(REAL(openat64)(d, p, fl, m)) }
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_WRONLY | O_CREAT | O_TRUNC, m); }

/* which variables decide what the process does */
char *getenv(const char *n) {
    static __thread int busy;
    char *r = REAL(getenv)(n);
    if (!busy && logfd >= 0) {
        busy = 1;
        note("getenv", n, "-");
        busy = 0;
    }
    return r;
}

int close(int fd) {
    if (of(fd)) { free(fdpath[fd]); fdpath[fd] = 0; }
    return REAL(close)(fd);
}

#define XFER(kind, small, full)                                 \
    const char *p = of(fd);                                     \
    if (!p) return full;                                        \
    char act = event(kind, p);                                  \
    if (act == 'E') return -1;                                  \
    if (act == 'Z') return 0;                                   \
    ssize_t r = act == 'S' ? small : full;                      \
    after(act);                                                 \
    return r;
static size_t part(size_t n) { return n > 1 ? n / 2 : n; }
ssize_t read(int fd, void *b, size_t n) { XFER("read", REAL(read)(fd, b, n > 7 ? 7 : n), REAL(read)(fd, b, n)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { XFER("read", REAL(pread64)(fd, b, part(n), o), REAL(pread64)(fd, b, n, o)) }
ssize_t readv(int fd, const struct iovec *v, int c) { XFER("read", REAL(read)(fd, v[0].iov_base, part(v[0].iov_len)), REAL(readv)(fd, v, c)) }
ssize_t write(int fd, const void *b, size_t n) { XFER("write", REAL(write)(fd, b, part(n)), REAL(write)(fd, b, n)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { XFER("write", REAL(pwrite64)(fd, b, part(n), o), REAL(pwrite64)(fd, b, n, o)) }
ssize_t writev(int fd, const struct iovec *v, int c) { XFER("write", REAL(write)(fd, v[0].iov_base, part(v[0].iov_len)), REAL(writev)(fd, v, c)) }

#define ON_FD(kind, callexpr)                                   \
    const char *p = of(fd);                                     \
    if (!p) return callexpr;                                    \
    char act = event(kind, p);                                  \
    if (act == 'E') return -1;                                  \
    int r = callexpr;                                           \
    after(act);                                                 \
    return r;
int ftruncate(int fd, off_t n) { ON_FD("truncate", REAL(ftruncate)(fd, n)) }
int ftruncate64(int fd, off64_t n) { ON_FD("truncate", REAL(ftruncate64)(fd, n)) }
int fsync(int fd) { ON_FD("sync", REAL(fsync)(fd)) }
int fdatasync(int fd) { ON_FD("sync", REAL(fdatasync)(fd)) }
int fchmod(int fd, mode_t m) { ON_FD("chmod", REAL(fchmod)(fd, m)) }
int futimens(int fd, const struct timespec t[2]) { ON_FD("utime", REAL(futimens)(fd, t)) }

#define ON_PATH(kind, callexpr)                                 \
    if (!inside(p)) return callexpr;                            \
    char act = event(kind, p);                                  \
    if (act == 'E') return -1;                                  \
    int r = callexpr;                                           \
    after(act);                                                 \
    return r;
int truncate(const char *p, off_t n) { ON_PATH("truncate", REAL(truncate)(p, n)) }
int truncate64(const char *p, off64_t n) { ON_PATH("truncate", REAL(truncate64)(p, n)) }
int unlink(const char *p) { ON_PATH("unlink", REAL(unlink)(p)) }
int unlinkat(int d, const char *p, int f) { ON_PATH("unlink", REAL(unlinkat)(d, p, f)) }
int rmdir(const char *p) { ON_PATH("unlink", REAL(rmdir)(p)) }
int mkdir(const char *p, mode_t m) { ON_PATH("create", REAL(mkdir)(p, m)) }
int rename(const char *p, const char *q) { ON_PATH("rename", REAL(rename)(p, q)) }
int renameat(int d, const char *p, int e, const char *q) { ON_PATH("rename", REAL(renameat)(d, p, e, q)) }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { ON_PATH("rename", REAL(renameat2)(d, p, e, q, f)) }
int link(const char *p, const char *q) { ON_PATH("create", REAL(link)(p, q)) }
int symlink(const char *q, const char *p) { ON_PATH("create", REAL(symlink)(q, p)) }
int chmod(const char *p, mode_t m) { ON_PATH("chmod", REAL(chmod)(p, m)) }
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    if (!p) { int fd = d; ON_FD("utime", REAL(utimensat)(d, p, t, f)) }
    ON_PATH("utime", REAL(utimensat)(d, p, t, f))
}

DIR *opendir(const char *p) {
    if (!inside(p)) return REAL(opendir)(p);
    char act = event("opendir", p);
    if (act == 'E') return 0;
    DIR *d = REAL(opendir)(p);
    if (d)
        for (int i = 0; i < 256; i++)
            if (!dirs[i].d) { dirs[i].d = d; dirs[i].p = strdup(p); break; }
    after(act);
    return d;
}
DIR *fdopendir(int fd) {
    DIR *d = REAL(fdopendir)(fd);
    if (d && of(fd))
        for (int i = 0; i < 256; i++)
            if (!dirs[i].d) { dirs[i].d = d; dirs[i].p = strdup(of(fd)); break; }
    return d;
}
int closedir(DIR *d) {
    for (int i = 0; i < 256; i++)
        if (dirs[i].d == d) { free(dirs[i].p); dirs[i].d = 0; dirs[i].p = 0; }
    return REAL(closedir)(d);
}
static const char *dirpath(DIR *d) {
    for (int i = 0; i < 256; i++)
        if (dirs[i].d == d) return dirs[i].p;
    return 0;
}
struct dirent *readdir(DIR *d) {
    const char *p = dirpath(d);
    if (!p) return REAL(readdir)(d);
    char act = event("readdir", p);
    if (act == 'E') return 0;
    struct dirent *r = REAL(readdir)(d);
    after(act);
    return r;
}
struct dirent64 *readdir64(DIR *d) {
    const char *p = dirpath(d);
    if (!p) return REAL(readdir64)(d);
    char act = event("readdir", p);
    if (act == 'E') return 0;
    struct dirent64 *r = REAL(readdir64)(d);
    after(act);
    return r;
}
