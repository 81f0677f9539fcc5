/* Runs a sudo I/O plugin (the real shared object built from /repo) against a
 * simulated kernel. The plugin's calls into libc resolve to the definitions
 * below, because the executable comes first in the symbol search order; they
 * act on tables that a scenario fills in and every call is printed as an
 * event. No call of the plugin reaches the real file system or network.
 *
 *   driver SO SYMBOL < scenarios > events
 *
 * Each scenario is executed in a forked child (as an unprivileged user).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sudo_plugin.h"

#define EXPORT __attribute__((visibility("default")))

static int sim = 0;     /* the plugin is running: calls are simulated */
static int outfd = 1;

/* ------------------------------------------------------------- events */
static void raw_write(const char *b, size_t n) {
    while (n) {
        long r = syscall(SYS_write, outfd, b, n);
        if (r <= 0) syscall(SYS_exit_group, 99);
        b += r; n -= r;
    }
}
static const char *cur_sig = "";
static size_t emitted;
static void ev(const char *fmt, ...) {
    static char buf[1 << 22];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    raw_write(buf, n);
    emitted += n;
    if (emitted > 16000000) {        /* endless output counts as not finishing */
        n = snprintf(buf, 200, "ret %s signal 14\nend\n", cur_sig);
        raw_write(buf, n);
        syscall(SYS_exit_group, 0);
    }
}
static char *hex(const void *p, size_t n) {
    static char *bufs[8];
    static int k;
    k = (k + 1) & 7;
    free(bufs[k]);
    char *o = bufs[k] = malloc(2 * n + 3);
    const unsigned char *b = p;
    if (!n) { strcpy(o, "-"); return o; }
    for (size_t i = 0; i < n; i++) { o[2 * i] = "0123456789abcdef"[b[i] >> 4]; o[2 * i + 1] = "0123456789abcdef"[b[i] & 15]; }
    o[2 * n] = 0;
    return o;
}
static char *hexs(const char *s) { return hex(s, strlen(s)); }
static unsigned char *unhex(const char *s, size_t *len) {
    if (!strcmp(s, "-")) s = "";
    size_t n = strlen(s) / 2;
    unsigned char *o = calloc(n + 1, 1);
    for (size_t i = 0; i < n; i++) o[i] = (s[2 * i] % 32 + 9) % 25 * 16 + (s[2 * i + 1] % 32 + 9) % 25;
    if (len) *len = n;
    return o;
}

/* --------------------------------------------------------------- state */
enum { T_REG = 'f', T_DIR = 'd', T_SOCK = 's', T_CHR = 'c', T_BLK = 'b', T_FIFO = 'p' };
struct ent { char *path; int type; unsigned mode; unsigned uid, gid; unsigned char *data; size_t len;
             int open_errno, stat_errno; long read_fail_at; int read_errno; int alive; int write_errno; int eintr_once; };
static struct ent ents[128];
static int nents;

struct fault { char call[16]; int nth; int err; };
static struct fault faults[256];
static int nfaults;
struct count { char call[16]; int n; };
static struct count counts[64];
static int ncounts;

static unsigned cur_umask = 022, s_euid = 0, s_egid = 0, s_ruid = 1000, s_rgid = 1000;
static struct sigaction cur_sa;

struct rd { int kind; unsigned char *data; size_t len, off; int err; };  /* 'd' data, 'e' errno, 'z' eof */
static struct rd rds[1024];
static int nrds, rdpos;
struct wr { int kind; long n; };                                         /* 'n' take at most n, 'e' errno */
static struct wr wrs[4096];
static int nwrs, wrpos;

struct cb { char name[24]; int nth; int code; };
static struct cb cbs[1024];
static int ncbs;
static struct count cbcounts[32];
static int ncbcounts;

static int FD0 = 900; /* the descriptor that comes next */
#define NFD 100
struct fdent { int kind; struct ent *e; long pos; int wr; };  /* 'l' listener socket, 'c' connection, 'f' file, 's' fresh socket */
static struct fdent fds[NFD];
static char bound_path[256];
static int conn_alive;

static int counted(const char *call) {
    for (int i = 0; i < ncounts; i++) if (!strcmp(counts[i].call, call)) return ++counts[i].n;
    strncpy(counts[ncounts].call, call, 15); counts[ncounts].n = 1; ncounts++;
    return 1;
}
/* scripted failure for this call? */
static int fault(const char *call) {
    int n = counted(call);
    for (int i = 0; i < nfaults; i++)
        if (!strcmp(faults[i].call, call) && (faults[i].nth == n || faults[i].nth == 0)) return faults[i].err;
    return 0;
}
static void norm(const char *p, char *o, size_t cap) {
    size_t n = 0;
    for (; *p && n + 2 < cap; p++) {
        if (*p == '/' && n && o[n - 1] == '/') continue;
        o[n++] = *p;
    }
    while (n > 1 && o[n - 1] == '/') n--;
    o[n] = 0;
}
static struct ent *lookup(const char *p) {
    char q[512], r[512];
    norm(p, q, sizeof q);
    for (int i = 0; i < nents; i++) {
        if (!ents[i].alive) continue;
        norm(ents[i].path, r, sizeof r);
        if (!strcmp(q, r)) return &ents[i];
    }
    return NULL;
}
static struct ent *parent_of(const char *p) {
    char q[512];
    norm(p, q, sizeof q);
    char *s = strrchr(q, '/');
    if (!s) return NULL;
    if (s == q) s[1] = 0; else *s = 0;
    return lookup(q);
}
static int newfd(int kind) {
    for (int i = 0; i < NFD; i++) if (!fds[i].kind) { memset(&fds[i], 0, sizeof fds[i]); fds[i].kind = kind; return FD0 + i; }
    return -1;
}
static struct fdent *fdof(int fd) {
    if (fd < FD0 || fd >= FD0 + NFD || !fds[fd - FD0].kind) return NULL;
    return &fds[fd - FD0];
}
static int is_fake(int fd) { return sim && fd >= FD0 && fd < FD0 + NFD; }
static int fail(int e) { errno = e; return -1; }
static unsigned tmode(struct ent *e) {
    switch (e->type) {
    case T_DIR: return S_IFDIR | e->mode;
    case T_SOCK: return S_IFSOCK | e->mode;
    case T_CHR: return S_IFCHR | e->mode;
    case T_BLK: return S_IFBLK | e->mode;
    case T_FIFO: return S_IFIFO | e->mode;
    default: return S_IFREG | e->mode;
    }
}
static const char *sastate(void) {
    static char b[96];
    unsigned long m = 0;
    memcpy(&m, &cur_sa.sa_mask, sizeof m);
    snprintf(b, sizeof b, "flags=%x handler=%lx mask=%lx", (unsigned)cur_sa.sa_flags, (unsigned long)cur_sa.sa_handler, m);
    return b;
}
static const char *sockstate(void) {
    static char b[64];
    struct ent *e = bound_path[0] ? lookup(bound_path) : NULL;
    if (!e) return "mode=none uid=0 gid=0";
    snprintf(b, sizeof b, "mode=%o uid=%u gid=%u", e->mode, e->uid, e->gid);
    return b;
}

/* ------------------------------------------------- interposed: sockets */
#define REAL(ret, name, ...) ((ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name))

EXPORT int socket(int d, int t, int p) {
    if (!sim) return REAL(int, socket, int, int, int)(d, t, p);
    if (d != AF_UNIX || (t & 0xf) != SOCK_STREAM) return fail(EACCES);
    int e = fault("socket");
    if (e) { ev("socket = -1 %d", e); return fail(e); }
    int fd = newfd('s');
    ev("socket = %d", fd);
    return fd;
}
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t len) {
    if (!sim) return REAL(int, bind, int, const struct sockaddr *, socklen_t)(fd, a, len);
    const struct sockaddr_un *un = (const void *)a;
    char path[200] = {0};
    if (len > offsetof(struct sockaddr_un, sun_path)) {
        size_t n = len - offsetof(struct sockaddr_un, sun_path);
        if (n > 108) n = 108;
        memcpy(path, un->sun_path, n);
    }
    int e = fault("bind");
    struct ent *par = parent_of(path);
    if (!e && !path[0]) e = EINVAL;
    if (!e && lookup(path)) e = EADDRINUSE;
    if (!e && !par) e = ENOENT;
    if (!e && par->type != T_DIR) e = ENOTDIR;
    if (!e) {
        struct ent *n = &ents[nents++];
        memset(n, 0, sizeof *n);
        n->path = strdup(path); n->type = T_SOCK; n->mode = 0777 & ~cur_umask; n->uid = s_euid; n->gid = s_egid;
        n->alive = 1; n->read_fail_at = -1;
        strncpy(bound_path, path, sizeof bound_path - 1);
        if (fdof(fd)) fdof(fd)->kind = 'l';
    }
    ev("bind path=%s umask=%o = %d %d", hexs(path), cur_umask, e ? -1 : 0, e);
    return e ? fail(e) : 0;
}
EXPORT int listen(int fd, int n) {
    if (!is_fake(fd)) return REAL(int, listen, int, int)(fd, n);
    int e = fault("listen");
    ev("listen %s = %d %d", sockstate(), e ? -1 : 0, e);
    return e ? fail(e) : 0;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *len) {
    int e = fault("accept");
    struct fdent *f = fdof(fd);
    if (!e && (!f || f->kind != 'l')) e = EINVAL;
    ev("accept %s %s = %d %d", sockstate(), sastate(), e ? -1 : 0, e);
    if (e) return fail(e);
    if (a && len) { if (*len >= 2) a->sa_family = AF_UNIX; *len = 2; }
    conn_alive++;
    return newfd('c');
}
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *len, int fl) {
    if (!is_fake(fd)) return REAL(int, accept4, int, struct sockaddr *, socklen_t *, int)(fd, a, len, fl);
    return do_accept(fd, a, len);
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *len) {
    if (!is_fake(fd)) return REAL(int, accept, int, struct sockaddr *, socklen_t *)(fd, a, len);
    return do_accept(fd, a, len);
}
EXPORT int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    if (!sim) return REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *)(n, r, w, x, t);
    int has = 0;
    for (int i = 0; i < NFD; i++) if (fds[i].kind == 'l' && r && FD0 + i < n && FD0 + i < FD_SETSIZE && FD_ISSET(FD0 + i, r)) has = 1;
    int e = fault("select");
    static int expired;
    if (has && t && !e && !expired++) { has = 0; FD_ZERO(r); }
    ev("select listener=%d timeout=%d %s %s = %d %d", has, t != NULL, sockstate(), sastate(), e ? -1 : has ? 1 : 0, e);
    if (e) return fail(e);
    return has ? 1 : 0;
}
EXPORT int poll(struct pollfd *p, nfds_t n, int t) {
    if (!sim) return REAL(int, poll, struct pollfd *, nfds_t, int)(p, n, t);
    int has = 0, fake = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        struct fdent *f = fdof(p[i].fd);
        if (f) { fake = 1; p[i].revents = p[i].events; if (f->kind == 'l') has = 1; }
    }
    if (!fake) return 0;
    int e = has ? fault("select") : 0;
    /* nobody is ever quick: the first wait that has a time limit reaches it */
    static int expired;
    int late = has && t >= 0 && !e && !expired++;
    if (late) for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
    if (has) ev("select listener=1 timeout=%d %s %s = %d %d", t >= 0, sockstate(), sastate(), e ? -1 : !late, e);
    return e ? fail(e) : late ? 0 : (int)n;
}
EXPORT int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s) {
    if (!sim) return REAL(int, ppoll, struct pollfd *, nfds_t, const struct timespec *, const sigset_t *)(p, n, t, s);
    return poll(p, n, t ? 0 : -1);
}
EXPORT int shutdown(int fd, int how) {
    if (!is_fake(fd)) return REAL(int, shutdown, int, int)(fd, how);
    int e = fault("shutdown");
    ev("shutdown how=%d = %d %d", how, e ? -1 : 0, e);
    return e ? fail(e) : 0;
}
EXPORT int setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    if (!is_fake(fd)) return REAL(int, setsockopt, int, int, int, const void *, socklen_t)(fd, l, o, v, n);
    return 0;
}
EXPORT int getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
    if (!is_fake(fd)) return REAL(int, getsockopt, int, int, int, void *, socklen_t *)(fd, l, o, v, n);
    memset(v, 0, *n);
    return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!is_fake(fd)) return syscall(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        struct fdent *f = fdof(fd);
        if (!f) return fail(EBADF);
        struct fdent c = *f;
        int n = newfd(c.kind);
        fds[n - FD0] = c;
        return n;
    }
    return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    return fcntl64(fd, cmd, arg);
}

/* ------------------------------------------------- interposed: data I/O */
static ssize_t conn_read(void *b, size_t n) {
    counted("read");
    if (n == 0) { ev("read want=0 %s = 0 0 -", sastate()); return 0; }
    while (rdpos < nrds) {
        struct rd *r = &rds[rdpos];
        if (r->kind == 'e') { rdpos++; ev("read want=%zu %s = -1 %d -", n, sastate(), r->err); return fail(r->err); }
        if (r->kind == 'z') { ev("read want=%zu %s = 0 0 -", n, sastate()); return 0; }
        if (r->off >= r->len) { rdpos++; continue; }
        size_t k = r->len - r->off;
        if (k > n) k = n;
        memcpy(b, r->data + r->off, k);
        ev("read want=%zu %s = %zu 0 %s", n, sastate(), k, hex(b, k));
        r->off += k;
        return k;
    }
    ev("read want=%zu %s = 0 0 -", n, sastate());
    return 0;
}
static ssize_t conn_write(const void *b, size_t n) {
    counted("write");
    size_t k = n;
    if (wrpos < nwrs) {
        struct wr *w = &wrs[wrpos];
        if (!(w->kind == 'E')) wrpos++;          /* 'E': fails from here on */
        if (w->kind == 'e' || w->kind == 'E') {
            ev("write %s = -1 %ld %s", sastate(), w->n, hex(b, n));
            return fail(w->n);
        }
        if ((size_t)w->n < k) k = w->n;
    }
    ev("write %s = %zu 0 %s", sastate(), k, hex(b, n));
    return k;
}
static ssize_t file_read(struct fdent *f, void *b, size_t n) {
    struct ent *e = f->e;
    if (e->eintr_once && f->pos == e->eintr_once - 1) { e->eintr_once = 0; return fail(EINTR); }
    if (e->read_fail_at >= 0 && f->pos >= e->read_fail_at) return fail(e->read_errno);
    size_t left = f->pos < (long)e->len ? e->len - f->pos : 0;
    size_t k = left < n ? left : n;
    if (e->read_fail_at >= 0 && f->pos + (long)k > e->read_fail_at) k = e->read_fail_at - f->pos;
    memcpy(b, e->data + f->pos, k);
    f->pos += k;
    return k;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (!is_fake(fd)) return syscall(SYS_read, fd, b, n);
    struct fdent *f = fdof(fd);
    if (!f) return fail(EBADF);
    if (f->kind == 'c') return conn_read(b, n);
    if (f->kind == 'f') return file_read(f, b, n);
    return fail(EINVAL);
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) {
    if (!is_fake(fd)) return syscall(SYS_recvfrom, fd, b, n, fl, NULL, NULL);
    return read(fd, b, n);
}
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    if (!is_fake(fd)) return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
    return read(fd, b, n);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    if (!is_fake(fd)) return syscall(SYS_write, fd, b, n);
    struct fdent *f = fdof(fd);
    if (!f) return fail(EBADF);
    if (f->kind == 'c') return conn_write(b, n);
    if (f->kind == 'f' && f->wr) {
        size_t k = n;
        int e = fault("ttywrite");
        if (!e) e = f->e->write_errno;
        if (e && e < 0) { k = (size_t)-e < n ? (size_t)-e : n; e = 0; }   /* short write */
        ev("ttywrite path=%s = %ld %d %s", hexs(f->e->path), e ? -1L : (long)k, e, hex(b, n));
        return e ? fail(e) : (ssize_t)k;
    }
    return fail(EBADF);
}
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) {
    if (!is_fake(fd)) return syscall(SYS_sendto, fd, b, n, fl, NULL, 0);
    return write(fd, b, n);
}
EXPORT ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    if (!is_fake(fd)) return syscall(SYS_sendto, fd, b, n, fl, a, l);
    return write(fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!is_fake(fd)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!is_fake(fd)) return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
EXPORT int close(int fd) {
    if (!is_fake(fd)) return syscall(SYS_close, fd);
    struct fdent *f = fdof(fd);
    if (!f) return fail(EBADF);
    if (f->kind == 'c') { conn_alive--; ev("closeconn"); }
    if (f->kind == 'l') ev("closelistener");
    f->kind = 0;
    return 0;
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) {
    if (!is_fake(fd)) return syscall(SYS_lseek, fd, o, w);
    struct fdent *f = fdof(fd);
    if (!f || f->kind != 'f') return fail(ESPIPE);
    f->pos = w == SEEK_SET ? o : w == SEEK_CUR ? f->pos + o : (long)f->e->len + o;
    return f->pos;
}

/* --------------------------------------------------- interposed: files */
static int do_open(const char *p, int fl) {
    struct ent *e = lookup(p);
    int acc = fl & O_ACCMODE;
    int err = 0;
    if (!e) err = (fl & O_CREAT) ? EACCES : ENOENT;
    else if (e->open_errno) err = e->open_errno;
    else if (e->type == T_SOCK) err = ENXIO;
    else if (e->type == T_DIR && acc != O_RDONLY) err = EISDIR;
    ev("open path=%s acc=%d creat=%d trunc=%d = %d %d", hexs(p), acc, !!(fl & O_CREAT), !!(fl & O_TRUNC), err ? -1 : 0, err);
    if (err) return fail(err);
    int fd = newfd('f');
    fds[fd - FD0].e = e;
    fds[fd - FD0].wr = acc != O_RDONLY;
    return fd;
}
#define OPENVA mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
EXPORT int open64(const char *p, int fl, ...) { OPENVA if (!sim) return syscall(SYS_openat, AT_FDCWD, p, fl, m); return do_open(p, fl); }
EXPORT int open(const char *p, int fl, ...) { OPENVA if (!sim) return syscall(SYS_openat, AT_FDCWD, p, fl, m); return do_open(p, fl); }
EXPORT int openat(int d, const char *p, int fl, ...) { OPENVA if (!sim) return syscall(SYS_openat, d, p, fl, m); return do_open(p, fl); }
EXPORT int openat64(int d, const char *p, int fl, ...) { OPENVA if (!sim) return syscall(SYS_openat, d, p, fl, m); return do_open(p, fl); }

static int stat_lookup(const char *p, struct ent **out, const char *what) {
    int e = fault(what);
    struct ent *x = lookup(p);
    if (!e && !x) e = ENOENT;
    if (!e && x->stat_errno) e = x->stat_errno;
    ev("stat path=%s = %d %d", hexs(p), e ? -1 : 0, e);
    if (e) return e;
    *out = x;
    return 0;
}
static void fill(struct stat *st, struct ent *x) {
    memset(st, 0, sizeof *st);
    st->st_mode = tmode(x); st->st_uid = x->uid; st->st_gid = x->gid; st->st_size = x->len; st->st_nlink = 1;
}
EXPORT int stat(const char *p, struct stat *st) {
    if (!sim) return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
    struct ent *x; int e = stat_lookup(p, &x, "stat");
    if (e) return fail(e);
    fill(st, x); return 0;
}
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) {
    if (!sim) return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
    return stat(p, st);
}
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) {
    if (!sim) return syscall(SYS_newfstatat, d, p, st, fl);
    return stat(p, st);
}
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
EXPORT int fstat(int fd, struct stat *st) {
    if (!is_fake(fd)) return syscall(SYS_fstat, fd, st);
    struct fdent *f = fdof(fd);
    if (!f || !f->e) return fail(EBADF);
    fill(st, f->e); return 0;
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
    if (!sim) return syscall(SYS_statx, d, p, fl, mask, sx);
    struct ent *x = NULL;
    const char *volatile vp = p; struct statx *volatile vsx = sx;
    if (!vsx || !vp) return fail(EFAULT);   /* std probes for statx this way */
    if ((!p || !*p) && (fl & AT_EMPTY_PATH)) {
        struct fdent *f = fdof(d);
        if (!f || !f->e) return fail(EBADF);
        x = f->e;
    } else {
        int e = stat_lookup(p, &x, "statx");
        if (e) return fail(e);
    }
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = tmode(x); sx->stx_uid = x->uid; sx->stx_gid = x->gid;
    sx->stx_size = x->len; sx->stx_nlink = 1; sx->stx_blksize = 4096;
    return 0;
}
EXPORT int unlink(const char *p) {
    if (!sim) return syscall(SYS_unlink, p);
    int e = fault("unlink");
    struct ent *x = lookup(p);
    if (!e && !x) e = ENOENT;
    if (!e && x->type == T_DIR) e = EISDIR;
    ev("unlink path=%s type=%c = %d %d", hexs(p), x ? x->type : '-', e ? -1 : 0, e);
    if (e) return fail(e);
    x->alive = 0;
    return 0;
}
EXPORT int unlinkat(int d, const char *p, int fl) {
    if (!sim) return syscall(SYS_unlinkat, d, p, fl);
    return unlink(p);
}
EXPORT int chown(const char *p, uid_t u, gid_t g) {
    if (!sim) return syscall(SYS_chown, p, u, g);
    int e = fault("chown");
    struct ent *x = lookup(p);
    if (!e && !x) e = ENOENT;
    ev("chown path=%s uid=%u gid=%u mode=%o = %d %d", hexs(p), u, g, x ? x->mode : 0, e ? -1 : 0, e);
    if (e) return fail(e);
    if (u != (uid_t)-1) x->uid = u;
    if (g != (gid_t)-1) x->gid = g;
    return 0;
}
EXPORT int lchown(const char *p, uid_t u, gid_t g) { if (!sim) return syscall(SYS_lchown, p, u, g); return chown(p, u, g); }
EXPORT int fchownat(int d, const char *p, uid_t u, gid_t g, int fl) { if (!sim) return syscall(SYS_fchownat, d, p, u, g, fl); return chown(p, u, g); }
EXPORT int chmod(const char *p, mode_t m) {
    if (!sim) return syscall(SYS_chmod, p, m);
    int e = fault("chmod");
    struct ent *x = lookup(p);
    if (!e && !x) e = ENOENT;
    ev("chmod path=%s mode=%o = %d %d", hexs(p), m, e ? -1 : 0, e);
    if (e) return fail(e);
    x->mode = m & 07777;
    return 0;
}
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) { if (!sim) return syscall(SYS_fchmodat, d, p, m); return chmod(p, m); }
EXPORT int fchmod(int fd, mode_t m) { if (!sim) return syscall(SYS_fchmod, fd, m); ev("fchmod mode=%o = 0 0", m); return 0; }
EXPORT int fchown(int fd, uid_t u, gid_t g) { if (!sim) return syscall(SYS_fchown, fd, u, g); ev("fchown uid=%u gid=%u = 0 0", u, g); return 0; }
#define DENY2(name, nr) EXPORT int name(const char *a, const char *b) { if (!sim) return syscall(nr, a, b); ev("other " #name " %s", hexs(a)); return fail(EPERM); }
DENY2(rename, SYS_rename)
DENY2(link, SYS_link)
DENY2(symlink, SYS_symlink)
EXPORT int mkdir(const char *p, mode_t m) { if (!sim) return syscall(SYS_mkdir, p, m); ev("other mkdir %s", hexs(p)); return fail(EPERM); }
EXPORT int rmdir(const char *p) { if (!sim) return syscall(SYS_rmdir, p); ev("other rmdir %s", hexs(p)); return fail(EPERM); }
EXPORT mode_t umask(mode_t m) {
    if (!sim) return syscall(SYS_umask, m);
    unsigned o = cur_umask;
    cur_umask = m & 0777;
    ev("umask new=%o old=%o", m, o);
    return o;
}

/* ------------------------------------------------ interposed: process */
EXPORT uid_t geteuid(void) { return sim ? s_euid : (uid_t)syscall(SYS_geteuid); }
EXPORT uid_t getuid(void) { return sim ? s_ruid : (uid_t)syscall(SYS_getuid); }
EXPORT gid_t getgid(void) { return sim ? s_rgid : (gid_t)syscall(SYS_getgid); }
EXPORT gid_t getegid(void) { return sim ? s_egid : (gid_t)syscall(SYS_getegid); }
EXPORT int sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
    static int (*real)(int, const struct sigaction *, struct sigaction *);
    if (!sim) {
        if (!real) real = dlsym(RTLD_NEXT, "sigaction");
        return real(sig, n, o);
    }
    int e = fault("sigaction");
    if (e) { ev("sigaction sig=%d set=%d = -1 %d", sig, n != NULL, e); return fail(e); }
    if (sig != SIGINT) { ev("sigaction sig=%d set=%d other = 0 0", sig, n != NULL); if (o) memset(o, 0, sizeof *o); return 0; }
    struct sigaction old = cur_sa;
    if (n) cur_sa = *n;
    ev("sigaction sig=%d set=%d %s = 0 0", sig, n != NULL, sastate());
    if (o) *o = old;
    return 0;
}
EXPORT void (*signal(int sig, void (*h)(int)))(int) {
    struct sigaction n, o;
    memset(&n, 0, sizeof n);
    n.sa_handler = h; n.sa_flags = SA_RESTART;
    if (sigaction(sig, &n, &o)) return SIG_ERR;
    return o.sa_handler;
}

/* --------------------------------------------- sudo's message function */
static int pf_fail_at = -1, pf_calls;
static int my_printf(int type, const char *fmt, ...) {
    pf_calls++;
    char out[1 << 16];
    size_t n = 0;
    int odd = 0;
    va_list ap;
    va_start(ap, fmt);
    for (const char *p = fmt; *p && n < sizeof out - 64; p++) {
        if (*p != '%') { out[n++] = *p; continue; }
        p++;
        if (*p == '%') { out[n++] = '%'; continue; }
        if (*p == 's' && !odd && !strcmp(fmt, "%s")) {
            const char *s = va_arg(ap, const char *);
            size_t k = strlen(s);
            if (k > sizeof out - 64 - n) k = sizeof out - 64 - n;
            memcpy(out + n, s, k); n += k;
            continue;
        }
        if (*p == '.' && p[1] == '*' && p[2] == 's' && !strcmp(fmt, "%.*s")) {
            int w = va_arg(ap, int);
            const char *s = va_arg(ap, const char *);
            size_t k = strnlen(s, w < 0 ? sizeof out : (size_t)w);
            if (k > sizeof out - 64 - n) k = sizeof out - 64 - n;
            memcpy(out + n, s, k); n += k; p += 2;
            continue;
        }
        /* any other conversion would read arguments nobody passed */
        odd = 1;
        if (!*p) break;
        out[n++] = '?';
    }
    va_end(ap);
    int f = pf_fail_at >= 0 && pf_calls > pf_fail_at;
    ev("printf level=%d odd=%d fmt=%s text=%s = %d", type, odd, hexs(fmt), hex(out, n), f ? -1 : (int)n);
    if (f) { errno = EIO; return -1; }
    return n;
}

/* ------------------------------- callbacks of the test plugin come here */
EXPORT int verif_cb(const char *name, const unsigned char *b, size_t n) {
    ev("cb %s %s", name, hex(b, n));
    int k = 0;
    for (int i = 0; i < ncbcounts; i++) if (!strcmp(cbcounts[i].call, name)) { k = ++cbcounts[i].n; break; }
    if (!k) { strncpy(cbcounts[ncbcounts].call, name, 15); cbcounts[ncbcounts++].n = 1; k = 1; }
    for (int i = 0; i < ncbs; i++) if (!strcmp(cbs[i].name, name) && (cbs[i].nth == 0 || cbs[i].nth == k)) return cbs[i].code;
    return 0;
}

/* ------------------------------------------------------------- scenario */
static struct io_plugin *plugin;
static struct approval_plugin *approval;
static char **arrs[8];
static const char *arrname[] = { "settings", "user_info", "command_info", "argv", "env", "options" };
static int arrnull[8];
static int arrlen[8];

static void on_sig(int s) { if (s == SIGPROF) s = SIGALRM; char b[64]; int n = snprintf(b, sizeof b, "ret %s signal %d\nend\n", cur_sig, s); raw_write(b, n); syscall(SYS_exit_group, 0); }

/* array memory with a poisoned entry after the terminating null */
static void set_arr(int k, char **v, int n) {
    char **a = calloc(n + 2, sizeof *a);
    for (int i = 0; i < n; i++) a[i] = v[i];
    a[n] = NULL;
    a[n + 1] = (char *)"POISON=1";
    arrs[k] = a; arrlen[k] = n; arrnull[k] = 0;
}

static void run(char *text) {
    unsigned version = (1u << 16) | 17;
    int have_printf = 1, argc_override = -1000, argc;
    for (int k = 0; k < 6; k++) set_arr(k, NULL, 0);
    memset(&cur_sa, 0, sizeof cur_sa);
    cur_sa.sa_flags = SA_RESTART;
    cur_sa.sa_handler = (void *)0x1234;
    char *save = NULL;
    for (char *line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
        static char *w[20000]; int n = 0; char *s2 = NULL;
        for (char *t = strtok_r(line, " ", &s2); t && n < 20000; t = strtok_r(NULL, " ", &s2)) w[n++] = t;
        if (!n) continue;
        if (!strcmp(w[0], "arr")) {
            int k; for (k = 0; k < 6; k++) if (!strcmp(arrname[k], w[1])) break;
            if (k == 6) { ev("badscenario %s", w[1]); continue; }
            if (n == 3 && !strcmp(w[2], "NULL")) { arrnull[k] = 1; continue; }
            static char *v[20000]; int m = 0;
            for (int i = 2; i < n; i++) v[m++] = (char *)unhex(w[i], NULL);
            set_arr(k, v, m);
        } else if (!strcmp(w[0], "set")) {
            long v = strtol(w[2], NULL, 0);
            if (!strcmp(w[1], "version")) version = strtoul(w[2], NULL, 0);
            else if (!strcmp(w[1], "printf")) have_printf = v;
            else if (!strcmp(w[1], "printf_fail")) pf_fail_at = v;
            else if (!strcmp(w[1], "argc")) argc_override = v;
            else if (!strcmp(w[1], "euid")) s_euid = strtoul(w[2], NULL, 0);
            else if (!strcmp(w[1], "fdbase")) FD0 = v;
            else if (!strcmp(w[1], "ruid")) s_ruid = strtoul(w[2], NULL, 0);
            else if (!strcmp(w[1], "rgid")) s_rgid = strtoul(w[2], NULL, 0);
            else if (!strcmp(w[1], "egid")) s_egid = strtoul(w[2], NULL, 0);
            else if (!strcmp(w[1], "umask")) cur_umask = strtoul(w[2], NULL, 8);
            else if (!strcmp(w[1], "sa_flags")) cur_sa.sa_flags = strtoul(w[2], NULL, 16);
            else if (!strcmp(w[1], "sa_handler")) cur_sa.sa_handler = (void *)strtoul(w[2], NULL, 16);
            else if (!strcmp(w[1], "sa_mask")) { unsigned long m = strtoul(w[2], NULL, 16); memcpy(&cur_sa.sa_mask, &m, sizeof m); }
            else ev("badscenario %s", w[1]);
        } else if (!strcmp(w[0], "ent")) {
            /* ent type path mode uid gid [content [open_errno [read_fail_at read_errno [write_errno [eintr [stat_errno]]]]]] */
            struct ent *e = &ents[nents++];
            memset(e, 0, sizeof *e);
            e->type = w[1][0]; e->path = (char *)unhex(w[2], NULL);
            e->mode = strtoul(w[3], NULL, 8); e->uid = strtoul(w[4], NULL, 0); e->gid = strtoul(w[5], NULL, 0);
            e->alive = 1; e->read_fail_at = -1; e->data = (unsigned char *)"";
            if (n > 6) e->data = unhex(w[6], &e->len);
            if (n > 7) e->open_errno = atoi(w[7]);
            if (n > 9) { e->read_fail_at = atol(w[8]); e->read_errno = atoi(w[9]); }
            if (n > 10) e->write_errno = atoi(w[10]);
            if (n > 11) e->eintr_once = atoi(w[11]);
            if (n > 12) e->stat_errno = atoi(w[12]);
        } else if (!strcmp(w[0], "fault")) {
            strncpy(faults[nfaults].call, w[1], 15); faults[nfaults].nth = atoi(w[2]); faults[nfaults].err = atoi(w[3]); nfaults++;
        } else if (!strcmp(w[0], "rd")) {
            struct rd *r = &rds[nrds++];
            r->kind = w[1][0];
            if (r->kind == 'd') r->data = unhex(w[2], &r->len);
            if (r->kind == 'e') r->err = atoi(w[2]);
        } else if (!strcmp(w[0], "wr")) {
            wrs[nwrs].kind = w[1][0]; wrs[nwrs].n = atol(w[2]); nwrs++;
        } else if (!strcmp(w[0], "cb")) {
            strncpy(cbs[ncbs].name, w[1], 23); cbs[ncbs].nth = atoi(w[2]); cbs[ncbs].code = atoi(w[3]); ncbs++;
        } else if (!strcmp(w[0], "call")) {
            char *c = w[1];
            const char *err = NULL;
            int r = 0, isvoid = 0;
            cur_sig = c;
            ev("call %s", c);
            if (approval) {
                sim = 1;
                if (!strcmp(c, "open"))
                    r = approval->open(version, NULL, have_printf ? my_printf : NULL, arrs[0], arrs[1], 1, arrs[3], arrs[4], arrnull[5] ? NULL : arrs[5], &err);
                else if (!strcmp(c, "check")) r = approval->check(arrs[2], arrs[3], arrs[4], &err);
                else if (!strcmp(c, "show_version")) r = approval->show_version(atoi(w[2]));
                sim = 0;
                ev("ret %s %d err=%s", c, r, err ? hexs(err) : "NULL");
                continue;
            }
            size_t len = 0; unsigned char *d = (unsigned char *)"";
            if (n > 2 && !strncmp(c, "log_", 4)) d = unhex(w[2], &len);
            /* exact-size copy, so that reading past the end is out of the block */
            unsigned char *x = malloc(len ? len : 1); memcpy(x, d, len);
            argc = argc_override != -1000 ? argc_override : arrlen[3];
            sim = 1;
            if (!strcmp(c, "open"))
                r = plugin->open(version, NULL, have_printf ? my_printf : NULL,
                    arrnull[0] ? NULL : arrs[0], arrnull[1] ? NULL : arrs[1], arrnull[2] ? NULL : arrs[2],
                    argc, arrnull[3] ? NULL : arrs[3], arrnull[4] ? NULL : arrs[4], arrnull[5] ? NULL : arrs[5], &err);
            else if (!strcmp(c, "close")) { plugin->close(atoi(w[2]), atoi(w[3])); isvoid = 1; }
            else if (!strcmp(c, "show_version")) r = plugin->show_version(atoi(w[2]));
            else if (!strcmp(c, "log_ttyin")) r = plugin->log_ttyin((char *)x, len, &err);
            else if (!strcmp(c, "log_ttyout")) r = plugin->log_ttyout((char *)x, len, &err);
            else if (!strcmp(c, "log_stdin")) r = plugin->log_stdin((char *)x, len, &err);
            else if (!strcmp(c, "log_stdout")) r = plugin->log_stdout((char *)x, len, &err);
            else if (!strcmp(c, "log_stderr")) r = plugin->log_stderr((char *)x, len, &err);
            else if (!strcmp(c, "winsize")) r = plugin->change_winsize(strtoul(w[2], NULL, 0), strtoul(w[3], NULL, 0), &err);
            else ev("badscenario %s", c);
            sim = 0;
            if (isvoid) ev("ret %s void", c); else ev("ret %s %d", c, r);
        } else ev("badscenario %s", w[0]);
    }
    unsigned long m = 0;
    memcpy(&m, &cur_sa.sa_mask, sizeof m);
    struct ent *e = bound_path[0] ? lookup(bound_path) : NULL;
    ev("final umask=%o %s sockfile=%d conns=%d", cur_umask, sastate(), e != NULL, conn_alive);
    for (int i = 0; i < nents; i++) ev("fent path=%s type=%c alive=%d mode=%o uid=%u gid=%u", hexs(ents[i].path), ents[i].type, ents[i].alive, ents[i].mode, ents[i].uid, ents[i].gid);
}

static void show_table(void) {
    unsigned char *b = (void *)plugin;
    ev("table size=%zu type=%u version=%u", sizeof *plugin, plugin->type, plugin->version);
    (void)b;
#define SLOT(f) { Dl_info i; int ok = plugin->f && dladdr((void *)(uintptr_t)plugin->f, &i); ev("slot %s set=%d inobj=%d", #f, plugin->f != NULL, ok); }
    SLOT(open) SLOT(close) SLOT(show_version) SLOT(log_ttyin) SLOT(log_ttyout) SLOT(log_stdin) SLOT(log_stdout)
    SLOT(log_stderr) SLOT(register_hooks) SLOT(deregister_hooks) SLOT(change_winsize) SLOT(log_suspend) SLOT(event_alloc)
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    setenv("RUST_BACKTRACE", "0", 1);
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
    plugin = dlsym(h, argv[2]);
    if (!plugin) { fprintf(stderr, "no symbol %s\n", argv[2]); return 2; }
    if (*(unsigned *)plugin == 4) { approval = (void *)plugin; }
    if (argc > 3 && !strcmp(argv[3], "--table")) { show_table(); return 0; }

    size_t cap = 1 << 20, len = 0;
    char *in = malloc(cap);
    ssize_t r;
    while ((r = syscall(SYS_read, 0, in + len, cap - len - 1)) > 0) { len += r; if (cap - len < 2) in = realloc(in, cap *= 2); }
    in[len] = 0;
    char *p = in;
    while (p && *p) {
        if (strncmp(p, "== ", 3)) { fprintf(stderr, "bad input\n"); return 2; }
        char *nl = strchr(p, '\n');
        *nl = 0;
        char *body = nl + 1;
        char *next = strstr(body, "\n== ");
        if (!strncmp(body, "== ", 3)) { next = body; }
        else if (next) { *next = 0; next++; }
        ev("%s", p);
        if (next != body) {
            pid_t c = fork();
            if (c == 0) {
                int nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY);
                if (nul >= 0 && !getenv("VERIF_STDERR")) syscall(SYS_dup2, nul, 2);
                if (syscall(SYS_geteuid) == 0) { syscall(SYS_setresgid, 65534, 65534, 65534); syscall(SYS_setresuid, 65534, 65534, 65534); }
                struct sigaction sa; memset(&sa, 0, sizeof sa);
                sa.sa_handler = on_sig;
                int sigs[] = { SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGTRAP, SIGPIPE, SIGPROF };
                static char alt[65536];
                stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
                sigaltstack(&ss, NULL);
                sa.sa_flags = SA_ONSTACK;
                for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
                struct itimerval it = { .it_value = { .tv_sec = 20 } }, cpu = { .it_value = { .tv_usec = 700000 } };
                const char *limit = getenv("VERIF_LIMIT");      /* seconds, when a run that was too slow is repeated */
                if (limit) { it.it_value.tv_sec = 6 * atoi(limit); cpu.it_value.tv_sec = atoi(limit); }
                setitimer(ITIMER_REAL, &it, NULL);
                setitimer(ITIMER_PROF, &cpu, NULL);
                emitted = 0;
                run(body);
                ev("end");
                syscall(SYS_exit_group, 0);
            }
            int st;
            waitpid(c, &st, 0);
        }
        p = next;
    }
    return 0;
}
