/* Gates for the control tests: every call by which a daemon or a control request can affect files, locks or
 * other processes waits for the driver's leave (socket CTL_SOCK), which may also answer it itself. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <unistd.h>

#define R(f) __real_##f
extern int R(open)(const char *, int, ...), R(open64)(const char *, int, ...), R(fcntl)(int, int, ...), R(fcntl64)(int, int, ...);
extern int R(kill)(pid_t, int), R(killpg)(pid_t, int), R(unlink)(const char *), R(remove)(const char *), R(rename)(const char *, const char *);
extern FILE *R(fopen)(const char *, const char *), *R(fopen64)(const char *, const char *);
extern int R(bind)(int, const struct sockaddr *, socklen_t);
extern int R(poll)(struct pollfd *, nfds_t, int), R(ppoll)(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
extern int R(select)(int, fd_set *, fd_set *, fd_set *, struct timeval *), R(epoll_wait)(int, struct epoll_event *, int, int);

static const char *sock, *id, *dir;
static int fd = -1, up;
static pid_t owner;

__attribute__((constructor)) static void init(void)
{
    sock = getenv("CTL_SOCK"); id = getenv("CTL_ID"); dir = getenv("CTL_DIR");
    if (sock) sock = strdup(sock);
    if (id) id = strdup(id);
    if (dir) dir = strdup(dir);
}

static int ctl(void)
{
    struct sockaddr_un a;
    char b[64];
    int n;
    if (!sock || !id || !dir) return -1;
    if (fd >= 0 && owner == getpid()) return fd;
    if (fd >= 0) close(fd);
    n = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    snprintf(a.sun_path, sizeof a.sun_path, "%s", sock);
    if (n < 0 || connect(n, (struct sockaddr *) &a, sizeof a) < 0) { if (n >= 0) close(n); return fd = -1; }
    fd = R(fcntl)(n, F_DUPFD_CLOEXEC, 900);
    if (fd < 0) fd = n; else close(n);
    owner = getpid();
    n = snprintf(b, sizeof b, "H %s %d %d", id, (int) owner, (int) getpgrp());
    send(fd, b, n, MSG_NOSIGNAL);
    return fd;
}

/* Returns 1 if the driver has answered the call: *ret is its result (and errno is set). */
static int gate(int *ret, const char *fmt, ...)
{
    char b[4400];
    va_list ap;
    int n, k, e = errno, s = ctl(), err = 0;
    if (s < 0) { errno = e; return 0; }
    va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n >= (int) sizeof b) n = sizeof b - 1;
    send(s, b, n, MSG_NOSIGNAL);
    do n = recv(s, b, sizeof b - 1, 0); while (n < 0 && errno == EINTR);
    errno = e;
    if (n <= 0) { if (n == 0) _exit(99); return 0; }
    b[n] = 0;
    if (b[0] == 'f' && sscanf(b, "f %d %d", &k, &err) == 2) { *ret = k; errno = err; return 1; }
    return 0;
}
static void done(long r)
{
    char b[64];
    int e = errno, n, s = ctl();
    if (s >= 0) { n = snprintf(b, sizeof b, "D %ld %d", r, r < 0 ? e : 0); send(s, b, n, MSG_NOSIGNAL); }
    errno = e;
}
static int mine(const char *p) { return dir && p && strncmp(p, dir, strlen(dir)) == 0; }

#define OPEN(name) \
int __wrap_##name(const char *p, int fl, ...) \
{ \
    va_list ap; int m, r; \
    va_start(ap, fl); m = va_arg(ap, int); va_end(ap); \
    if (!mine(p)) return R(name)(p, fl, m); \
    if (gate(&r, "G open %s", p)) return r; \
    r = R(name)(p, fl, m); done(r); return r; \
}
OPEN(open)
OPEN(open64)
#define FOPEN(name) \
FILE *__wrap_##name(const char *p, const char *m) \
{ \
    FILE *f; int r; \
    if (!mine(p)) return R(name)(p, m); \
    if (gate(&r, "G fopen%s %s", m, p)) return NULL; \
    f = R(name)(p, m); done(f ? 0 : -1); return f; \
}
FOPEN(fopen)
FOPEN(fopen64)
#define FCNTL(name) \
int __wrap_##name(int f, int c, ...) \
{ \
    va_list ap; void *a; int r; \
    va_start(ap, c); a = va_arg(ap, void *); va_end(ap); \
    if (c != F_SETLK && c != F_SETLKW && c != F_GETLK) return R(name)(f, c, a); \
    if (gate(&r, "G %s", c == F_GETLK ? "testlk" : "setlk")) return r; \
    r = R(name)(f, c, a); done(r); return r; \
}
FCNTL(fcntl)
FCNTL(fcntl64)
int __wrap_kill(pid_t p, int s)
{
    int r;
    if (gate(&r, "G kill %d %d", (int) p, s)) return r;
    r = R(kill)(p, s); done(r); return r;
}
int __wrap_killpg(pid_t p, int s) { return __wrap_kill(-p, s); }
int __wrap_unlink(const char *p)
{
    int r;
    if (gate(&r, "G unlink %s", p)) return r;
    r = R(unlink)(p); done(r); return r;
}
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *p, const char *q)
{
    int r;
    if (gate(&r, "G rename %s %s", p, q)) return r;
    r = R(rename)(p, q); done(r); return r;
}
int __wrap_bind(int s, const struct sockaddr *a, socklen_t n)
{
    int r;
    if (a->sa_family != AF_INET && a->sa_family != AF_INET6) return R(bind)(s, a, n);
    if (gate(&r, "G bind")) return r;
    r = R(bind)(s, a, n); done(r); return r;
}
/* the first time it waits, it has started */
static void waits(void) { int r; if (!up) { up = 1; gate(&r, "G up"); } }
int __wrap_poll(struct pollfd *f, nfds_t n, int t) { waits(); return R(poll)(f, n, t); }
int __wrap_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *m) { waits(); return R(ppoll)(f, n, t, m); }
int __wrap_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t) { waits(); return R(select)(n, a, b, c, t); }
int __wrap_epoll_wait(int e, struct epoll_event *v, int n, int t) { waits(); return R(epoll_wait)(e, v, n, t); }

/* for the stand-in of libipmiconsole, which has nothing to do here */
void shim_event(const char *fmt, ...) { (void) fmt; }
int __real_connect(int s, const struct sockaddr *a, socklen_t n) { return connect(s, a, n); }
int __real_close(int f) { return close(f); }
