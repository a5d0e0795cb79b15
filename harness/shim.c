/* Controlled-environment shim for conmand.
 *
 * Linked into the real daemon with -Wl,--wrap=<call>.  It replaces the operating
 * system's timing and scheduling choices by the driver's: the clock is virtual,
 * poll() in the main thread is a gate at which the driver decides what happens
 * next, client threads run one at a time and only while the main thread is at the
 * gate, and reads/writes can be cut short or failed.  Every call that crosses the
 * process boundary is logged to the driver in the order the daemon made it.
 * Without CONSHIM_SOCK in the environment every wrapper is a plain call.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#define R(name) __real_##name
extern int R(poll)(struct pollfd *, nfds_t, int);
extern int R(gettimeofday)(struct timeval *, void *);
extern time_t R(time)(time_t *);
extern int R(clock_gettime)(clockid_t, struct timespec *);
extern ssize_t R(read)(int, void *, size_t);
extern ssize_t R(readv)(int, const struct iovec *, int);
extern ssize_t R(recv)(int, void *, size_t, int);
extern ssize_t R(write)(int, const void *, size_t);
extern ssize_t R(writev)(int, const struct iovec *, int);
extern ssize_t R(send)(int, const void *, size_t, int);
extern int R(accept)(int, struct sockaddr *, socklen_t *);
extern int R(accept4)(int, struct sockaddr *, socklen_t *, int);
extern int R(connect)(int, const struct sockaddr *, socklen_t);
extern int R(close)(int);
extern int R(open)(const char *, int, ...);
extern int R(open64)(const char *, int, ...);
extern pid_t R(fork)(void);
extern int R(kill)(pid_t, int);
extern int R(killpg)(pid_t, int);
extern int R(pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern int R(tcsendbreak)(int, int);
extern int R(getpeername)(int, struct sockaddr *, socklen_t *);
extern int R(getsockopt)(int, int, int, void *, socklen_t *);
extern int R(socketpair)(int, int, int, int *);
extern int R(tcsetattr)(int, int, const struct termios *);
extern void *R(realloc)(void *, size_t);
extern int R(nanosleep)(const struct timespec *, struct timespec *);
extern int R(usleep)(useconds_t);
extern unsigned R(sleep)(unsigned);
extern int R(shutdown)(int, int);
struct hostent;
extern struct hostent *R(gethostbyname)(const char *);

static int ctl = -1;                    /* command socket, -1: shim inactive */
static int in_child = 0;
static int bind0;                       /* listen on any free port */
static pid_t main_tid;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int self = -1;          /* index in thr[], -1: main (or foreign) */
static int64_t vnow;                    /* virtual time, microseconds since epoch */

#define MAXFD 4096
static long credit[MAXFD];              /* bytes that may still be written; -1 no limit */
static long rcap[MAXFD];                /* cap on the size of one read; 0 none */
struct fault { int kind, fd, err, used; char path[256]; };
static struct fault faults[64];
static int nfaults;
static char connecting[MAXFD];          /* the outcome of connect() is not known yet */
static long conn_credit = -1;           /* initial write credit of outgoing connections */
static int hold_mode;                   /* hold client threads before they write */

enum { T_START, T_RUN, T_READ, T_HELD, T_WRITE, T_DONE };
struct thr { int state, fd, grant, ops; void *(*fn)(void *); void *arg; };
#define MAXTHR 8192
static struct thr thr[MAXTHR];
static int nthr;

static void *gate_fds;
static int at_gate;

static int active(void) { return ctl >= 0 && !in_child; }
static int is_main(void) { return self < 0; }

static void xmit(const char *p, size_t n)
{
    while (n > 0) {
        ssize_t k = R(send)(ctl, p, n, MSG_NOSIGNAL);
        if (k < 0) {
            if (errno == EINTR)
                continue;
            _exit(97);                  /* driver is gone */
        }
        p += k; n -= k;
    }
}

static void ev(const char *fmt, ...)
{
    char b[4096];
    va_list ap;
    int n, e = errno;
    va_start(ap, fmt);
    n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof(b) - 2) n = sizeof(b) - 2;
    b[n++] = '\n';
    xmit(b, n);
    errno = e;
}

void shim_event(const char *fmt, ...)
{
    char b[2048];
    va_list ap;
    if (!active()) return;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    ev("%s", b);
}
extern void shim_ipmi_cmd(const char *line) __attribute__((weak));

static int spin = 0;
static void evdata(const char *tag, int fd, const struct iovec *iov, int cnt, size_t n)
{
    static const char hx[] = "0123456789abcdef";
    int e = errno;
    size_t k = 0, j;
    int i;
    char *b = malloc(2 * n + 128);
    spin = 0;                                /* not going round for nothing */
    if (is_main())
        k = sprintf(b, "%s %d ", tag, fd);
    else
        k = sprintf(b, "t%s %d ", tag, fd);
    for (i = 0; i < cnt && n > 0; i++) {
        const unsigned char *p = iov[i].iov_base;
        for (j = 0; j < iov[i].iov_len && n > 0; j++, n--) {
            b[k++] = hx[p[j] >> 4];
            b[k++] = hx[p[j] & 15];
        }
    }
    b[k++] = '\n';
    xmit(b, k);
    free(b);
    errno = e;
}

static void hexs(char *dst, const char *s, size_t max)
{
    size_t k = 0;
    for (; *s && k + 3 < max; s++, k += 2)
        sprintf(dst + k, "%02x", (unsigned char) *s);
    dst[k] = 0;
}

static int fault_take(int kind, int fd, const char *path)
{
    int i;
    if (!nfaults) return 0;
    for (i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (f->used == 0 || f->kind != kind) continue;
        if (f->fd >= 0 && f->fd != fd) continue;
        if (f->path[0]) {                       /* a trailing * stands for anything */
            size_t k = strlen(f->path);
            if (!path || (f->path[k - 1] == '*' ? strncmp(f->path, path, k - 1) : strcmp(f->path, path))) continue;
        }
        if (f->used > 0) f->used--;
        return f->err;
    }
    return 0;
}

/* A signal that arrives right after the n-th call of some kind */
static int strike_kind, strike_n, strike_sig;
static void strike(int kind)
{
    if (kind != strike_kind || !is_main() || --strike_n > 0) return;
    strike_kind = 0;
    if (strike_sig == SIGHUP) ev("hp");
    raise(strike_sig);
}

__attribute__((constructor)) static void init(void)
{
    char *s = getenv("CONSHIM_SOCK"), *t = getenv("CONSHIM_T0");
    struct sockaddr_un a;
    int i, fd;
    main_tid = syscall(SYS_gettid);
    if (!s) return;
    fd = socket(AF_UNIX, SOCK_STREAM, 0);
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, s, sizeof(a.sun_path) - 1);
    if (fd < 0 || R(connect)(fd, (void *) &a, sizeof a) < 0) _exit(96);
    /* keep the low descriptor numbers as they would be without the shim */
    i = fcntl(fd, F_DUPFD_CLOEXEC, 900);
    if (i < 0) i = fcntl(fd, F_DUPFD_CLOEXEC, 200);
    R(close)(fd);
    for (fd = 0; fd < MAXFD; fd++) credit[fd] = -1;
    vnow = (t ? strtoll(t, NULL, 10) : 1000000000LL) * 1000000LL;
    bind0 = getenv("CONSHIM_BIND0") != NULL;
    unsetenv("CONSHIM_BIND0");
    unsetenv("CONSHIM_SOCK");
    unsetenv("CONSHIM_T0");
    ctl = i;
    ev("HELLO %d", (int) getpid());
}

/* ---------------------------------------------------------------- clock */
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!active()) return R(gettimeofday)(tv, tz);
    tv->tv_sec = vnow / 1000000; tv->tv_usec = vnow % 1000000;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    time_t v;
    if (!active()) return R(time)(t);
    v = vnow / 1000000;
    if (t) *t = v;
    return v;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!active()) return R(clock_gettime)(c, ts);
    ts->tv_sec = vnow / 1000000; ts->tv_nsec = (vnow % 1000000) * 1000;
    return 0;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
    if (!active()) return R(nanosleep)(a, b);
    if (is_main()) ev("Zsleep %ld", (long) (a->tv_sec * 1000 + a->tv_nsec / 1000000));
    vnow += (int64_t) a->tv_sec * 1000000 + a->tv_nsec / 1000;
    return 0;
}
int __wrap_usleep(useconds_t u)
{
    if (!active()) return R(usleep)(u);
    if (is_main()) ev("Zsleep %ld", (long) (u / 1000));
    vnow += u;
    return 0;
}
unsigned __wrap_sleep(unsigned s)
{
    if (!active()) return R(sleep)(s);
    if (is_main()) ev("Zsleep %ld", (long) s * 1000);
    vnow += (int64_t) s * 1000000;
    return 0;
}

/* -------------------------------------------------------------- threads */
/* A client thread stops here until the main thread (at its gate) lets it run. */
static void park(int state, int fd)
{
    int i = self;
    pthread_mutex_lock(&mu);
    thr[i].state = state;
    thr[i].fd = fd;
    thr[i].grant = 0;
    thr[i].ops = 0;
    pthread_cond_broadcast(&cv);
    while (!thr[i].grant)
        pthread_cond_wait(&cv, &mu);
    thr[i].state = T_RUN;
    pthread_mutex_unlock(&mu);
}

static void thread_end(void *arg)
{
    int i = (int) (intptr_t) arg;
    pthread_mutex_lock(&mu);
    thr[i].state = T_DONE;
    ev("tx %d", i);
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
}

static void *thread_main(void *arg)
{
    int i = (int) (intptr_t) arg;
    void *r = NULL;
    self = i;
    park(T_START, -1);
    pthread_cleanup_push(thread_end, arg);
    r = thr[i].fn(thr[i].arg);
    pthread_cleanup_pop(1);
    return r;
}

int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a,
    void *(*fn)(void *), void *arg)
{
    int i, e;
    if (!active()) return R(pthread_create)(t, a, fn, arg);
    if ((e = fault_take('p', -1, NULL))) { ev("pt %d", e); return e; }
    pthread_mutex_lock(&mu);
    if (nthr == MAXTHR) { pthread_mutex_unlock(&mu); return EAGAIN; }
    i = nthr++;
    thr[i].state = T_START; thr[i].fn = fn; thr[i].arg = arg; thr[i].grant = 0;
    pthread_mutex_unlock(&mu);
    ev("t %d", i);
    e = R(pthread_create)(t, a, thread_main, (void *) (intptr_t) i);
    if (e) thr[i].state = T_DONE;
    return e;
}

static int readable(int fd)
{
    struct pollfd p = { fd, POLLIN, 0 };
    return R(poll)(&p, 1, 0) > 0;
}

static int release_idx = -1;

/* Runs client threads, one at a time, until none can go on. */
static void run_threads(void)
{
    int i;
    struct timespec ts;
    pthread_mutex_lock(&mu);
again:
    for (i = 0; i < nthr; i++) {
        struct thr *t = &thr[i];
        int go = 0;
        if (t->state == T_DONE) continue;
        if (t->state == T_START && 1) go = 1;
        if (t->state == T_READ) {
            go = readable(t->fd);
        }
        if (t->state == T_WRITE && credit[t->fd] != 0) go = 1;
        if (t->state == T_HELD && (!hold_mode || release_idx == i)) {
            go = 1;
            if (release_idx == i) release_idx = -1;
        }
        if (!go) continue;
        t->grant = 1;
        t->state = T_RUN;
        pthread_cond_broadcast(&cv);
        R(clock_gettime)(CLOCK_REALTIME, &ts);
        ts.tv_sec += 20;
        while (t->state == T_RUN) {
            if (pthread_cond_timedwait(&cv, &mu, &ts) == ETIMEDOUT && t->state == T_RUN) {
                ev("Zthreadhang %d", i);
                break;
            }
        }
        goto again;
    }
    pthread_mutex_unlock(&mu);
}

/* ------------------------------------------------------------------ I/O */
static long rlimit(int fd, size_t n)
{
    if (fd >= 0 && fd < MAXFD && rcap[fd] > 0 && (size_t) rcap[fd] < n) return rcap[fd];
    return n;
}

static void rd_wait(int fd)
{
    if (is_main()) return;
    if (!readable(fd)) park(T_READ, fd);
}

static ssize_t rd_done(int fd, struct iovec *v, ssize_t n)
{
    if (n <= 0 && !is_main() && ++thr[self].ops > 500) {     /* goes round and round */
        ev("Zthreadspin %d", self);
        _exit(98);
    }
    if (n > 0) evdata("r", fd, v, 1, n);
    else if (n == 0) ev("%se %d", is_main() ? "" : "t", fd);
    else if (errno != EAGAIN && errno != EINTR) ev("%sx %d %d", is_main() ? "" : "t", fd, errno);
    strike('r');
    return n;
}

ssize_t __wrap_read(int fd, void *b, size_t n)
{
    struct iovec v = { b, n };
    int e;
    if (!active()) return R(read)(fd, b, n);
    rd_wait(fd);
    if ((e = fault_take('r', fd, NULL))) { errno = e; return rd_done(fd, &v, -1); }
    return rd_done(fd, &v, R(read)(fd, b, rlimit(fd, n)));
}
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t m) { (void) m; return __wrap_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl)
{
    struct iovec v = { b, n };
    int e;
    ssize_t k;
    if (!active()) return R(recv)(fd, b, n, fl);
    rd_wait(fd);
    if ((e = fault_take('r', fd, NULL))) { errno = e; return rd_done(fd, &v, -1); }
    k = R(recv)(fd, b, rlimit(fd, n), fl);
    if (fl & MSG_PEEK) return k;
    return rd_done(fd, &v, k);
}
ssize_t __wrap_readv(int fd, const struct iovec *iov, int cnt)
{
    int e;
    ssize_t k;
    if (!active()) return R(readv)(fd, iov, cnt);
    rd_wait(fd);
    if ((e = fault_take('r', fd, NULL))) { errno = e; return rd_done(fd, NULL, -1); }
    k = R(readv)(fd, iov, cnt);
    if (k > 0) evdata("r", fd, iov, cnt, k);
    else rd_done(fd, NULL, k);
    return k;
}

/* Returns how many of n bytes may be written now, or -1 with errno set. */
static ssize_t wr_limit(int fd, size_t n)
{
    int e;
    if (!is_main() && hold_mode) park(T_HELD, fd);
    if ((e = fault_take('w', fd, NULL))) { errno = e; return -1; }
    if (fd < 0 || fd >= MAXFD || credit[fd] < 0) return n;
    while (!is_main() && credit[fd] == 0) park(T_WRITE, fd);      /* a blocking write */
    if (credit[fd] < 0) return n;
    if (credit[fd] == 0) { errno = EAGAIN; return -1; }
    return (size_t) credit[fd] < n ? (size_t) credit[fd] : n;
}
static void wr_done(int fd, const struct iovec *iov, int cnt, ssize_t n)
{
    if (n > 0) {
        if (fd < MAXFD && credit[fd] > 0) { credit[fd] -= n; if (credit[fd] < 0) credit[fd] = 0; }
        evdata("w", fd, iov, cnt, n);
    }
    else if (n < 0 && errno != EAGAIN && errno != EINTR)
        ev("%sy %d %d", is_main() ? "" : "t", fd, errno);
    if (n >= 0 || errno == EAGAIN || errno == EINTR) strike('w');
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    struct iovec v = { (void *) b, n };
    ssize_t k;
    if (!active()) return R(write)(fd, b, n);
    if (n == 0) return R(write)(fd, b, n);
    k = wr_limit(fd, n);
    if (k >= 0) k = R(write)(fd, b, k);
    wr_done(fd, &v, 1, k);
    return k;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl)
{
    struct iovec v = { (void *) b, n };
    ssize_t k;
    if (!active()) return R(send)(fd, b, n, fl);
    k = wr_limit(fd, n);
    if (k >= 0) k = R(send)(fd, b, k, fl);
    wr_done(fd, &v, 1, k);
    return k;
}
ssize_t __wrap_writev(int fd, const struct iovec *iov, int cnt)
{
    size_t n = 0;
    ssize_t k;
    int i;
    if (!active()) return R(writev)(fd, iov, cnt);
    for (i = 0; i < cnt; i++) n += iov[i].iov_len;
    k = wr_limit(fd, n);
    if (k >= 0 && (size_t) k < n) {
        char *t = malloc(n + 1);
        size_t o = 0;
        for (i = 0; i < cnt; i++) { memcpy(t + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
        k = R(write)(fd, t, k);
        { int e = errno; free(t); errno = e; }
    }
    else if (k >= 0)
        k = R(writev)(fd, iov, cnt);
    wr_done(fd, iov, cnt, k);
    return k;
}

/* -------------------------------------------------------------- sockets */
static void fd_fresh(int fd)
{
    if (fd >= 0 && fd < MAXFD) { credit[fd] = -1; connecting[fd] = 0; rcap[fd] = 0; }
}
static int accepted(int sd)
{
    if (sd >= 0) {
        struct sockaddr_in a;
        socklen_t l = sizeof a;
        int port = 0;
        fd_fresh(sd);
        if (R(getpeername)(sd, (void *) &a, &l) == 0) port = ntohs(a.sin_port);
        ev("a %d %d", sd, port);
    }
    else if (errno != EAGAIN && errno != EINTR)
        ev("A %d", errno);
    strike('a');
    return sd;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
    int e;
    if (!active()) return R(accept)(fd, a, l);
    if ((e = fault_take('a', -1, NULL))) { errno = e; return accepted(-1); }
    return accepted(R(accept)(fd, a, l));
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl)
{
    int e;
    if (!active()) return R(accept4)(fd, a, l, fl);
    if ((e = fault_take('a', -1, NULL))) { errno = e; return accepted(-1); }
    return accepted(R(accept4)(fd, a, l, fl));
}
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    int e;
    if (!active()) return R(getpeername)(fd, a, l);
    if ((e = fault_take('g', -1, NULL))) { ev("pg %d %d", fd, e); errno = e; return -1; }
    return R(getpeername)(fd, a, l);
}
int __wrap_getsockopt(int fd, int lv, int nm, void *v, socklen_t *l)
{
    int k;
    if (!active()) return R(getsockopt)(fd, lv, nm, v, l);
    k = R(getsockopt)(fd, lv, nm, v, l);
    if (k == 0 && lv == SOL_SOCKET && nm == SO_ERROR && *l >= sizeof(int)) {
        int e = fault_take('s', fd, NULL);
        if (e) *(int *) v = e;
        if (fd >= 0 && fd < MAXFD) connecting[fd] = 0;
        ev("g %d %d", fd, *(int *) v);
    }
    return k;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    int k, e, i;
    char d[600];
    if (!active()) return R(connect)(fd, a, l);
    if ((e = fault_take('c', fd, NULL))) { errno = e; k = -1; }
    else k = R(connect)(fd, a, l);
    e = errno;
    fd_fresh(fd);
    if (a->sa_family == AF_INET && fd >= 0 && fd < MAXFD) { credit[fd] = conn_credit; connecting[fd] = (k < 0); }
    d[0] = 0;
    if (a->sa_family == AF_UNIX) { d[0] = 'u'; hexs(d + 1, ((struct sockaddr_un *) a)->sun_path, sizeof(d) - 1); }
    else if (a->sa_family == AF_INET) {
        struct sockaddr_in *s = (void *) a;
        sprintf(d, "i%s:%d", inet_ntoa(s->sin_addr), ntohs(s->sin_port));
    }
    i = k < 0 ? e : 0;
    ev("n %d %d %s", fd, i, d);
    errno = e;
    return k;
}
extern int R(socket)(int, int, int);
int __wrap_socket(int d, int t, int p)
{
    int e;
    if (active() && (e = fault_take('S', -1, NULL))) { ev("S %d", e); errno = e; return -1; }
    return R(socket)(d, t, p);
}
int __wrap_socketpair(int d, int t, int p, int *sv)
{
    int k;
    if (!active()) return R(socketpair)(d, t, p, sv);
    if ((k = fault_take('2', -1, NULL))) { ev("k! %d", k); errno = k; return -1; }
    k = R(socketpair)(d, t, p, sv);
    if (k == 0) { fd_fresh(sv[0]); fd_fresh(sv[1]); ev("k %d %d", sv[0], sv[1]); }
    return k;
}
extern int R(bind)(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
    int k;
    if (!active() || a->sa_family != AF_INET) return R(bind)(fd, a, l);
    struct sockaddr_in s = *(struct sockaddr_in *) a, t = s;
    socklen_t n = sizeof t;
    if (bind0) s.sin_port = 0;
    k = R(bind)(fd, (void *) &s, sizeof s);
    if (k == 0) {
        int e = errno;
        getsockname(fd, (void *) &s, &n);
        ev("B %d %s %d %d", fd, inet_ntoa(t.sin_addr), ntohs(t.sin_port), ntohs(s.sin_port));
        errno = e;
    }
    return k;
}
extern int R(setsockopt)(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
    if (active() && l == SOL_SOCKET && o == SO_KEEPALIVE) ev("ka %d %d", fd, *(const int *) v);
    return R(setsockopt)(fd, l, o, v, n);
}
int __wrap_hosts_ctl(char *d, char *n, char *a, char *u)
{
    if (active()) ev("hw %s", a);
    return 1;
}
int __wrap_shutdown(int fd, int how)
{
    if (!active()) return R(shutdown)(fd, how);
    ev("h %d %d", fd, how);
    return R(shutdown)(fd, how);
}
int __wrap_close(int fd)
{
    int k;
    if (!active()) return R(close)(fd);
    if (fd == ctl) { errno = EBADF; return -1; }
    k = R(close)(fd);
    ev("%sc %d %d", is_main() ? "" : "t", fd, k < 0 ? errno : 0);
    fd_fresh(fd);
    return k;
}
static int opened(int fd, const char *path, int fl)
{
    char d[2100];
    int e = errno;
    fd_fresh(fd);
    hexs(d, path, sizeof d);
    if (fd >= 0) ev("%so %d %d %s", is_main() ? "" : "t", fd, fl, d);
    else ev("%sO %d %d %s", is_main() ? "" : "t", e, fl, d);
    errno = e;
    if (fl & (O_WRONLY | O_RDWR)) strike('o');
    return fd;
}
int __wrap_open(const char *path, int fl, ...)
{
    va_list ap;
    int m, e;
    va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
    if (!active()) return R(open)(path, fl, m);
    if ((e = fault_take('o', -1, path))) { errno = e; return opened(-1, path, fl); }
    return opened(R(open)(path, fl, m), path, fl);
}
int __wrap_open64(const char *path, int fl, ...)
{
    va_list ap;
    int m;
    va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
    return __wrap_open(path, fl, m);
}
int __wrap_tcsendbreak(int fd, int d)
{
    if (!active()) return R(tcsendbreak)(fd, d);
    ev("b %d", fd);
    return 0;
}
int __wrap_tcsetattr(int fd, int a, const struct termios *t)
{
    if (active())
        ev("T %d %x %x %x %x %d %d", fd, t->c_iflag, t->c_oflag, t->c_cflag, t->c_lflag,
            (int) cfgetispeed(t), (int) cfgetospeed(t));
    return R(tcsetattr)(fd, a, t);
}
#include <sys/stat.h>
extern int R(stat)(const char *, struct stat *);
extern int R(access)(const char *, int);
int __wrap_stat(const char *path, struct stat *st)
{
    int k, e;
    char d[2100];
    if (!active()) return R(stat)(path, st);
    if ((e = fault_take('t', -1, path))) { errno = e; k = -1; }
    else k = R(stat)(path, st);
    e = errno;
    hexs(d, path, sizeof d);
    ev("s %d %d %s", k < 0 ? e : 0, k < 0 ? 0 : (int) (st->st_mode & S_IFMT) == S_IFSOCK ? 2 : S_ISREG(st->st_mode) ? 1 : 0, d);
    errno = e;
    return k;
}
int __wrap_access(const char *path, int m)
{
    int k, e;
    char d[2100];
    if (!active()) return R(access)(path, m);
    if ((e = fault_take('X', -1, path))) { errno = e; k = -1; }
    else k = R(access)(path, m);
    e = errno;
    hexs(d, path, sizeof d);
    ev("x? %d %s", k < 0 ? e : 0, d);
    errno = e;
    return k;
}
extern int R(ppoll)(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __wrap_poll(struct pollfd *, nfds_t, int);
int __wrap_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *m)
{
    if (!active()) return R(ppoll)(fds, n, ts, m);
    return __wrap_poll(fds, n, ts ? (int) (ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1);
}
extern ssize_t R(sendto)(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
extern ssize_t R(recvfrom)(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl);
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl);
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l)
{
    if (!active() || a) return R(sendto)(fd, b, n, fl, a, l);
    return __wrap_send(fd, b, n, fl);
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
    if (!active() || a) return R(recvfrom)(fd, b, n, fl, a, l);
    return __wrap_recv(fd, b, n, fl);
}
pid_t __wrap_fork(void)
{
    pid_t p;
    int e;
    if (!active()) return R(fork)();
    if ((e = fault_take('f', -1, NULL))) { ev("F %d", e); errno = e; return -1; }
    p = R(fork)();
    if (p == 0) { in_child = 1; return 0; }
    e = errno;
    ev("f %d", (int) p);
    errno = e;
    return p;
}
int __wrap_kill(pid_t p, int s)
{
    int k, e;
    if (!active()) return R(kill)(p, s);
    k = R(kill)(p, s);
    e = errno;
    ev("K %d %d %d", (int) p, s, k < 0 ? e : 0);
    errno = e;
    return k;
}
int __wrap_killpg(pid_t p, int s)
{
    if (!active()) return R(killpg)(p, s);
    return __wrap_kill(-p, s);
}
struct hostent *__wrap_gethostbyname(const char *n)
{
    extern int h_errno;
    if (active()) {
        char d[1200];
        int e = fault_take('h', -1, n);
        hexs(d, n, sizeof d);
        ev("H %d %s", e, d);
        if (e) return NULL;
    }
    return R(gethostbyname)(n);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (active() && at_gate && p && p == gate_fds) gate_fds = NULL;
    return R(realloc)(p, n);
}

/* ------------------------------------------------------------- the gate */
static char cbuf[65536];
static int clen;
static sigset_t gate_mask;
#define ppoll_ __real_ppoll

/* Reads one command line.  Returns 0, or -1 on EINTR. */
static int command(char *line, size_t max)
{
    for (;;) {
        char *nl = memchr(cbuf, '\n', clen);
        struct pollfd p;
        ssize_t k;
        if (nl) {
            size_t n = nl - cbuf;
            if (n >= max) n = max - 1;
            memcpy(line, cbuf, n);
            line[n] = 0;
            clen -= nl + 1 - cbuf;
            memmove(cbuf, nl + 1, clen);
            return 0;
        }
        p.fd = ctl; p.events = POLLIN;
        if (ppoll_(&p, 1, NULL, &gate_mask) < 0) {
            if (errno == EINTR) return -1;
            _exit(97);
        }
        k = R(read)(ctl, cbuf + clen, sizeof(cbuf) - clen);
        if (k == 0) _exit(97);
        if (k > 0) clen += k;
    }
}

static int run_left = 0;                /* poll returns the driver still allows */

static int ready(struct pollfd *fds, struct pollfd *cp, nfds_t n)
{
    nfds_t i;
    int k;
    struct pollfd *t = malloc((n + 1) * sizeof *t);
    memcpy(t, cp, n * sizeof *t);
    for (i = 0; i < n; i++) {
        t[i].revents = 0;
        if (t[i].fd >= 0 && t[i].fd < MAXFD && credit[t[i].fd] == 0 && !connecting[t[i].fd])
            t[i].events &= ~POLLOUT;
    }
    k = R(poll)(t, n, 0);
    for (i = 0; k > 0 && i < n; i++)    /* a write to a connection that is gone does not block */
        if ((t[i].revents & (POLLERR | POLLHUP)) && t[i].fd < MAXFD && credit[t[i].fd] == 0) {
            credit[t[i].fd] = -1;
            t[i].events = cp[i].events;
            if (t[i].events & POLLOUT) t[i].revents |= POLLOUT;
        }
    if (k > 0 && gate_fds == fds)
        for (i = 0; i < n; i++) fds[i].revents = t[i].revents;
    if (k == 0 && gate_fds == fds)
        for (i = 0; i < n; i++) fds[i].revents = 0;
    free(t);
    return k;
}

int __wrap_poll(struct pollfd *fds, nfds_t n, int timeout)
{
    struct pollfd *cp;
    int64_t deadline;
    int k, ret;
    char line[4096];
    sigset_t all;

    if (!active() || !is_main() || (timeout == 0 && n <= 1)) return R(poll)(fds, n, timeout);

    cp = malloc((n + 1) * sizeof *cp);
    memcpy(cp, fds, n * sizeof *cp);
    gate_fds = fds;
    at_gate = 1;
    deadline = timeout < 0 ? -1 : vnow + (int64_t) timeout * 1000;
    if (timeout < -1) ev("Zneg %d", timeout);

    for (;;) {
        while (run_left > 0) {
            run_threads();
            k = ready(fds, cp, n);
            if (k > 0 || (deadline >= 0 && vnow >= deadline)) {
                run_left--;
                if (++spin > 3000) { ev("Zspin %d", spin); spin = 0; run_left = 0; break; }
                ret = k;
                goto out;
            }
            if (k < 0 && errno == EINTR) continue;
            run_left = 0;
        }
        spin = 0;
        /* signals are only taken while waiting for a command */
        sigfillset(&all);
        pthread_sigmask(SIG_SETMASK, &all, &gate_mask);
        ev("P %lld", deadline < 0 ? -1LL : (long long) (deadline - vnow));
        for (;;) {
            if (command(line, sizeof line) < 0) {
                pthread_sigmask(SIG_SETMASK, &gate_mask, NULL);
                ev("i");
                ret = -1;
                errno = EINTR;
                goto out;
            }
            if (line[0] == 'R') { pthread_sigmask(SIG_SETMASK, &gate_mask, NULL); ev("R"); run_left = line[1] ? atoi(line + 1) : 1 << 28; break; }
            else if (line[0] == 'T') { vnow += strtoll(line + 1, NULL, 10); ev("clk %lld", (long long) vnow); }
            else if (line[0] == 'C') { int f; long c; if (sscanf(line + 1, "%d %ld", &f, &c) == 2 && f >= 0 && f < MAXFD) credit[f] = c; }
            else if (line[0] == 'M') { int f; long c; if (sscanf(line + 1, "%d %ld", &f, &c) == 2 && f >= 0 && f < MAXFD) rcap[f] = c; }
            else if (line[0] == 'F') {
                struct fault f;
                char kd;
                memset(&f, 0, sizeof f);
                if (sscanf(line + 1, " %c %d %d %d %255s", &kd, &f.fd, &f.err, &f.used, f.path) >= 4) {
                    int j;
                    f.kind = kd;
                    for (j = 0; j < nfaults; j++) if (faults[j].used == 0) break;
                    if (j < 64) { faults[j] = f; if (j == nfaults) nfaults++; }
                }
            }
            else if (line[0] == 'X') { if (shim_ipmi_cmd) shim_ipmi_cmd(line + 1); }
            else if (line[0] == 'G') {  /* between what came before poll() and poll() */
                pthread_sigmask(SIG_SETMASK, &gate_mask, NULL);
                raise(atoi(line + 1));
                pthread_sigmask(SIG_SETMASK, &all, NULL);
            }
            else if (line[0] == 'A') { char kd; if (sscanf(line + 1, " %c %d %d", &kd, &strike_n, &strike_sig) == 3) strike_kind = kd; }
            else if (line[0] == 'f') nfaults = 0, strike_kind = 0;
            else if (line[0] == 'N') conn_credit = atol(line + 1);
            else if (line[0] == 'H') hold_mode = atoi(line + 1);
            else if (line[0] == 'U') release_idx = atoi(line + 1);
            else if (line[0] == 'Q') _exit(0);
        }
    }
out:
    if (ret == 0 && k == 0) ;
    at_gate = 0;
    gate_fds = NULL;
    free(cp);
    return ret;
}
