/* Control of the client program's environment (linked with ld --wrap).
 *
 * CSHIM_SOCK names the driver's socket, CSHIM_T0 the time.  Before the client
 * would wait for input, or for room to write, it reports "P" and waits for commands:
 *   R              look again
 *   C fd n         n more bytes may be written to fd (-1: no limit)
 *   M fd n         reads of fd return at most n bytes (0: no limit)
 *   F kind fd err n   the next n calls of that kind fail (kind r w s; fd -1: any)
 *   Q              exit
 * Events: HELLO pid; n fd addr port errno; r/w fd hex; e fd; x/y fd err; h fd how;
 *   o fd flags hexpath; c fd; k pid sig; i (interrupted); P what fd; N hexname ok
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define R(f) __real_##f
extern ssize_t R(read)(int, void *, size_t);
extern ssize_t R(write)(int, const void *, size_t);
extern ssize_t R(recv)(int, void *, size_t, int);
extern ssize_t R(send)(int, const void *, size_t, int);
extern int R(select)(int, fd_set *, fd_set *, fd_set *, struct timeval *);
extern int R(poll)(struct pollfd *, nfds_t, int);
extern int R(connect)(int, const struct sockaddr *, socklen_t);
extern int R(shutdown)(int, int);
extern int R(close)(int);
extern int R(kill)(pid_t, int);
extern int R(open)(const char *, int, ...);
extern struct hostent *R(gethostbyname)(const char *);
extern struct hostent *R(gethostbyaddr)(const void *, socklen_t, int);
extern time_t R(time)(time_t *);

#define MAXFD 1024
static int ctl = -1;
static long t0;
static int to_port;
static char *fake_user, *fake_tty;
static long credit[MAXFD], rcap[MAXFD];
static struct fault { int kind, fd, err, n; } faults[32];
static int nfaults;

static void xmit(const char *p, size_t n)
{
    while (n > 0) {
        ssize_t k = R(send)(ctl, p, n, MSG_NOSIGNAL);
        if (k < 0) { if (errno == EINTR) continue; _exit(97); }
        p += k; n -= k;
    }
}
static void ev(const char *fmt, ...)
{
    char b[8192];
    va_list ap;
    int n, e = errno;
    va_start(ap, fmt);
    n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof(b) - 2) n = sizeof(b) - 2;
    b[n++] = '\n';
    xmit(b, n);
    errno = e;
}
static void hexs(char *d, const void *s, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) sprintf(d + 2 * i, "%02x", ((const unsigned char *) s)[i]);
    d[2 * n] = 0;
}
static void evdata(const char *tag, int fd, const void *s, size_t n)
{
    int e = errno;
    char *b = malloc(2 * n + 64);
    int k = sprintf(b, "%s %d ", tag, fd);
    hexs(b + k, s, n);
    k += 2 * n;
    b[k++] = '\n';
    xmit(b, k);
    free(b);
    errno = e;
}
static int fault_take(int kind, int fd)
{
    int i;
    for (i = 0; i < nfaults; i++)
        if (faults[i].n && faults[i].kind == kind && (faults[i].fd < 0 || faults[i].fd == fd)) {
            faults[i].n--;
            return faults[i].err;
        }
    return 0;
}

__attribute__((constructor)) static void init(void)
{
    char *s = getenv("CSHIM_SOCK"), *t = getenv("CSHIM_T0"), *p = getenv("CSHIM_PORT");
    struct sockaddr_un a;
    int fd, i;
    if (!s) return;
    fd = socket(AF_UNIX, SOCK_STREAM, 0);
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, s, sizeof(a.sun_path) - 1);
    if (fd < 0 || R(connect)(fd, (void *) &a, sizeof a) < 0) _exit(96);
    i = fcntl(fd, F_DUPFD_CLOEXEC, 900);
    if (i < 0) i = fcntl(fd, F_DUPFD_CLOEXEC, 200);
    R(close)(fd);
    for (fd = 0; fd < MAXFD; fd++) credit[fd] = -1;
    t0 = t ? atol(t) : 1000000000;
    to_port = p ? atoi(p) : 0;
    if ((p = getenv("CSHIM_USER"))) fake_user = strdup(p);
    if ((p = getenv("CSHIM_TTY"))) fake_tty = strdup(p);
    unsetenv("CSHIM_USER"); unsetenv("CSHIM_TTY");
    unsetenv("CSHIM_SOCK"); unsetenv("CSHIM_T0"); unsetenv("CSHIM_PORT");
    ctl = i;
    ev("HELLO %d", (int) getpid());
}

/* Obeys commands until told to look again; returns -1 when a signal came. */
static long gates;
static int gate(char what, int fd)
{
    static char buf[65536];
    static size_t have;
    sigset_t all, old;
    sigemptyset(&all);
    sigaddset(&all, SIGTERM);            /* comes only when it can be noticed */
    sigprocmask(SIG_BLOCK, &all, &old);
    if (++gates > 200000) { ev("Zspin"); _exit(98); }
    ev("P %c %d", what, fd);
    for (;;) {
        char *nl = memchr(buf, '\n', have);
        char line[512];
        size_t n;
        if (!nl) {
            struct pollfd pf = { ctl, POLLIN, 0 };
            ssize_t k;
            if (ppoll(&pf, 1, NULL, &old) < 0 && errno == EINTR) {
                sigprocmask(SIG_SETMASK, &old, NULL);
                ev("i");
                errno = EINTR;
                return -1;
            }
            k = R(recv)(ctl, buf + have, sizeof(buf) - have, 0);
            if (k <= 0) _exit(97);
            have += k;
            continue;
        }
        n = nl - buf;
        if (n >= sizeof line) n = sizeof(line) - 1;
        memcpy(line, buf, n);
        line[n] = 0;
        have -= nl + 1 - buf;
        memmove(buf, nl + 1, have);
        if (line[0] == 'R') { sigprocmask(SIG_SETMASK, &old, NULL); return 0; }
        else if (line[0] == 'C') { int f; long c; if (sscanf(line + 1, "%d %ld", &f, &c) == 2 && f >= 0 && f < MAXFD) credit[f] = c; }
        else if (line[0] == 'M') { int f; long c; if (sscanf(line + 1, "%d %ld", &f, &c) == 2 && f >= 0 && f < MAXFD) rcap[f] = c; }
        else if (line[0] == 'F') {
            struct fault f;
            char kd;
            if (sscanf(line + 1, " %c %d %d %d", &kd, &f.fd, &f.err, &f.n) == 4) {
                int j;
                f.kind = kd;
                for (j = 0; j < nfaults; j++) if (!faults[j].n) break;
                if (j < 32) { faults[j] = f; if (j == nfaults) nfaults++; }
            }
        }
        else if (line[0] == 'Q') _exit(0);
    }
}

/* ------------------------------------------------------------------ I/O */
static int rd_ready(int fd)
{
    struct pollfd p = { fd, POLLIN, 0 };
    return R(poll)(&p, 1, 0) > 0;
}
static ssize_t rd(int fd, void *b, size_t n, int rcv, int fl)
{
    int e;
    ssize_t k;
    if ((e = fault_take('r', fd))) { ev("x %d %d", fd, e); errno = e; return -1; }
    while (!rd_ready(fd))
        if (gate('r', fd) < 0) return -1;
    if (fd >= 0 && fd < MAXFD && rcap[fd] > 0 && (size_t) rcap[fd] < n) n = rcap[fd];
    k = rcv ? R(recv)(fd, b, n, fl) : R(read)(fd, b, n);
    if (rcv && (fl & MSG_PEEK)) return k;
    if (k > 0) evdata("r", fd, b, k);
    else if (k == 0) ev("e %d", fd);
    else ev("x %d %d", fd, errno);
    return k;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return ctl < 0 ? R(read)(fd, b, n) : rd(fd, b, n, 0, 0); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return ctl < 0 ? R(recv)(fd, b, n, fl) : rd(fd, b, n, 1, fl); }

static ssize_t wr(int fd, const void *b, size_t n, int snd, int fl)
{
    int e;
    ssize_t k;
    if ((e = fault_take('w', fd))) { ev("y %d %d", fd, e); errno = e; if (e == EPIPE) raise(SIGPIPE); errno = e; return -1; }
    if (fd >= 0 && fd < MAXFD && credit[fd] >= 0) {
        while (credit[fd] == 0)
            if (gate('w', fd) < 0) return -1;
        if (credit[fd] >= 0 && (size_t) credit[fd] < n) n = credit[fd];
    }
    k = snd ? R(send)(fd, b, n, fl) : R(write)(fd, b, n);
    if (k > 0) {
        if (fd >= 0 && fd < MAXFD && credit[fd] > 0) credit[fd] -= k;
        evdata("w", fd, b, k);
    }
    else if (k < 0) ev("y %d %d", fd, errno);
    return k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return ctl < 0 ? R(write)(fd, b, n) : wr(fd, b, n, 0, 0); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return ctl < 0 ? R(send)(fd, b, n, fl) : wr(fd, b, n, 1, fl); }

int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    fd_set a, b, c;
    struct timeval z;
    int k, e;
    if (ctl < 0) return R(select)(n, r, w, x, tv);
    if ((e = fault_take('s', -1))) { ev("x -1 %d", e); errno = e; return -1; }
    if (r) a = *r;
    if (w) b = *w;
    if (x) c = *x;
    for (;;) {
        z.tv_sec = z.tv_usec = 0;
        if (r) *r = a;
        if (w) *w = b;
        if (x) *x = c;
        k = R(select)(n, r, w, x, &z);
        if (k != 0) return k;
        if (tv && !tv->tv_sec && !tv->tv_usec) return 0;
        if (gate('s', -1) < 0) return -1;
        if (tv) { t0 += tv->tv_sec; return 0; }
    }
}
int __wrap_poll(struct pollfd *p, nfds_t n, int to)
{
    int k, e;
    if (ctl < 0 || to == 0) return R(poll)(p, n, to);
    if ((e = fault_take('s', -1))) { ev("x -1 %d", e); errno = e; return -1; }
    for (;;) {
        if ((k = R(poll)(p, n, 0)) != 0) return k;
        if (gate('s', -1) < 0) return -1;
        if (to > 0) return 0;
    }
}

/* ------------------------------------------------------------ the world */
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    const struct sockaddr_in *s = (const void *) a;
    struct sockaddr_in to;
    char b[64];
    int k;
    if (ctl < 0 || a->sa_family != AF_INET) return R(connect)(fd, a, l);
    inet_ntop(AF_INET, &s->sin_addr, b, sizeof b);
    memset(&to, 0, sizeof to);
    to.sin_family = AF_INET;
    to.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    to.sin_port = htons(to_port);
    k = R(connect)(fd, (void *) &to, sizeof to);
    ev("n %d %s %d %d", fd, b, ntohs(s->sin_port), k < 0 ? errno : 0);
    return k;
}
int __wrap_shutdown(int fd, int how)
{
    int k = R(shutdown)(fd, how);
    if (ctl >= 0) ev("h %d %d %d", fd, how, k < 0 ? errno : 0);
    return k;
}
int __wrap_close(int fd)
{
    if (ctl >= 0) ev("c %d", fd);
    return R(close)(fd);
}
static int do_open(const char *p, int fl, int mode)
{
    int fd, e;
    char h[4200];
    if (ctl < 0) return R(open)(p, fl, mode);
    if ((e = fault_take('o', -1))) { fd = -1; errno = e; }
    else fd = R(open)(p, fl, mode);
    e = errno;
    hexs(h, p, strlen(p) > 2000 ? 2000 : strlen(p));
    ev("o %d %d %s", fd, fl, h);
    errno = e;
    return fd;
}
int __wrap_open(const char *p, int fl, ...)
{
    va_list ap;
    int m = 0;
    if (fl & O_CREAT) { va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    return do_open(p, fl, m);
}
int __wrap_open64(const char *p, int fl, ...)
{
    va_list ap;
    int m = 0;
    if (fl & O_CREAT) { va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    return do_open(p, fl, m);
}
/* Stopping is reported; the client goes on when the driver says so. */
int __wrap_kill(pid_t p, int s)
{
    if (ctl < 0) return R(kill)(p, s);
    ev("k %d %d", p == getpid() || p == 0, s);
    if (s == SIGTSTP || s == SIGSTOP) { while (gate('z', -1) < 0) ; return 0; }
    return R(kill)(p, s);
}
int __wrap_raise(int s)
{
    if (ctl < 0 || (s != SIGTSTP && s != SIGSTOP)) return R(kill)(getpid(), s);
    return __wrap_kill(getpid(), s);
}
time_t __wrap_time(time_t *p)
{
    if (ctl < 0) return R(time)(p);
    if (p) *p = t0;
    return t0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
    tv->tv_sec = __wrap_time(NULL);
    tv->tv_usec = 0;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    ts->tv_sec = __wrap_time(NULL);
    ts->tv_nsec = 0;
    return 0;
}
/* Who and where the user is. */
extern struct passwd *R(getpwuid)(uid_t);
extern struct passwd *R(getpwnam)(const char *);
extern char *R(getlogin)(void);
extern char *R(ttyname)(int);
static struct passwd *fake(struct passwd *p)
{
    static struct passwd q;
    if (!fake_user || !p) return p;
    q = *p;
    q.pw_name = fake_user;
    return &q;
}
struct passwd *__wrap_getpwuid(uid_t u) { return fake(R(getpwuid)(u)); }
struct passwd *__wrap_getpwnam(const char *n)
{
    struct passwd *p = R(getpwnam)(n);
    if (fake_user && !strcmp(n, fake_user)) p = R(getpwuid)(getuid());
    return p && p->pw_uid == getuid() ? fake(p) : p;
}
char *__wrap_getlogin(void) { return fake_user ? NULL : R(getlogin)(); }
char *__wrap_ttyname(int fd)
{
    char *t = R(ttyname)(fd);
    return fake_tty && t ? fake_tty : t;
}

/* Names: hN... is 10.9.N.1, numbers are themselves, nothing else is known;
 * 10.9.7.1 is called h7.example.net. */
static struct hostent *host(const char *name, uint32_t addr)
{
    static struct hostent h;
    static char nm[1100], ad[4];
    static char *al[] = { NULL }, *ads[2];
    snprintf(nm, sizeof nm, "%s", name);
    memcpy(ad, &addr, 4);
    ads[0] = ad; ads[1] = NULL;
    h.h_name = nm; h.h_aliases = al; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = ads;
    return &h;
}
struct hostent *__wrap_gethostbyname(const char *n)
{
    struct in_addr a;
    char d[2300];
    int k;
    if (ctl < 0) return R(gethostbyname)(n);
    hexs(d, n, strlen(n) > 1000 ? 1000 : strlen(n));
    ev("N %s", d);
    if (inet_aton(n, &a)) return host(n, a.s_addr);
    if (n[0] == 'h' && n[1] >= '1' && n[1] <= '9' && (!n[2] || n[2] == '.')) {
        k = n[1] - '0';
        return host(n, htonl(0x0a090001 + k * 256));
    }
    h_errno = HOST_NOT_FOUND;
    return NULL;
}
struct hostent *__wrap_gethostbyaddr(const void *a, socklen_t l, int t)
{
    uint32_t x;
    if (ctl < 0) return R(gethostbyaddr)(a, l, t);
    memcpy(&x, a, 4);
    if (ntohl(x) == 0x0a090701) return host("h7.example.net", x);
    h_errno = HOST_NOT_FOUND;
    return NULL;
}
