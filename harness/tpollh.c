/* Drives tpoll.c through scripts.  Time, poll() and the other threads are
 * played here: one real thread, whose poll() runs what other threads would
 * do before it looks at the array, while it sleeps, and before it returns.
 * One process per script; see lib/tpolld.py for the script's words. */
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "tpoll.h"

#define LOW  20                  /* descriptors below are tpoll's own */
#define MAXF 4200
#define TOP  900                 /* and so are those between MAXF... */

int __real_poll(struct pollfd *, nfds_t, int);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

static FILE *out;
static int64_t now_us;
static int tick, held, in_poll, polls_idle;
static unsigned char rdy[MAXF];
static tpoll_t tp;

static char *words[4096];
static int nwords, at;
static int skip_depth;

static void flush_exit(int rc) { fflush(out); _exit(rc); }
static const char *ts(int64_t t)
{
    static char b[4][48]; static int i;
    i = (i + 1) % 4;
    sprintf(b[i], "[%lld,%d]", (long long) (t / 1000000), (int) (t % 1000000));
    return b[i];
}
static const char *bits(int e)
{
    static char b[4][64]; static int i; char *s;
    i = (i + 1) % 4; s = b[i];
    *s++ = '[';
    if (e & POLLIN) s += sprintf(s, "\"i\",");
    if (e & POLLOUT) s += sprintf(s, "\"o\",");
    if (e & POLLERR) s += sprintf(s, "\"e\",");
    if (e & POLLHUP) s += sprintf(s, "\"h\",");
    if (e & POLLNVAL) s += sprintf(s, "\"n\",");
    if (e & POLLPRI) s += sprintf(s, "\"p\",");
    if (s[-1] == ',') s--;
    *s++ = ']'; *s = 0;
    return b[i];
}
static int mask(const char *w)
{
    int e = 0;
    for (; *w; w++) e |= *w == 'i' ? POLLIN : *w == 'o' ? POLLOUT : *w == 'e' ? POLLERR : *w == 'h' ? POLLHUP : *w == 'n' ? POLLNVAL : *w == 'p' ? POLLPRI : 0;
    return e;
}
static int mine(int fd) { return fd >= LOW && fd < MAXF; }

int __wrap_gettimeofday(struct timeval *tv, void *z)
{
    tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000;
    now_us += tick;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    t->tv_sec = now_us / 1000000; t->tv_nsec = now_us % 1000000 * 1000;
    now_us += tick;
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (held) { fprintf(out, "{\"e\":\"bad\",\"why\":\"locks what it holds\"}\n"); flush_exit(0); }
    held = 1;
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { held = 0; return __real_pthread_mutex_unlock(m); }

static void op(char *w, int who);

/* words: what the timer does when it fires stands in { } after it */
struct timer { int k; int from, to; };
static int nextk = 1;
static void cb(void *arg)
{
    struct timer *t = arg;
    int save = at, p;
    if (held) { fprintf(out, "{\"e\":\"bad\",\"why\":\"calls back with its lock held\"}\n"); flush_exit(0); }
    fprintf(out, "{\"e\":\"fire\",\"k\":%d,\"now\":%s}\n", t->k, ts(now_us));
    p = in_poll; in_poll = 2;
    for (at = t->from; at < t->to; ) op(words[at++], 3);
    in_poll = p;
    at = save;
}
static int match(int i)          /* words[i] is "{": index of its "}" */
{
    int d = 0;
    for (; i < nwords; i++) {
        if (!strcmp(words[i], "{")) d++;
        if (!strcmp(words[i], "}") && --d == 0) return i;
    }
    return nwords;
}
static int ids[4096];

/* a word is [<!>+]name:arg:arg */
static void op(char *w0, int who)
{
    char w[200], *a[5] = { "", "", "", "", "" }, *s;
    int n = 0, rc;
    strncpy(w, w0, 199); w[199] = 0;
    for (s = strtok(w, ":"); s && n < 5; s = strtok(NULL, ":")) a[n++] = s;
    s = a[0];
    if (strchr("<!>+", *s)) s++;
    if (!strcmp(s, "set")) {
        rc = tpoll_set(tp, atoi(a[1]), mask(a[2]));
        fprintf(out, "{\"e\":\"set\",\"fd\":%d,\"ev\":%s,\"rc\":%d}\n", atoi(a[1]), bits(mask(a[2])), rc);
    } else if (!strcmp(s, "clr")) {
        rc = tpoll_clear(tp, atoi(a[1]), mask(a[2]));
        fprintf(out, "{\"e\":\"clr\",\"fd\":%d,\"ev\":%s,\"rc\":%d}\n", atoi(a[1]), bits(mask(a[2])), rc);
    } else if (!strcmp(s, "is")) {
        rc = tpoll_is_set(tp, atoi(a[1]), mask(a[2]));
        fprintf(out, "{\"e\":\"is\",\"fd\":%d,\"ev\":%s,\"rc\":%d,\"got\":%s}\n", atoi(a[1]), bits(mask(a[2])), rc, bits(rc < 0 ? 0 : rc));
    } else if (!strcmp(s, "zero")) {
        rc = tpoll_zero(tp, atoi(a[1]));
        fprintf(out, "{\"e\":\"zero\",\"how\":%d,\"rc\":%d}\n", atoi(a[1]), rc);
    } else if (!strcmp(s, "rdy")) {
        if (mine(atoi(a[1]))) rdy[atoi(a[1])] = mask(a[2]);
        polls_idle = 0;
    } else if (!strcmp(s, "adv")) {
        now_us += atoll(a[1]);
        polls_idle = 0;
    } else if (!strcmp(s, "rel") || !strcmp(s, "abs")) {
        struct timer *t = malloc(sizeof *t);
        int64_t when;
        t->k = nextk++;
        t->from = t->to = at;
        if (at < nwords && !strcmp(words[at], "{")) { t->from = at + 1; t->to = match(at); at = t->to + 1; }
        if (*s == 'r') {
            when = now_us;
            rc = tpoll_timeout_relative(tp, cb, t, atoi(a[1]));
            when += (int64_t) (atoi(a[1]) > 0 ? atoi(a[1]) : 0) * 1000;
        } else {
            struct timeval tv;
            when = now_us + atoll(a[1]);
            tv.tv_sec = when / 1000000; tv.tv_usec = when % 1000000;
            rc = tpoll_timeout_absolute(tp, cb, t, &tv);
        }
        if (t->k < 4096) ids[t->k] = rc;
        fprintf(out, "{\"e\":\"tset\",\"k\":%d,\"id\":%d,\"at\":%s,\"now\":%s}\n", t->k, rc, ts(when), ts(now_us));
    } else if (!strcmp(s, "can")) {            /* the k-th timer (0, -1, and those beyond: as they are) */
        int k = atoi(a[1]), id = k > 0 && k < nextk ? ids[k] : k > 0 ? 77777 : k;
        rc = tpoll_timeout_cancel(tp, id);
        fprintf(out, "{\"e\":\"can\",\"id\":%d,\"rc\":%d}\n", id, rc);
    } else if (!strcmp(s, "tpoll")) {
        int ms = atoi(a[1]);
        if (in_poll) return;
        fprintf(out, "{\"e\":\"enter\",\"ms\":%d,\"now\":%s,\"till\":%s}\n", ms, ts(now_us), ts(now_us + (int64_t) (ms > 0 ? ms : 0) * 1000));
        in_poll = 2; polls_idle = 0;
        rc = tpoll(tp, ms);
        in_poll = 0;
        if (held) { fprintf(out, "{\"e\":\"bad\",\"why\":\"returns with its lock held\"}\n"); flush_exit(0); }
        fprintf(out, "{\"e\":\"ret\",\"n\":%d,\"now\":%s}\n", rc, ts(now_us));
    } else if (!strcmp(s, "intr")) {
    } else if (!strcmp(s, "null")) {
        struct timeval tv = { 1, 1 };
        rc = tpoll_set(NULL, 30, POLLIN) == -1 && tpoll_clear(NULL, 30, POLLIN) == -1 && tpoll_is_set(NULL, 30, POLLIN) == -1
            && tpoll_zero(NULL, TPOLL_ZERO_ALL) == -1 && tpoll_timeout_cancel(NULL, 1) == -1 && tpoll(NULL, 0) == -1
            && tpoll_timeout_absolute(NULL, cb, NULL, &tv) == -1 && tpoll_timeout_absolute(tp, NULL, NULL, &tv) == -1
            && tpoll_timeout_absolute(tp, cb, NULL, NULL) == -1;
        fprintf(out, "{\"e\":\"null\",\"rc\":%d}\n", rc);
    }
    if (held) { fprintf(out, "{\"e\":\"bad\",\"why\":\"returns with its lock held\"}\n"); flush_exit(0); }
}

/* what the other threads do at this point */
static int others(char c)
{
    int n = 0;
    while (at < nwords && words[at][0] == c) {
        char *w = words[at++];
        in_poll = 1;
        op(w, 2);
        n++;
    }
    in_poll = 2;
    return n;
}

int __wrap_poll(struct pollfd *fds, nfds_t nfds, int timeout)
{
    struct pollfd *c;
    nfds_t i;
    int n, world, internal;
    int64_t due;
    if (!tp || in_poll != 2) return __real_poll(fds, nfds, timeout);
    if (held) { fprintf(out, "{\"e\":\"bad\",\"why\":\"sleeps with its lock held\"}\n"); flush_exit(0); }
    others('<');
    if (++polls_idle > 200) { fprintf(out, "{\"e\":\"bad\",\"why\":\"spins\"}\n"); flush_exit(0); }
    c = malloc((nfds + 1) * sizeof *c);
    memcpy(c, fds, nfds * sizeof *c);
    due = now_us + (int64_t) timeout * 1000;
    for (;;) {
        n = world = internal = 0;
        for (i = 0; i < nfds; i++) {
            c[i].revents = 0;
            if (c[i].fd < 0) continue;
            if (mine(c[i].fd)) {
                c[i].revents = rdy[c[i].fd] & (c[i].events | POLLERR | POLLHUP | POLLNVAL);
                if (c[i].revents) n++, world++;
            } else {
                struct pollfd p = c[i];
                if (__real_poll(&p, 1, 0) > 0) { c[i].revents = p.revents; n++; internal++; }
            }
        }
        if (n || timeout == 0) break;
        if (timeout > 0 && now_us >= due) break;
        fprintf(out, "{\"e\":\"blk\",\"now\":%s,\"inf\":%s,\"till\":%s,\"fds\":[", ts(now_us), timeout < 0 ? "true" : "false", ts(timeout < 0 ? now_us : due));
        for (i = 0, n = 0; i < nfds; i++)
            if (c[i].fd >= 0 && mine(c[i].fd)) fprintf(out, "%s[%d,%s]", n++ ? "," : "", c[i].fd, bits(c[i].events));
        fprintf(out, "]}\n");
        polls_idle = 0;
        if (at < nwords && words[at][0] == '!') {
            char *w = words[at];
            if (!strcmp(w, "!intr")) {
                at++;
                for (i = 0; i < nfds; i++) fds[i].revents = 0;
                fprintf(out, "{\"e\":\"kern\",\"n\":-1,\"rep\":[]}\n");
                free(c);
                others('>');
                errno = EINTR;
                return -1;
            }
            if (!strncmp(w, "!adv:", 5)) {       /* time passes, to the end of the sleep at most */
                int64_t d = atoll(w + 5);
                at++;
                now_us = timeout >= 0 && now_us + d > due ? due : now_us + d;
                continue;
            }
            at++;
            in_poll = 1;
            op(w, 2);
            while (at < nwords && words[at][0] == '+') op(words[at++], 2);   /* before the sleeper has run */
            in_poll = 2;
            continue;
        }
        if (timeout < 0) { fprintf(out, "{\"e\":\"asleep\"}\n"); flush_exit(0); }
        now_us = due;
    }
    fprintf(out, "{\"e\":\"kern\",\"n\":%d,\"rep\":[", world);
    n = 0;
    for (i = 0; i < nfds; i++)
        if (c[i].fd >= 0 && mine(c[i].fd) && c[i].revents) fprintf(out, "%s[%d,%s]", n++ ? "," : "", c[i].fd, bits(c[i].revents));
    fprintf(out, "]}\n");
    fflush(out);
    for (i = 0; i < nfds; i++) fds[i].revents = c[i].revents;   /* where the kernel was told to */
    free(c);
    others('>');
    return world + internal;
}

static void script(char *l)
{
    char *s;
    char *sz = strtok(l, " ");
    int n = atoi(sz);
    s = strtok(NULL, " "); tick = s ? atoi(s) : 0;
    s = strtok(NULL, " "); now_us = s ? atoll(s) : 1000000000000000LL;
    while ((s = strtok(NULL, " \n")) && nwords < 4095) words[nwords++] = s;
    tp = tpoll_create(n);
    fprintf(out, "{\"e\":\"new\",\"ok\":%s,\"tick\":%d}\n", tp ? "true" : "false", tick);
    if (!tp) flush_exit(0);
    while (at < nwords) op(words[at++], 1);
    tpoll_destroy(tp);
    fprintf(out, "{\"e\":\"end\"}\n");
    flush_exit(0);
}

int main(int argc, char **argv)
{
    static char line[1 << 16];
    struct rlimit r = { 0, 0 };
    setrlimit(RLIMIT_CORE, &r);
    out = fopen(argv[1], "a");
    if (!out) return 2;
    while (fgets(line, sizeof line, stdin)) {
        int st;
        pid_t p;
        fflush(out);
        if (!(p = fork())) {
            alarm(20);
            script(line);
        }
        while (waitpid(p, &st, 0) < 0) ;
        fseek(out, 0, SEEK_END);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            fprintf(out, "{\"e\":\"bad\",\"why\":\"ends with status %d\"}\n", st);
        fprintf(out, "{\"e\":\"--\"}\n");
        fflush(out);
    }
    return 0;
}
