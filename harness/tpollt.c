/* Several threads change what one of them waits for, under ThreadSanitizer:
 * the steps of the specification are atomic only if no two of them touch the
 * same memory without the lock. */
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "tpoll.h"

int __real_poll(struct pollfd *, nfds_t, int);
static tpoll_t tp;
static int stop, pipes[8][2], n;
static uint32_t seed0;
static uint32_t rnd(uint32_t *s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }

/* the kernel reads and writes the array without the lock, by design */
__attribute__((no_sanitize("thread"), noinline)) static void cp(volatile struct pollfd *d, volatile struct pollfd *s, nfds_t k, int back)
{
    while (k--) {
        if (back) d[k].revents = s[k].revents;
        else d[k].fd = s[k].fd, d[k].events = s[k].events, d[k].revents = 0;
    }
}
int __wrap_poll(struct pollfd *fds, nfds_t k, int ms)
{
    struct pollfd *c;
    int r, e;
    if (!tp) return __real_poll(fds, k, ms);
    c = malloc((k + 1) * sizeof *c);
    cp(c, fds, k, 0);
    r = __real_poll(c, k, ms < 0 || ms > 20 ? 20 : ms);
    e = errno;
    cp(fds, c, k, 1);
    free(c);
    errno = e;
    return r;
}
static void cb(void *a) { if (rnd((uint32_t *) a) % 3 == 0) tpoll_timeout_relative(tp, cb, a, 1); }
static void *other(void *a)
{
    uint32_t s = seed0 + 77 * (uint32_t) (intptr_t) a, *mine = malloc(sizeof s);
    int last = 1;
    *mine = s;
    while (!__atomic_load_n(&stop, __ATOMIC_ACQUIRE)) {
        uint32_t x = rnd(&s);
        int fd = pipes[x % 8][0];
        switch ((x >> 8) % 9) {
        case 0: case 1: tpoll_set(tp, fd, POLLIN); break;
        case 2: tpoll_clear(tp, fd, POLLIN); break;
        case 3: last = tpoll_timeout_relative(tp, cb, mine, x % 4); break;
        case 4: tpoll_timeout_cancel(tp, last); break;
        case 5: tpoll_is_set(tp, fd, POLLIN); break;
        case 6: if (x % 50 == 0) tpoll_zero(tp, 1 + (x >> 16) % 3); break;
        case 7: tpoll_set(tp, 30 + (x >> 12) % 600, POLLOUT); break;
        case 8: tpoll_clear(tp, 30 + (x >> 12) % 600, POLLOUT); break;
        }
        if (x % 16 == 0) usleep(200);
    }
    return NULL;
}
int main(int argc, char **argv)
{
    pthread_t t[3];
    int i, calls = 0;
    time_t end = time(NULL) + atoi(argv[1]);
    seed0 = atoi(argv[2]);
    for (i = 0; i < 8; i++) if (pipe(pipes[i]) < 0) return 2;
    tp = tpoll_create(0);
    for (i = 0; i < 3; i++) pthread_create(&t[i], NULL, other, (void *) (intptr_t) i);
    while (time(NULL) < end) {
        i = tpoll(tp, calls % 3 == 0 ? -1 : calls % 3);
        calls++;
        if (i > 0) tpoll_is_set(tp, pipes[calls % 8][0], POLLIN);
    }
    __atomic_store_n(&stop, 1, __ATOMIC_RELEASE);
    for (i = 0; i < 3; i++) pthread_join(t[i], NULL);
    printf("%d\n", calls);
    return 0;
}
