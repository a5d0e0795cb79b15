/* Stand-in for libipmiconsole: contexts whose outcome the driver decides. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <ipmiconsole.h>

extern void shim_event(const char *fmt, ...);
extern int __real_connect(int, const struct sockaddr *, socklen_t);
extern int __real_close(int);

struct ipmiconsole_ctx {
    int magic, id, status, err, fd, taken;
    char host[256];
    Ipmiconsole_callback cb;
    void *arg;
    struct ipmiconsole_ctx *next;
};
static struct ipmiconsole_ctx *all;
static int next_id = 1;
static int submit_err, create_err;

int ipmiconsole_engine_init(unsigned int n, unsigned int f) { (void) f; shim_event("Iinit %u", n); return 0; }
void ipmiconsole_engine_teardown(int c) { shim_event("Iteardown %d", c); }

/* one word for the event */
static const char *w1(char *b, const char *s)
{
    char *p;
    if (!s) return "-";
    snprintf(b, 256, "%s", s);
    for (p = b; *p; p++) if (strchr(" \t\r\n\v\f", *p)) *p = *p == ' ' ? 1 : 2;
    return b;
}

ipmiconsole_ctx_t ipmiconsole_ctx_create(const char *h, struct ipmiconsole_ipmi_config *c,
    struct ipmiconsole_protocol_config *p, struct ipmiconsole_engine_config *e)
{
    struct ipmiconsole_ctx *x;
    unsigned i;
    char kg[130] = "-", b0[256], b1[256], b2[256];
    (void) p; (void) e;
    if (create_err) { create_err = 0; shim_event("Icreatefail %s", h); return NULL; }
    x = calloc(1, sizeof *x);
    x->magic = 0x1234; x->id = next_id++; x->fd = -1;
    snprintf(x->host, sizeof x->host, "%s", h);
    x->next = all; all = x;
    if (c->k_g) { kg[0] = 0; for (i = 0; i < c->k_g_len && i < 60; i++) sprintf(kg + 2 * i, "%02x", c->k_g[i]); }
    shim_event("Icreate %d %s %s %s %s %d %d %u", x->id, w1(b0, h), w1(b1, c->username),
        w1(b2, c->password), kg, c->privilege_level, c->cipher_suite_id, c->workaround_flags);
    return x;
}
int ipmiconsole_engine_submit(ipmiconsole_ctx_t c, Ipmiconsole_callback cb, void *arg)
{
    c->cb = cb; c->arg = arg;
    if (submit_err) { submit_err = 0; c->err = IPMICONSOLE_ERR_SYSTEM_ERROR; shim_event("Isubmitfail %d %s", c->id, c->host); return -1; }
    c->status = IPMICONSOLE_CTX_STATUS_SUBMITTED;
    shim_event("Isubmit %d %s", c->id, c->host);
    return 0;
}
int ipmiconsole_engine_submit_block(ipmiconsole_ctx_t c) { (void) c; return -1; }
int ipmiconsole_ctx_set_config(ipmiconsole_ctx_t c, ipmiconsole_ctx_config_option_t o, void *v) { (void) c; (void) o; (void) v; return 0; }
int ipmiconsole_ctx_errnum(ipmiconsole_ctx_t c) { return c ? c->err : IPMICONSOLE_ERR_CTX_NULL; }
char *ipmiconsole_ctx_strerror(int e) { (void) e; return "fake error"; }
char *ipmiconsole_ctx_errormsg(ipmiconsole_ctx_t c) { (void) c; return "fake error"; }
ipmiconsole_ctx_status_t ipmiconsole_ctx_status(ipmiconsole_ctx_t c) { return c ? c->status : IPMICONSOLE_CTX_STATUS_ERROR; }
int ipmiconsole_ctx_fd(ipmiconsole_ctx_t c)
{
    if (!c || c->fd < 0) return -1;
    c->taken = 1;
    shim_event("Ifd %d %s %d", c->id, c->host, c->fd);
    return c->fd;
}
int ipmiconsole_ctx_generate_break(ipmiconsole_ctx_t c)
{
    if (!c || c->magic != 0x1234) return -1;
    shim_event("Ibreak %d %s", c->id, c->host);
    return 0;
}
void ipmiconsole_ctx_destroy(ipmiconsole_ctx_t c)
{
    struct ipmiconsole_ctx **p;
    if (!c) return;
    shim_event("Idestroy %d %s", c->id, c->host);
    for (p = &all; *p; p = &(*p)->next)
        if (*p == c) { *p = c->next; break; }
    if (c->fd >= 0 && !c->taken) __real_close(c->fd);
    c->magic = 0;                       /* kept allocated: use after destroy is visible */
}
int ipmiconsole_username_is_valid(const char *u) { return !u || strlen(u) <= 16; }
int ipmiconsole_password_is_valid(const char *p) { return !p || strlen(p) <= 20; }
int ipmiconsole_k_g_is_valid(const unsigned char *k, unsigned int n) { (void) k; return n <= 20; }
int ipmiconsole_privilege_level_is_valid(int l) { return l < 0 || l <= 2; }
int ipmiconsole_cipher_suite_id_is_valid(int i)
{ return i < 0 || i == 0 || i == 1 || i == 2 || i == 3 || i == 6 || i == 7 || i == 8 || i == 11 || i == 12 || i == 15 || i == 16 || i == 17; }
int ipmiconsole_workaround_flags_is_valid(unsigned int w) { (void) w; return 1; }

/* Driver command: "<host> ok|err|submitfail|createfail [socket path]", main thread at its gate. */
void shim_ipmi_cmd(const char *line)
{
    char host[256], what[32], path[200] = "";
    struct ipmiconsole_ctx *x;
    if (sscanf(line, "%255s %31s %199s", host, what, path) < 2) return;
    if (!strcmp(what, "submitfail")) { submit_err = 1; return; }
    if (!strcmp(what, "createfail")) { create_err = 1; return; }
    for (x = all; x; x = x->next)
        if (!strcmp(x->host, host) && x->status == IPMICONSOLE_CTX_STATUS_SUBMITTED) break;
    if (!x) { shim_event("Inone %s", host); return; }
    if (!strcmp(what, "ok")) {
        struct sockaddr_un a;
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, path, sizeof(a.sun_path) - 1);
        if (__real_connect(s, (void *) &a, sizeof a) < 0) { shim_event("Inoconn %s", host); return; }
        x->fd = s;
        x->status = IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED;
        shim_event("Iup %d %s %d", x->id, host, s);
    }
    else {
        x->status = IPMICONSOLE_CTX_STATUS_SOL_ERROR;
        x->err = IPMICONSOLE_ERR_SOL_INUSE;
        shim_event("Ierr %d %s", x->id, host);
    }
    x->cb(x->arg);
}
