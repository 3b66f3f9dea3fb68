/* Mini-Mercury over abstract Unix-domain stream sockets (see include/mercury.h).
 *
 * One reader thread per connection.  Incoming connections carry requests (RPC, bulk get, bulk put, hello) and
 * get their replies on the same connection; outgoing connections carry our requests and read replies.  Bulk
 * requests are served directly by the reader thread of the memory's owner (like RDMA: the owner's main thread
 * need not be in HG_Progress).  RPC requests and all completions are queued for HG_Trigger.
 *
 * Environment:
 *   MM_SHUFFLE=<seed>  HG_Trigger picks a pseudo-random queued event instead of the oldest
 *   MM_TRACE=<file>    append one line per RPC request/response seen by this process
 */
#define _GNU_SOURCE
#include "mercury.h"
#include "mercury_thread_pool.h"
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

enum { T_HELLO = 1, T_REQ, T_RESP, T_GET, T_GETR, T_PUT, T_PUTR };
struct hdr {
    uint32_t magic, type;
    uint64_t cookie, id;
    int64_t  ret;
    uint64_t off, len, want;
};
#define MAGIC 0x4d4d3031u

struct conn {
    int             fd, refs, dead, incoming;
    pthread_mutex_t wm;
    char            peer[128];
    struct conn *   next;
};
struct hg_addr {
    int  refs;
    char name[128];
};
struct rpc {
    hg_id_t      id;
    char         name[96];
    hg_proc_cb_t in, out;
    hg_rpc_cb_t  cb;
    int          no_resp;
    struct rpc * next;
};
struct hg_handle {
    struct hg_info info;
    struct rpc *   rpc;
    int            refs;
    void *         data;
    void (*data_free)(void *);
    char *   in;
    size_t   inlen;
    char *   out;
    size_t   outlen;
    hg_cb_t  cb;
    void *   arg;
    uint64_t cookie;
    struct conn *conn; /* incoming: where to send the response */
    int          server, responded;
};
struct hg_bulk {
    int         refs, remote, alloc;
    uint64_t    id;
    uint32_t    n;
    void **     ptr;
    hg_size_t * len;
    hg_size_t   total;
    uint8_t     flags;
    struct hg_bulk *next;
};
struct hg_op_id {
    int dummy;
};
struct pend {
    uint64_t     cookie;
    struct conn *conn;
    int          type; /* T_REQ, T_GET, T_PUT */
    hg_handle_t  h;
    struct ev *  ev; /* for bulk */
    struct pend *next;
};
struct ev {
    struct hg_cb_info ci;
    hg_cb_t           cb;
    hg_handle_t       run; /* server side: run the rpc callback on this handle */
    hg_handle_t       unref;
    hg_addr_t         unaddr;
    hg_bulk_t         ub1, ub2;
    hg_bulk_t         dst;
    hg_size_t         doff, dsize;
    struct ev *       next;
};
struct hg_context {
    hg_class_t *cls;
};
struct hg_class {
    struct hg_addr *self;
    hg_return_t (*create_cb)(hg_handle_t, void *);
    void *create_arg;
};

static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  C;
static struct ev *     q_head, *q_tail;
static int             q_len;
static struct pend *   pends;
static struct conn *   outs;
static struct rpc *    rpcs;
static struct hg_bulk *bulks;
static uint64_t        next_cookie = 1, next_bulk = 1;
static hg_class_t      the_class;
static hg_context_t    the_ctx;
static int             listen_fd = -1;
static unsigned long   shuffle;
static FILE *          tracef;

static void
trace(const char *fmt, ...)
{
    if (!tracef)
        return;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(tracef, fmt, ap);
    va_end(ap);
    fflush(tracef);
}
static int
wr(int fd, const void *b, size_t n)
{
    const char *p = b;
    while (n) {
        ssize_t k = send(fd, p, n, MSG_NOSIGNAL);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
            return -1;
        p += k;
        n -= k;
    }
    return 0;
}
static int
rd(int fd, void *b, size_t n)
{
    char *p = b;
    while (n) {
        ssize_t k = recv(fd, p, n, 0);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
            return -1;
        p += k;
        n -= k;
    }
    return 0;
}
static int
send_msg(struct conn *c, struct hdr *h, const void *body)
{
    int r;
    h->magic = MAGIC;
    pthread_mutex_lock(&c->wm);
    r = c->dead ? -1 : wr(c->fd, h, sizeof *h);
    if (!r && h->len)
        r = wr(c->fd, body, h->len);
    pthread_mutex_unlock(&c->wm);
    return r;
}
static void
enqueue_locked(struct ev *e)
{
    e->next = NULL;
    if (q_tail)
        q_tail->next = e;
    else
        q_head = e;
    q_tail = e;
    q_len++;
    pthread_cond_broadcast(&C);
}
static void
conn_unref_locked(struct conn *c)
{
    if (--c->refs == 0) {
        close(c->fd);
        pthread_mutex_destroy(&c->wm);
        free(c);
    }
}
static struct hg_addr *
mkaddr(const char *n)
{
    struct hg_addr *a = calloc(1, sizeof *a);
    a->refs           = 1;
    snprintf(a->name, sizeof a->name, "%s", n);
    return a;
}
static struct rpc *
find_rpc(hg_id_t id)
{
    struct rpc *r;
    for (r = rpcs; r; r = r->next)
        if (r->id == id)
            return r;
    return NULL;
}
/* copy between a flat buffer and bulk segments; dir 0: bulk -> buf, 1: buf -> bulk */
static int
seg_copy(hg_bulk_t b, uint64_t off, uint64_t len, char *buf, int dir)
{
    uint32_t i;
    if (off + len > b->total)
        return -1;
    for (i = 0; i < b->n && len; i++) {
        if (off >= b->len[i]) {
            off -= b->len[i];
            continue;
        }
        uint64_t k = b->len[i] - off;
        if (k > len)
            k = len;
        if (dir)
            memcpy((char *)b->ptr[i] + off, buf, k);
        else
            memcpy(buf, (char *)b->ptr[i] + off, k);
        buf += k;
        len -= k;
        off = 0;
    }
    return len ? -1 : 0;
}
static hg_bulk_t
find_bulk_locked(uint64_t id)
{
    hg_bulk_t b;
    for (b = bulks; b; b = b->next)
        if (b->id == id)
            return b;
    return NULL;
}

static struct pend *
take_pend_locked(uint64_t cookie)
{
    struct pend **p, *r;
    for (p = &pends; (r = *p); p = &r->next)
        if (r->cookie == cookie) {
            *p = r->next;
            return r;
        }
    return NULL;
}
static void
complete_locked(struct pend *p, hg_return_t ret, char *body, size_t len, struct ev **out)
{
    struct ev *e = NULL;
    if (p->type == T_REQ) {
        hg_handle_t h           = p->h;
        h->out                  = body;
        h->outlen               = len;
        e                       = calloc(1, sizeof *e);
        e->cb                   = h->cb;
        e->ci.arg               = h->arg;
        e->ci.type              = HG_CB_FORWARD;
        e->ci.ret               = ret;
        e->ci.info.forward.handle = h;
        e->unref                = h;
    }
    else {
        e         = p->ev;
        e->ci.ret = ret;
        if (ret == HG_SUCCESS && p->type == T_GET) {
            if (len != e->dsize || seg_copy(e->dst, e->doff, len, body, 1))
                e->ci.ret = HG_OVERFLOW;
        }
        free(body);
    }
    conn_unref_locked(p->conn);
    free(p);
    *out = e;
}
static void *
reader_out(void *v)
{
    struct conn *c = v;
    struct hdr   h;
    struct ev *  e;
    while (!rd(c->fd, &h, sizeof h) && h.magic == MAGIC) {
        char *body = h.len ? malloc(h.len) : NULL;
        if (h.len && rd(c->fd, body, h.len)) {
            free(body);
            break;
        }
        pthread_mutex_lock(&L);
        struct pend *p = take_pend_locked(h.cookie);
        if (p) {
            complete_locked(p, (hg_return_t)h.ret, body, h.len, &e);
            enqueue_locked(e);
        }
        else
            free(body);
        pthread_mutex_unlock(&L);
    }
    pthread_mutex_lock(&c->wm);
    c->dead = 1;
    pthread_mutex_unlock(&c->wm);
    shutdown(c->fd, SHUT_RDWR);
    pthread_mutex_lock(&L);
    struct pend **pp = &pends, *p;
    while ((p = *pp))
        if (p->conn == c) {
            *pp = p->next;
            complete_locked(p, HG_HOSTUNREACH, NULL, 0, &e);
            enqueue_locked(e);
        }
        else
            pp = &p->next;
    struct conn **cp;
    for (cp = &outs; *cp; cp = &(*cp)->next)
        if (*cp == c) {
            *cp = c->next;
            conn_unref_locked(c);
            break;
        }
    conn_unref_locked(c);
    pthread_mutex_unlock(&L);
    return NULL;
}
static void *
reader_in(void *v)
{
    struct conn *c = v;
    struct hdr   h;
    while (!rd(c->fd, &h, sizeof h) && h.magic == MAGIC) {
        char *body = h.len ? malloc(h.len) : NULL;
        if (h.len && rd(c->fd, body, h.len)) {
            free(body);
            break;
        }
        struct hdr r = {0};
        r.cookie     = h.cookie;
        if (h.type == T_HELLO) {
            snprintf(c->peer, sizeof c->peer, "%.*s", (int)h.len, body);
            free(body);
        }
        else if (h.type == T_REQ) {
            struct rpc *rp = find_rpc(h.id);
            if (!rp || !rp->cb) {
                free(body);
                r.type = T_RESP;
                r.ret  = HG_NOENTRY;
                send_msg(c, &r, NULL);
                continue;
            }
            hg_handle_t hd    = calloc(1, sizeof *hd);
            hd->refs          = 1;
            hd->server        = 1;
            hd->rpc           = rp;
            hd->in            = body;
            hd->inlen         = h.len;
            hd->cookie        = h.cookie;
            hd->info.hg_class = &the_class;
            hd->info.context  = &the_ctx;
            hd->info.addr     = mkaddr(c->peer);
            hd->info.id       = h.id;
            hd->conn          = c;
            struct ev *e      = calloc(1, sizeof *e);
            e->run            = hd;
            pthread_mutex_lock(&L);
            c->refs++;
            if (the_class.create_cb)
                the_class.create_cb(hd, the_class.create_arg);
            enqueue_locked(e);
            pthread_mutex_unlock(&L);
        }
        else if (h.type == T_GET) {
            char *buf = malloc(h.want ? h.want : 1);
            pthread_mutex_lock(&L);
            hg_bulk_t b = find_bulk_locked(h.id);
            if (!b || seg_copy(b, h.off, h.want, buf, 0))
                r.ret = b ? HG_OVERFLOW : HG_NOENTRY;
            pthread_mutex_unlock(&L);
            r.type = T_GETR;
            r.len  = r.ret ? 0 : h.want;
            send_msg(c, &r, buf);
            free(buf);
            free(body);
        }
        else if (h.type == T_PUT) {
            pthread_mutex_lock(&L);
            hg_bulk_t b = find_bulk_locked(h.id);
            if (!b || seg_copy(b, h.off, h.len, body, 1))
                r.ret = b ? HG_OVERFLOW : HG_NOENTRY;
            pthread_mutex_unlock(&L);
            r.type = T_PUTR;
            send_msg(c, &r, NULL);
            free(body);
        }
        else
            free(body);
    }
    pthread_mutex_lock(&c->wm);
    c->dead = 1;
    pthread_mutex_unlock(&c->wm);
    shutdown(c->fd, SHUT_RDWR);
    pthread_mutex_lock(&L);
    conn_unref_locked(c);
    pthread_mutex_unlock(&L);
    return NULL;
}
static void
spawn(void *(*f)(void *), void *a)
{
    pthread_t      t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_attr_setstacksize(&at, 256 * 1024);
    if (pthread_create(&t, &at, f, a)) {
        perror("minihg: pthread_create");
        _exit(98);
    }
    pthread_attr_destroy(&at);
}
static socklen_t
mksun(struct sockaddr_un *s, const char *name)
{
    memset(s, 0, sizeof *s);
    s->sun_family = AF_UNIX;
    size_t n      = strlen(name);
    if (n > sizeof(s->sun_path) - 1)
        n = sizeof(s->sun_path) - 1;
    memcpy(s->sun_path + 1, name, n);
    return (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + n);
}
static void *
acceptor(void *v)
{
    for (;;) {
        int fd = accept(listen_fd, NULL, NULL);
        if (fd < 0) {
            if (errno == EINTR || errno == ECONNABORTED)
                continue;
            return NULL;
        }
        struct conn *c = calloc(1, sizeof *c);
        c->fd          = fd;
        c->refs        = 1;
        c->incoming    = 1;
        pthread_mutex_init(&c->wm, NULL);
        spawn(reader_in, c);
    }
}
/* returns a referenced connection */
static struct conn *
get_conn(const char *name)
{
    struct conn *c;
    pthread_mutex_lock(&L);
    for (c = outs; c; c = c->next)
        if (!c->dead && !strcmp(c->peer, name)) {
            c->refs++;
            pthread_mutex_unlock(&L);
            return c;
        }
    struct sockaddr_un s;
    socklen_t          sl = mksun(&s, name);
    int                fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (fd < 0 || connect(fd, (struct sockaddr *)&s, sl)) {
        if (fd >= 0)
            close(fd);
        pthread_mutex_unlock(&L);
        return NULL;
    }
    c       = calloc(1, sizeof *c);
    c->fd   = fd;
    c->refs = 3; /* list, reader, caller */
    pthread_mutex_init(&c->wm, NULL);
    snprintf(c->peer, sizeof c->peer, "%s", name);
    c->next = outs;
    outs    = c;
    spawn(reader_out, c);
    pthread_mutex_unlock(&L);
    struct hdr h = {0};
    h.type       = T_HELLO;
    h.len        = strlen(the_class.self->name) + 1;
    send_msg(c, &h, the_class.self->name);
    return c;
}

/* ---------------------------------------------------------------- class, context */
hg_return_t
HG_Version_get(unsigned *a, unsigned *b, unsigned *c)
{
    *a = 2;
    *b = 2;
    *c = 0;
    return HG_SUCCESS;
}
const char *
HG_Error_to_string(hg_return_t r)
{
    static __thread char b[32];
    snprintf(b, sizeof b, "HG error %d", (int)r);
    return b;
}
hg_class_t *
HG_Init_opt(const char *info, uint8_t listen_, const struct hg_init_info *ii)
{
    char               name[96];
    struct timespec    ts;
    struct sockaddr_un s;
    static int         once;
    if (!once) {
        pthread_condattr_t ca;
        pthread_condattr_init(&ca);
        pthread_condattr_setclock(&ca, CLOCK_MONOTONIC);
        pthread_cond_init(&C, &ca);
        if (getenv("MM_SHUFFLE"))
            shuffle = strtoul(getenv("MM_SHUFFLE"), NULL, 10);
        if (getenv("MM_TRACE"))
            tracef = fopen(getenv("MM_TRACE"), "a");
        once = 1;
    }
    clock_gettime(CLOCK_REALTIME, &ts);
    snprintf(name, sizeof name, "mm-%d-%lx%lx", (int)getpid(), (long)ts.tv_sec, (long)ts.tv_nsec);
    listen_fd    = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    socklen_t sl = mksun(&s, name);
    if (bind(listen_fd, (struct sockaddr *)&s, sl) || listen(listen_fd, 256)) {
        perror("minihg: bind");
        return NULL;
    }
    the_class.self = mkaddr(name);
    spawn(acceptor, NULL);
    return &the_class;
}
hg_class_t *
HG_Init(const char *i, uint8_t l)
{
    return HG_Init_opt(i, l, NULL);
}
hg_return_t
HG_Finalize(hg_class_t *c)
{
    if (listen_fd >= 0) {
        shutdown(listen_fd, SHUT_RDWR);
        close(listen_fd);
        listen_fd = -1;
    }
    return HG_SUCCESS;
}
void
HG_Cleanup(void)
{
}
hg_context_t *
HG_Context_create(hg_class_t *c)
{
    the_ctx.cls = c;
    return &the_ctx;
}
hg_return_t
HG_Context_destroy(hg_context_t *c)
{
    return HG_SUCCESS;
}
hg_class_t *
HG_Context_get_class(const hg_context_t *c)
{
    return c->cls;
}
hg_return_t
HG_Class_set_handle_create_callback(hg_class_t *c, hg_return_t (*cb)(hg_handle_t, void *), void *a)
{
    c->create_cb  = cb;
    c->create_arg = a;
    return HG_SUCCESS;
}
hg_id_t
HG_Register_name(hg_class_t *c, const char *name, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb)
{
    uint64_t    h = 1469598103934665603ull;
    const char *p;
    for (p = name; *p; p++)
        h = (h ^ (uint8_t)*p) * 1099511628211ull;
    pthread_mutex_lock(&L);
    struct rpc *r = find_rpc(h);
    if (!r) {
        r       = calloc(1, sizeof *r);
        r->id   = h;
        r->next = rpcs;
        rpcs    = r;
        snprintf(r->name, sizeof r->name, "%s", name);
    }
    r->in  = in;
    r->out = out;
    r->cb  = cb;
    pthread_mutex_unlock(&L);
    return h;
}
hg_return_t
HG_Registered_disable_response(hg_class_t *c, hg_id_t id, hg_bool_t d)
{
    struct rpc *r = find_rpc(id);
    if (!r)
        return HG_NOENTRY;
    r->no_resp = d;
    return HG_SUCCESS;
}
/* ---------------------------------------------------------------- addresses */
hg_return_t
HG_Addr_lookup(hg_context_t *ctx, hg_cb_t cb, void *arg, const char *name, hg_op_id_t *op)
{
    struct ev *e       = calloc(1, sizeof *e);
    e->cb              = cb;
    e->ci.arg          = arg;
    e->ci.type         = HG_CB_LOOKUP;
    e->ci.info.lookup.addr = mkaddr(name);
    pthread_mutex_lock(&L);
    enqueue_locked(e);
    pthread_mutex_unlock(&L);
    return HG_SUCCESS;
}
hg_return_t
HG_Addr_self(hg_class_t *c, hg_addr_t *a)
{
    return HG_Addr_dup(c, c->self, a);
}
hg_return_t
HG_Addr_dup(hg_class_t *c, hg_addr_t a, hg_addr_t *b)
{
    if (!a)
        return HG_INVALID_ARG;
    __atomic_add_fetch(&a->refs, 1, __ATOMIC_SEQ_CST);
    *b = a;
    return HG_SUCCESS;
}
hg_bool_t
HG_Addr_cmp(hg_class_t *c, hg_addr_t a, hg_addr_t b)
{
    return a == b || (a && b && strcmp(a->name, b->name) == 0);
}
hg_return_t
HG_Addr_free(hg_class_t *c, hg_addr_t a)
{
    if (a && __atomic_sub_fetch(&a->refs, 1, __ATOMIC_SEQ_CST) == 0)
        free(a);
    return HG_SUCCESS;
}
hg_return_t
HG_Addr_to_string(hg_class_t *c, char *b, hg_size_t *n, hg_addr_t a)
{
    hg_size_t k = strlen(a->name) + 1;
    if (b) {
        if (*n < k) {
            *n = k;
            return HG_OVERFLOW;
        }
        memcpy(b, a->name, k);
    }
    *n = k;
    return HG_SUCCESS;
}
/* ---------------------------------------------------------------- handles */
hg_return_t
HG_Create(hg_context_t *ctx, hg_addr_t a, hg_id_t id, hg_handle_t *out)
{
    struct rpc *r = find_rpc(id);
    if (!r) {
        *out = NULL;
        return HG_NOENTRY;
    }
    hg_handle_t h    = calloc(1, sizeof *h);
    h->refs          = 1;
    h->rpc           = r;
    h->info.hg_class = ctx->cls;
    h->info.context  = ctx;
    h->info.id       = id;
    if (a)
        HG_Addr_dup(ctx->cls, a, &h->info.addr);
    if (the_class.create_cb)
        the_class.create_cb(h, the_class.create_arg);
    *out = h;
    return HG_SUCCESS;
}
hg_return_t
HG_Ref_incr(hg_handle_t h)
{
    __atomic_add_fetch(&h->refs, 1, __ATOMIC_SEQ_CST);
    return HG_SUCCESS;
}
hg_return_t
HG_Destroy(hg_handle_t h)
{
    if (!h)
        return HG_SUCCESS;
    if (__atomic_sub_fetch(&h->refs, 1, __ATOMIC_SEQ_CST) == 0) {
        if (h->data && h->data_free)
            h->data_free(h->data);
        free(h->in);
        free(h->out);
        if (h->info.addr)
            HG_Addr_free(h->info.hg_class, h->info.addr);
        if (h->conn) {
            pthread_mutex_lock(&L);
            conn_unref_locked(h->conn);
            pthread_mutex_unlock(&L);
        }
        free(h);
    }
    return HG_SUCCESS;
}
const struct hg_info *
HG_Get_info(hg_handle_t h)
{
    return &h->info;
}
hg_return_t
HG_Set_data(hg_handle_t h, void *d, void (*f)(void *))
{
    h->data      = d;
    h->data_free = f;
    return HG_SUCCESS;
}
void *
HG_Get_data(hg_handle_t h)
{
    return h->data;
}
/* ---------------------------------------------------------------- proc */
struct hg_proc {
    hg_proc_op_t op;
    char *       buf;
    size_t       cap, pos;
};
hg_proc_op_t
hg_proc_get_op(hg_proc_t p)
{
    return p->op;
}
hg_return_t
hg_proc_raw(hg_proc_t p, void *d, hg_size_t n)
{
    switch (p->op) {
        case HG_ENCODE:
            if (p->pos + n > p->cap) {
                p->cap = (p->pos + n) * 2 + 256;
                p->buf = realloc(p->buf, p->cap);
            }
            memcpy(p->buf + p->pos, d, n);
            p->pos += n;
            break;
        case HG_DECODE:
            if (p->pos + n > p->cap)
                return HG_OVERFLOW;
            memcpy(d, p->buf + p->pos, n);
            p->pos += n;
            break;
        case HG_FREE:
            break;
    }
    return HG_SUCCESS;
}
hg_return_t
hg_proc_hg_bulk_t(hg_proc_t p, void *d)
{
    hg_bulk_t * bp = d;
    hg_return_t r;
    uint64_t    id = 0, tot = 0;
    uint32_t    n = 0, i;
    uint8_t     fl = 0;
    switch (p->op) {
        case HG_ENCODE:
            if (*bp) {
                id  = (*bp)->id;
                tot = (*bp)->total;
                n   = (*bp)->n;
                fl  = (*bp)->flags;
            }
            if ((r = hg_proc_raw(p, &id, 8)) || (r = hg_proc_raw(p, &tot, 8)) || (r = hg_proc_raw(p, &n, 4)) ||
                (r = hg_proc_raw(p, &fl, 1)))
                return r;
            for (i = 0; i < n; i++)
                if ((r = hg_proc_raw(p, &(*bp)->len[i], 8)))
                    return r;
            return HG_SUCCESS;
        case HG_DECODE:
            if ((r = hg_proc_raw(p, &id, 8)) || (r = hg_proc_raw(p, &tot, 8)) || (r = hg_proc_raw(p, &n, 4)) ||
                (r = hg_proc_raw(p, &fl, 1)))
                return r;
            if (id == 0) {
                *bp = NULL;
                return HG_SUCCESS;
            }
            {
                hg_bulk_t b = calloc(1, sizeof *b);
                b->refs     = 1;
                b->remote   = 1;
                b->id       = id;
                b->total    = tot;
                b->n        = n;
                b->flags    = fl;
                b->len      = calloc(n ? n : 1, sizeof(hg_size_t));
                for (i = 0; i < n; i++)
                    if ((r = hg_proc_raw(p, &b->len[i], 8))) {
                        HG_Bulk_free(b);
                        return r;
                    }
                *bp = b;
            }
            return HG_SUCCESS;
        case HG_FREE:
            HG_Bulk_free(*bp);
            *bp = NULL;
            return HG_SUCCESS;
    }
    return HG_SUCCESS;
}
static hg_return_t
encode(hg_proc_cb_t f, void *s, char **buf, size_t *n)
{
    struct hg_proc p = {HG_ENCODE, NULL, 0, 0};
    hg_return_t    r = HG_SUCCESS;
    if (f && s)
        r = f(&p, s);
    *buf = p.buf;
    *n   = p.pos;
    return r;
}
static hg_return_t
decode(hg_proc_cb_t f, void *s, char *buf, size_t n)
{
    struct hg_proc p = {HG_DECODE, buf, n, 0};
    return f && s ? f(&p, s) : HG_SUCCESS;
}
static hg_return_t
freeit(hg_proc_cb_t f, void *s)
{
    struct hg_proc p = {HG_FREE, NULL, 0, 0};
    return f && s ? f(&p, s) : HG_SUCCESS;
}
hg_return_t
HG_Get_input(hg_handle_t h, void *s)
{
    hg_return_t r = decode(h->rpc->in, s, h->in, h->inlen);
    if (r == HG_SUCCESS)
        HG_Ref_incr(h);
    return r;
}
hg_return_t
HG_Free_input(hg_handle_t h, void *s)
{
    hg_return_t r = freeit(h->rpc->in, s);
    HG_Destroy(h);
    return r;
}
hg_return_t
HG_Get_output(hg_handle_t h, void *s)
{
    hg_return_t r = decode(h->rpc->out, s, h->out, h->outlen);
    if (r == HG_SUCCESS)
        HG_Ref_incr(h);
    return r;
}
hg_return_t
HG_Free_output(hg_handle_t h, void *s)
{
    hg_return_t r = freeit(h->rpc->out, s);
    HG_Destroy(h);
    return r;
}
hg_return_t
HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in)
{
    char *      buf;
    struct hdr  m = {0};
    hg_return_t r;
    size_t      n;
    struct ev * e;
    if (!h || !h->info.addr)
        return HG_INVALID_ARG;
    if ((r = encode(h->rpc->in, in, &buf, &n))) {
        free(buf);
        return r;
    }
    h->cb  = cb;
    h->arg = arg;
    free(h->out);
    h->out = NULL;
    HG_Ref_incr(h);
    struct conn *c = get_conn(h->info.addr->name);
    trace("%d forward %s -> %s\n", (int)getpid(), h->rpc->name, h->info.addr->name);
    struct pend *p = calloc(1, sizeof *p);
    p->type        = T_REQ;
    p->h           = h;
    p->conn        = c;
    pthread_mutex_lock(&L);
    p->cookie = m.cookie = next_cookie++;
    if (c && !h->rpc->no_resp) {
        c->refs++;
        p->next = pends;
        pends   = p;
    }
    pthread_mutex_unlock(&L);
    m.type   = T_REQ;
    m.id     = h->rpc->id;
    m.len    = n;
    int fail = !c || send_msg(c, &m, buf);
    free(buf);
    pthread_mutex_lock(&L);
    if (!c || h->rpc->no_resp) {
        if (c)
            c->refs++;
        else {
            static struct conn dummy = {.fd = -1, .refs = 1 << 30};
            p->conn                  = &dummy;
        }
        complete_locked(p, fail ? HG_HOSTUNREACH : HG_SUCCESS, NULL, 0, &e);
        enqueue_locked(e);
    }
    else if (fail) {
        /* the reader may have completed it already */
        p = take_pend_locked(m.cookie);
        if (p) {
            complete_locked(p, HG_HOSTUNREACH, NULL, 0, &e);
            enqueue_locked(e);
        }
    }
    if (c)
        conn_unref_locked(c);
    pthread_mutex_unlock(&L);
    return HG_SUCCESS;
}
hg_return_t
HG_Respond(hg_handle_t h, hg_cb_t cb, void *arg, void *out)
{
    char *      buf;
    size_t      n;
    struct hdr  m = {0};
    hg_return_t r;
    if (!h || !h->server)
        return HG_INVALID_ARG;
    if ((r = encode(h->rpc->out, out, &buf, &n))) {
        free(buf);
        return r;
    }
    if (__atomic_exchange_n(&h->responded, 1, __ATOMIC_SEQ_CST)) {
        fprintf(stderr, "minihg: second response to one %s request\n", h->rpc->name);
        free(buf);
        return HG_FAULT;
    }
    m.type   = T_RESP;
    m.cookie = h->cookie;
    m.len    = n;
    HG_Ref_incr(h);
    if (!h->rpc->no_resp)
        send_msg(h->conn, &m, buf);
    trace("%d respond %s\n", (int)getpid(), h->rpc->name);
    free(buf);
    struct ev *e              = calloc(1, sizeof *e);
    e->cb                     = cb;
    e->ci.arg                 = arg;
    e->ci.type                = HG_CB_RESPOND;
    e->ci.info.respond.handle = h;
    e->unref                  = h;
    pthread_mutex_lock(&L);
    enqueue_locked(e);
    pthread_mutex_unlock(&L);
    return HG_SUCCESS;
}
hg_return_t
HG_Cancel(hg_handle_t h)
{
    return HG_SUCCESS;
}
/* ---------------------------------------------------------------- progress */
static int
wait_event(unsigned ms)
{
    int             r = 0;
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    ts.tv_sec += ms / 1000;
    ts.tv_nsec += (long)(ms % 1000) * 1000000L;
    if (ts.tv_nsec >= 1000000000L) {
        ts.tv_sec++;
        ts.tv_nsec -= 1000000000L;
    }
    while (!q_head && r != ETIMEDOUT)
        r = pthread_cond_timedwait(&C, &L, &ts);
    return q_head != NULL;
}
hg_return_t
HG_Progress(hg_context_t *c, unsigned ms)
{
    pthread_mutex_lock(&L);
    int ok = q_head || (ms && wait_event(ms));
    pthread_mutex_unlock(&L);
    return ok ? HG_SUCCESS : HG_TIMEOUT;
}
static unsigned long
rnd(void)
{
    shuffle ^= shuffle << 13;
    shuffle ^= shuffle >> 7;
    shuffle ^= shuffle << 17;
    return shuffle;
}
hg_return_t
HG_Trigger(hg_context_t *c, unsigned ms, unsigned max, unsigned *actual)
{
    unsigned n = 0;
    while (n < max) {
        pthread_mutex_lock(&L);
        if (!q_head && (n || !ms || !wait_event(ms))) {
            pthread_mutex_unlock(&L);
            break;
        }
        struct ev **pp = &q_head, *e, *prev = NULL;
        if (shuffle && q_len > 1) {
            int k = rnd() % q_len;
            while (k--) {
                prev = *pp;
                pp   = &(*pp)->next;
            }
        }
        e   = *pp;
        *pp = e->next;
        if (q_tail == e)
            q_tail = prev;
        q_len--;
        pthread_mutex_unlock(&L);
        n++;
        if (e->run) {
            trace("%d request %s\n", (int)getpid(), e->run->rpc->name);
            e->run->rpc->cb(e->run);
        }
        else if (e->cb)
            e->cb(&e->ci);
        if (e->unref)
            HG_Destroy(e->unref);
        if (e->ub1)
            HG_Bulk_free(e->ub1);
        if (e->ub2)
            HG_Bulk_free(e->ub2);
        free(e);
    }
    if (actual)
        *actual = n;
    return n ? HG_SUCCESS : HG_TIMEOUT;
}
/* ---------------------------------------------------------------- bulk */
hg_return_t
HG_Bulk_create(hg_class_t *c, hg_uint32_t n, void **bufs, const hg_size_t *sizes, hg_uint8_t flags, hg_bulk_t *out)
{
    uint32_t i;
    if (!n || !sizes)
        return HG_INVALID_ARG;
    hg_bulk_t b = calloc(1, sizeof *b);
    b->refs     = 1;
    b->n        = n;
    b->flags    = flags;
    b->ptr      = calloc(n, sizeof(void *));
    b->len      = calloc(n, sizeof(hg_size_t));
    b->alloc    = !bufs;
    for (i = 0; i < n; i++) {
        b->len[i] = sizes[i];
        b->ptr[i] = bufs ? bufs[i] : calloc(1, sizes[i] ? sizes[i] : 1);
        b->total += sizes[i];
    }
    pthread_mutex_lock(&L);
    b->id   = next_bulk++;
    b->next = bulks;
    bulks   = b;
    pthread_mutex_unlock(&L);
    *out = b;
    return HG_SUCCESS;
}
hg_return_t
HG_Bulk_ref_incr(hg_bulk_t b)
{
    __atomic_add_fetch(&b->refs, 1, __ATOMIC_SEQ_CST);
    return HG_SUCCESS;
}
hg_return_t
HG_Bulk_free(hg_bulk_t b)
{
    uint32_t i;
    if (!b)
        return HG_SUCCESS;
    if (__atomic_sub_fetch(&b->refs, 1, __ATOMIC_SEQ_CST))
        return HG_SUCCESS;
    if (!b->remote) {
        pthread_mutex_lock(&L);
        struct hg_bulk **p;
        for (p = &bulks; *p; p = &(*p)->next)
            if (*p == b) {
                *p = b->next;
                break;
            }
        pthread_mutex_unlock(&L);
        if (b->alloc)
            for (i = 0; i < b->n; i++)
                free(b->ptr[i]);
    }
    free(b->ptr);
    free(b->len);
    free(b);
    return HG_SUCCESS;
}
hg_size_t
HG_Bulk_get_size(hg_bulk_t b)
{
    return b->total;
}
hg_uint32_t
HG_Bulk_get_segment_count(hg_bulk_t b)
{
    return b->n;
}
hg_return_t
HG_Bulk_access(hg_bulk_t b, hg_size_t off, hg_size_t size, hg_uint8_t flags, hg_uint32_t max, void **ptrs,
               hg_size_t *sizes, hg_uint32_t *actual)
{
    uint32_t i, k = 0;
    if (b->remote) {
        if (actual)
            *actual = 0;
        return HG_OPNOTSUPPORTED;
    }
    for (i = 0; i < b->n && k < max && size; i++) {
        if (off >= b->len[i]) {
            off -= b->len[i];
            continue;
        }
        hg_size_t m = b->len[i] - off;
        if (m > size)
            m = size;
        ptrs[k] = (char *)b->ptr[i] + off;
        if (sizes)
            sizes[k] = m;
        k++;
        size -= m;
        off = 0;
    }
    if (actual)
        *actual = k;
    return HG_SUCCESS;
}
hg_return_t
HG_Bulk_transfer(hg_context_t *ctx, hg_cb_t cb, void *arg, hg_bulk_op_t op, hg_addr_t addr, hg_bulk_t origin,
                 hg_size_t ooff, hg_bulk_t local, hg_size_t loff, hg_size_t size, hg_op_id_t *opid)
{
    if (!origin || !local || !addr || local->remote)
        return HG_INVALID_ARG;
    if (ooff + size > origin->total || loff + size > local->total) {
        fprintf(stderr, "minihg: bulk transfer out of bounds (%lu+%lu of %lu, %lu+%lu of %lu)\n",
                (long)ooff, (long)size, (long)origin->total, (long)loff, (long)size, (long)local->total);
        return HG_OVERFLOW;
    }
    struct ev *e                  = calloc(1, sizeof *e);
    e->cb                         = cb;
    e->ci.arg                     = arg;
    e->ci.type                    = HG_CB_BULK;
    e->ci.info.bulk.origin_handle = origin;
    e->ci.info.bulk.local_handle  = local;
    e->ci.info.bulk.op            = op;
    e->ci.info.bulk.size          = size;
    e->dst                        = local;
    e->doff                       = loff;
    e->dsize                      = size;
    HG_Bulk_ref_incr(origin);
    HG_Bulk_ref_incr(local);
    e->ub1 = origin;
    e->ub2 = local;
    struct hdr   m = {0};
    struct conn *c = get_conn(addr->name);
    char *       buf = NULL;
    int          fail = 0;
    m.id   = origin->id;
    m.off  = ooff;
    m.type = op == HG_BULK_PULL ? T_GET : T_PUT;
    if (op == HG_BULK_PULL)
        m.want = size;
    else {
        buf   = malloc(size ? size : 1);
        m.len = size;
        seg_copy(local, loff, size, buf, 0);
    }
    struct pend *p = calloc(1, sizeof *p);
    p->type        = m.type;
    p->ev          = e;
    p->conn        = c;
    pthread_mutex_lock(&L);
    p->cookie = m.cookie = next_cookie++;
    if (c) {
        c->refs++;
        p->next = pends;
        pends   = p;
    }
    pthread_mutex_unlock(&L);
    fail = !c || send_msg(c, &m, buf);
    free(buf);
    pthread_mutex_lock(&L);
    if (!c) {
        e->ci.ret = HG_HOSTUNREACH;
        enqueue_locked(e);
        free(p);
    }
    else {
        if (fail && (p = take_pend_locked(m.cookie))) {
            complete_locked(p, HG_HOSTUNREACH, NULL, 0, &e);
            enqueue_locked(e);
        }
        conn_unref_locked(c);
    }
    pthread_mutex_unlock(&L);
    return HG_SUCCESS;
}
/* ---------------------------------------------------------------- thread pool */
struct hg_thread_pool {
    pthread_mutex_t        m;
    pthread_cond_t         c;
    struct hg_thread_work *head, *tail;
    int                    stop;
    unsigned               n;
    pthread_t *            t;
};
static void *
pool_main(void *v)
{
    hg_thread_pool_t *p = v;
    for (;;) {
        pthread_mutex_lock(&p->m);
        while (!p->head && !p->stop)
            pthread_cond_wait(&p->c, &p->m);
        if (!p->head) {
            pthread_mutex_unlock(&p->m);
            return NULL;
        }
        struct hg_thread_work *w = p->head;
        p->head                  = w->next;
        if (!p->head)
            p->tail = NULL;
        pthread_mutex_unlock(&p->m);
        w->func(w->args);
    }
}
int
hg_thread_pool_init(unsigned n, hg_thread_pool_t **out)
{
    hg_thread_pool_t *p = calloc(1, sizeof *p);
    pthread_mutex_init(&p->m, NULL);
    pthread_cond_init(&p->c, NULL);
    p->n = n;
    p->t = calloc(n, sizeof(pthread_t));
    for (unsigned i = 0; i < n; i++)
        pthread_create(&p->t[i], NULL, pool_main, p);
    *out = p;
    return 0;
}
int
hg_thread_pool_destroy(hg_thread_pool_t *p)
{
    pthread_mutex_lock(&p->m);
    p->stop = 1;
    pthread_cond_broadcast(&p->c);
    pthread_mutex_unlock(&p->m);
    for (unsigned i = 0; i < p->n; i++)
        pthread_join(p->t[i], NULL);
    free(p->t);
    free(p);
    return 0;
}
int
hg_thread_pool_post(hg_thread_pool_t *p, struct hg_thread_work *w)
{
    pthread_mutex_lock(&p->m);
    w->next = NULL;
    if (p->tail)
        p->tail->next = w;
    else
        p->head = w;
    p->tail = w;
    pthread_cond_signal(&p->c);
    pthread_mutex_unlock(&p->m);
    return 0;
}

/* ---- a back trace on stderr when the program under test crashes (the exit status is unchanged) ---- */
#include <execinfo.h>
#include <signal.h>
#include <sys/resource.h>
/* what memory a process may take, set before it can take any */
__attribute__((constructor)) static void
limit_memory(void)
{
    const char *  m = getenv("MM_MEM");
    struct rlimit r;
    if (m) {
        r.rlim_cur = r.rlim_max = strtoull(m, NULL, 10);
        setrlimit(RLIMIT_AS, &r);
    }
}

static void
mm_on_crash(int sig)
{
    void *bt[40];
    int   n = backtrace(bt, 40);
    fflush(stdout);
    backtrace_symbols_fd(bt, n, 2);
    signal(sig, SIG_DFL);
    raise(sig);
}

__attribute__((constructor)) static void
mm_crash_init(void)
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    void *bt[2];
    backtrace(bt, 2);
    signal(SIGSEGV, mm_on_crash);
    signal(SIGABRT, mm_on_crash);
    signal(SIGBUS, mm_on_crash);
    signal(SIGFPE, mm_on_crash);
#endif
}
