/* See sched.h. */
#include "sched.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

enum { RUN, MUTEX, COND, JOIN, SLEEP, DONE };
#define MAXT 80
static struct thr {
    sem_t    sem;
    int      state, signalled, handling, prio;
    void *   mutex, *cond;
    int      join;
    uint64_t pending, masked;
    void *(*f)(void *);
    void *arg, *ret;
} T[MAXT];
static int          nt, cur, on, how, spur;
static __thread int me = -1;
static uint64_t     rs;
long                s_steps, s_limit = 150000;
static long         change[4];
static int          low;
static struct {
    void *m;
    int   owner;
} M[4096];
static int nm;
static void (*handler[65])(int);

#define ARENA (8 << 20)
static char          arena[ARENA] __attribute__((aligned(64)));
static unsigned char shadow[ARENA / 16]; /* 0 never, 1 in use, 2 freed */
static long          top = 64, live;

void
s_die(const char *what)
{
    fflush(stdout);
    fprintf(stderr, "ERROR: %s after %ld steps\n", what, s_steps);
    _exit(77);
}
static unsigned
rnd(unsigned n)
{
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return (unsigned)((rs >> 20) % n);
}
static int *
owner(void *m)
{
    int i;
    for (i = 0; i < nm; i++)
        if (M[i].m == m)
            return &M[i].owner;
    if (nm == 4096)
        s_die("too many mutexes");
    M[nm].m     = m;
    M[nm].owner = -1;
    return &M[nm++].owner;
}
static int
due(struct thr *t)
{
    return (t->pending & ~t->masked) && !t->handling;
}
static int
ready(struct thr *t)
{
    if (t->state == DONE)
        return 0;
    if (t->state == RUN || t->state == SLEEP || due(t))
        return 1;
    if (t->state == MUTEX)
        return *owner(t->mutex) < 0;
    if (t->state == JOIN)
        return T[t->join].state == DONE;
    return t->signalled;
}
/* give the processor to the thread that is chosen; returns when this one is chosen again */
static void
yield_(void)
{
    int r[MAXT], n = 0, i, k = -1, s = me;
    if (++s_steps > s_limit)
        s_die("no end");
    for (i = 0; i < nt; i++)
        if (ready(&T[i]))
            r[n++] = i;
    if (spur && n && !rnd(40))
        for (i = 0; i < nt; i++)
            if (T[i].state == COND && !T[i].signalled && !rnd(3)) { /* cond_wait may return for no reason */
                T[i].signalled = 1;
                r[n++]         = i;
            }
    if (!n)
        s_die("deadlock");
    if (how == 2 && s_steps < 20000) { /* priorities, changed a few times */
        for (i = 0; i < 4; i++)
            if (change[i] == s_steps)
                T[s].prio = --low;
        if (T[s].state == SLEEP)
            T[s].prio = --low;
        for (i = 0; i < n; i++)
            if (k < 0 || T[r[i]].prio > T[k].prio)
                k = r[i];
    }
    else if ((how == 1 || how == 3) && ready(&T[s]) && T[s].state != SLEEP && rnd(how == 1 ? 10 : 60))
        k = s;
    else
        k = r[rnd(n)];
    if (k == s)
        return;
    cur = k;
    sem_post(&T[k].sem);
    if (T[s].state != DONE)
        while (sem_wait(&T[s].sem))
            ;
}
/* wait until what the state says has come; signals are taken meanwhile */
static void
block(int state)
{
    struct thr *t = &T[me];
    t->state      = state;
    for (;;) {
        yield_();
        if (due(t)) {
            int b, st = t->state;
            for (b = 1; b < 64 && !(t->pending & ~t->masked & (1ull << b)); b++)
                ;
            t->pending &= ~(1ull << b);
            t->state    = RUN;
            t->handling = 1;
            if (handler[b])
                handler[b](b);
            else
                s_die("a signal nobody handles");
            t->handling = 0;
            t->state    = st;
            if (st == RUN || st == SLEEP)
                break;
            continue;
        }
        if (ready(t))
            break;
    }
    t->state = RUN;
}
void
s_point(void)
{
    if (on && me >= 0)
        block(RUN);
}
static void
touch(void *p, long n)
{
    long o = (char *)p - arena, i;
    if (o >= 0 && o < ARENA)
        for (i = o / 16; i <= (o + n - 1) / 16 && i < ARENA / 16; i++)
            if (shadow[i] != 1)
                s_die(shadow[i] == 2 ? "use of freed memory" : "use of memory nobody has");
}
static void
acc(void *p, long n)
{
    touch(p, n);
    s_point();
    touch(p, n); /* somebody else may have freed it */
}
void *
s_malloc(unsigned long n)
{
    long k = (long)(n + 15) / 16, i;
    char *p;
    s_point();
    if (!k)
        k = 1;
    p = arena + top;
    for (i = 0; i < k; i++)
        shadow[top / 16 + i] = 1;
    top += (k + 1) * 16;
    if (top > ARENA - 65536)
        s_die("out of memory");
    memset(p, 0xA5, n);
    live++;
    return p;
}
void *
s_calloc(unsigned long n, unsigned long m)
{
    void *p = s_malloc(n * m);
    memset(p, 0, n * m);
    return p;
}
void
s_free(void *p)
{
    long i;
    s_point();
    if (!p)
        return;
    if ((char *)p < arena || (char *)p >= arena + ARENA || shadow[((char *)p - arena) / 16] != 1)
        s_die("free of what is not in use");
    for (i = ((char *)p - arena) / 16; shadow[i] == 1; i++)
        shadow[i] = 2;
    live--;
}
int
s_live(void)
{
    return (int)live;
}
int
s_mutex_init(void *m, const void *a)
{
    acc(m, 8);
    *owner(m) = -1;
    return 0;
}
int
s_mutex_destroy(void *m)
{
    acc(m, 8);
    if (*owner(m) >= 0)
        s_die("a mutex destroyed while it is locked");
    return 0;
}
int
s_mutex_lock(void *m)
{
    acc(m, 8);
    while (*owner(m) >= 0) {
        T[me].mutex = m;
        block(MUTEX);
    }
    touch(m, 8);
    *owner(m) = me;
    s_point();
    return 0;
}
int
s_mutex_trylock(void *m)
{
    acc(m, 8);
    if (*owner(m) >= 0)
        return 16;
    *owner(m) = me;
    return 0;
}
int
s_mutex_unlock(void *m)
{
    acc(m, 8);
    if (*owner(m) != me)
        s_die("unlock of a mutex this thread has not locked");
    *owner(m) = -1;
    s_point();
    return 0;
}
int
s_cond_init(void *c, const void *a)
{
    acc(c, 8);
    return 0;
}
int
s_cond_destroy(void *c)
{
    acc(c, 8);
    return 0;
}
int
s_cond_wait(void *c, void *m)
{
    acc(c, 8);
    if (*owner(m) != me)
        s_die("cond_wait without its mutex");
    *owner(m)       = -1;
    T[me].cond      = c;
    T[me].signalled = 0;
    block(COND);
    T[me].cond = NULL;
    touch(c, 8);
    while (*owner(m) >= 0) {
        T[me].mutex = m;
        block(MUTEX);
    }
    *owner(m) = me;
    return 0;
}
static int
wake(void *c, int all)
{
    int w[MAXT], n = 0, i;
    acc(c, 8);
    for (i = 0; i < nt; i++)
        if (T[i].cond == c && !T[i].signalled)
            w[n++] = i;
    if (n && !all)
        T[w[rnd(n)]].signalled = 1;
    if (all)
        for (i = 0; i < n; i++)
            T[w[i]].signalled = 1;
    s_point();
    return 0;
}
int
s_cond_signal(void *c)
{
    return wake(c, 0);
}
int
s_cond_broadcast(void *c)
{
    return wake(c, 1);
}
static void *
body(void *x)
{
    me = (int)(long)x;
    while (sem_wait(&T[me].sem))
        ;
    T[me].ret   = T[me].f(T[me].arg);
    T[me].state = DONE;
    yield_();
    return NULL;
}
int
s_create(unsigned long *t, const void *a, void *(*f)(void *), void *arg)
{
    pthread_t      p;
    pthread_attr_t at;
    int            i;
    s_point();
    i = nt;
    if (nt == MAXT)
        s_die("too many threads");
    sem_init(&T[i].sem, 0, 0);
    T[i].state  = RUN;
    T[i].f      = f;
    T[i].arg    = arg;
    T[i].prio   = (int)rnd(1000);
    T[i].masked = me >= 0 ? T[me].masked : 0;
    nt++;
    if (t) {
        touch(t, 8);
        *t = (unsigned long)i + 1;
    }
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 256 << 10);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&p, &at, body, (void *)(long)i))
        s_die("pthread_create");
    s_point();
    return 0;
}
int
s_join(unsigned long t, void **r)
{
    T[me].join = (int)t - 1;
    block(JOIN);
    if (r)
        *r = T[t - 1].ret;
    return 0;
}
int
s_kill(unsigned long t, int sig)
{
    s_point();
    if (t < 1 || (int)t > nt)
        s_die("signal to no thread");
    if (T[t - 1].state != DONE)
        T[t - 1].pending |= 1ull << sig;
    s_point();
    return 0;
}
int
s_sigaction(int sig, const void *act, void *old)
{
    s_point();
    if (act)
        handler[sig] = ((const struct sigaction *)act)->sa_handler;
    return 0;
}
int
s_sigmask(int how_, const void *set, void *old)
{
    uint64_t m = 0, b;
    s_point();
    if (old) {
        sigemptyset(old);
        for (b = 1; b < 32; b++)
            if (T[me].masked & (1ull << b))
                sigaddset(old, (int)b);
    }
    if (set) {
        for (b = 1; b < 32; b++)
            if (sigismember(set, (int)b) == 1)
                m |= 1ull << b;
        T[me].masked = how_ == SIG_BLOCK ? T[me].masked | m : how_ == SIG_UNBLOCK ? T[me].masked & ~m : m;
    }
    s_point();
    return 0;
}
unsigned
s_sleep(unsigned n)
{
    if (on && me >= 0)
        block(SLEEP);
    return 0;
}
long
s_time(long *t)
{
    s_point();
    if (t)
        *t = s_steps / 1000;
    return s_steps / 1000;
}
void
s_start(unsigned seed, int style, int spurious)
{
    int i;
    rs = seed * 2654435761ull + 88172645463325252ull;
    for (i = 0; i < 9; i++)
        rnd(2);
    how  = style;
    spur = spurious;
    for (i = 0; i < 4; i++)
        change[i] = rnd(i % 2 ? 300 : 3000);
    me = 0;
    nt = 1;
    sem_init(&T[0].sem, 0, 0);
    T[0].prio = (int)rnd(1000);
    on        = 1;
}
int
s_spawn(void (*f)(void *), void *arg)
{
    s_create(NULL, NULL, (void *(*)(void *))f, arg);
    return nt - 1;
}
int
s_self(void)
{
    return me;
}
/* until all other threads have ended */
void
s_finish(void)
{
    int i, k;
    do {
        s_sleep(1);
        for (k = 0, i = 1; i < nt; i++)
            k += T[i].state != DONE;
    } while (k);
}

#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { acc(p, n); }                                                                        \
    void __tsan_write##n(void *p) { acc(p, n); }                                                                       \
    void __tsan_unaligned_read##n(void *p) { acc(p, n); }                                                              \
    void __tsan_unaligned_write##n(void *p) { acc(p, n); }                                                             \
    void __tsan_volatile_read##n(void *p) { acc(p, n); }                                                               \
    void __tsan_volatile_write##n(void *p) { acc(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void *p) {}
void __tsan_read_range(void *p, unsigned long n) { acc(p, (long)n); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, (long)n); }
void __tsan_vptr_update(void **a, void *b) {}
#define AT(n, t)                                                                                                       \
    t __tsan_atomic##n##_load(const volatile t *p, int o) { acc((void *)p, sizeof(t)); return *p; }                     \
    void __tsan_atomic##n##_store(volatile t *p, t v, int o) { acc((void *)p, sizeof(t)); *p = v; }                     \
    t __tsan_atomic##n##_exchange(volatile t *p, t v, int o) { acc((void *)p, sizeof(t)); t x = *p; *p = v; return x; } \
    t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int o) { acc((void *)p, sizeof(t)); t x = *p; *p = x + v; return x; } \
    t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int o) { acc((void *)p, sizeof(t)); t x = *p; *p = x - v; return x; } \
    t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int o) { acc((void *)p, sizeof(t)); t x = *p; *p = x & v; return x; } \
    t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int o) { acc((void *)p, sizeof(t)); t x = *p; *p = x | v; return x; } \
    t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int o) { acc((void *)p, sizeof(t)); t x = *p; *p = x ^ v; return x; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *c, t v, int o, int q)                              \
    { acc((void *)p, sizeof(t)); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }                               \
    int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *c, t v, int o, int q)                                \
    { return __tsan_atomic##n##_compare_exchange_strong(p, c, v, o, q); }                                               \
    t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t c, t v, int o, int q)                                    \
    { acc((void *)p, sizeof(t)); t x = *p; if (x == c) *p = v; return x; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int o) { s_point(); }
void __tsan_atomic_signal_fence(int o) {}
