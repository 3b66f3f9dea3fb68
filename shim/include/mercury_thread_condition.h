#ifndef MINI_MERCURY_THREAD_CONDITION_H
#define MINI_MERCURY_THREAD_CONDITION_H
#include <pthread.h>
#include <time.h>
#include "mercury_thread_mutex.h"
typedef pthread_cond_t hg_thread_cond_t;
static inline int hg_thread_cond_init(hg_thread_cond_t *c) { return pthread_cond_init(c, 0); }
static inline int hg_thread_cond_destroy(hg_thread_cond_t *c) { return pthread_cond_destroy(c); }
static inline int hg_thread_cond_signal(hg_thread_cond_t *c) { return pthread_cond_signal(c); }
static inline int hg_thread_cond_broadcast(hg_thread_cond_t *c) { return pthread_cond_broadcast(c); }
static inline int hg_thread_cond_wait(hg_thread_cond_t *c, hg_thread_mutex_t *m) { return pthread_cond_wait(c, m); }
static inline int
hg_thread_cond_timedwait(hg_thread_cond_t *c, hg_thread_mutex_t *m, unsigned ms)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += ms / 1000;
    ts.tv_nsec += (long)(ms % 1000) * 1000000L;
    if (ts.tv_nsec >= 1000000000L) { ts.tv_sec++; ts.tv_nsec -= 1000000000L; }
    return pthread_cond_timedwait(c, m, &ts);
}
#endif
