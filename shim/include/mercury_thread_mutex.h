#ifndef MINI_MERCURY_THREAD_MUTEX_H
#define MINI_MERCURY_THREAD_MUTEX_H
#include <pthread.h>
typedef pthread_mutex_t hg_thread_mutex_t;
#define HG_THREAD_MUTEX_INITIALIZER PTHREAD_MUTEX_INITIALIZER
static inline int hg_thread_mutex_init(hg_thread_mutex_t *m) { return pthread_mutex_init(m, 0); }
static inline int hg_thread_mutex_destroy(hg_thread_mutex_t *m) { return pthread_mutex_destroy(m); }
static inline int hg_thread_mutex_lock(hg_thread_mutex_t *m) { return pthread_mutex_lock(m); }
static inline int hg_thread_mutex_try_lock(hg_thread_mutex_t *m) { return pthread_mutex_trylock(m); }
static inline int hg_thread_mutex_unlock(hg_thread_mutex_t *m) { return pthread_mutex_unlock(m); }
#endif
