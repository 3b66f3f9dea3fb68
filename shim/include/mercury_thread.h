#ifndef MINI_MERCURY_THREAD_H
#define MINI_MERCURY_THREAD_H
#include <pthread.h>
typedef pthread_t hg_thread_t;
typedef void *    hg_thread_ret_t;
typedef void *(*hg_thread_func_t)(void *);
#define HG_THREAD_RETURN_TYPE hg_thread_ret_t
static inline int hg_thread_create(hg_thread_t *t, hg_thread_func_t f, void *d) { return pthread_create(t, 0, f, d); }
static inline int hg_thread_join(hg_thread_t t) { return pthread_join(t, 0); }
static inline void hg_thread_exit(hg_thread_ret_t r) { pthread_exit(r); }
#endif
