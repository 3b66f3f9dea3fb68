/* A scheduler for code that uses threads: one thread runs at a time, and at every access to memory and every call
 * below the next one is chosen, by a seed. Included before the code under test, which is compiled with
 * -fsanitize=thread but linked with the functions in sched.c, so that each access calls one of them. */
#ifndef SCHED_H
#define SCHED_H
#ifdef SCHED_WRAP
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sched.h>
#include <sys/prctl.h>
#endif
int   s_mutex_init(void *m, const void *a);
int   s_mutex_destroy(void *m);
int   s_mutex_lock(void *m);
int   s_mutex_trylock(void *m);
int   s_mutex_unlock(void *m);
int   s_cond_init(void *c, const void *a);
int   s_cond_destroy(void *c);
int   s_cond_wait(void *c, void *m);
int   s_cond_signal(void *c);
int   s_cond_broadcast(void *c);
int   s_create(unsigned long *t, const void *a, void *(*f)(void *), void *arg);
int   s_join(unsigned long t, void **r);
int   s_kill(unsigned long t, int sig);
int   s_sigaction(int sig, const void *act, void *old);
int   s_sigmask(int how, const void *set, void *old);
unsigned s_sleep(unsigned n);
long  s_time(long *t);
void *s_malloc(unsigned long n);
void *s_calloc(unsigned long n, unsigned long m);
void  s_free(void *p);
void  s_point(void);
/* for the driver */
void s_start(unsigned seed, int style, int spurious);
int  s_spawn(void (*f)(void *), void *arg);
void s_finish(void);
int  s_self(void);
int  s_live(void);
extern long s_steps, s_limit;
void s_die(const char *what);
#ifdef SCHED_WRAP
#define pthread_mutex_init(m, a)     s_mutex_init(m, a)
#define pthread_mutex_destroy(m)     s_mutex_destroy(m)
#define pthread_mutex_lock(m)        s_mutex_lock(m)
#define pthread_mutex_trylock(m)     s_mutex_trylock(m)
#define pthread_mutex_unlock(m)      s_mutex_unlock(m)
#define pthread_cond_init(c, a)      s_cond_init(c, a)
#define pthread_cond_destroy(c)      s_cond_destroy(c)
#define pthread_cond_wait(c, m)      s_cond_wait(c, m)
#define pthread_cond_timedwait(c, m, t) s_cond_wait(c, m)
#define pthread_cond_signal(c)       s_cond_signal(c)
#define pthread_cond_broadcast(c)    s_cond_broadcast(c)
#define pthread_create(t, a, f, x)   s_create((unsigned long *)(t), a, (void *(*)(void *))(f), x)
#define pthread_detach(t)            ((void)(t), 0)
#define pthread_self()               ((pthread_t)(s_self() + 1))
#define pthread_join(t, r)           s_join((unsigned long)(t), r)
#define pthread_kill(t, s)           s_kill((unsigned long)(t), s)
#define sigaction(s, a, o)           s_sigaction(s, a, o)

#define pthread_sigmask(h, s, o)     s_sigmask(h, s, o)
#define sigprocmask(h, s, o)         s_sigmask(h, s, o)
#define sleep(n)                     s_sleep(n)
#define usleep(n)                    s_sleep(n)
#define nanosleep(a, b)              s_sleep(1)
#define sched_yield()                s_sleep(1)
#define pthread_yield()              s_sleep(1)
#define time(t)                      s_time(t)
#define malloc(n)                    s_malloc(n)
#define calloc(n, m)                 s_calloc(n, m)
#define free(p)                      s_free(p)
#define prctl(...)                   0
#endif
#endif
