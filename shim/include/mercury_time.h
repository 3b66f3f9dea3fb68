#ifndef MINI_MERCURY_TIME_H
#define MINI_MERCURY_TIME_H
#include <time.h>
typedef struct timespec hg_time_t;
static inline int hg_time_get_current(hg_time_t *t) { return clock_gettime(CLOCK_MONOTONIC, t); }
static inline double hg_time_to_double(hg_time_t t) { return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
#endif
