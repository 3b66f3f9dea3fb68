#ifndef MINI_MERCURY_ATOMIC_H
#define MINI_MERCURY_ATOMIC_H
#include <stdint.h>
typedef volatile int32_t hg_atomic_int32_t;
typedef volatile int64_t hg_atomic_int64_t;
#define HG_ATOMIC_VAR_INIT(x) (x)
static inline void    hg_atomic_init32(hg_atomic_int32_t *p, int32_t v) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
static inline void    hg_atomic_set32(hg_atomic_int32_t *p, int32_t v) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
static inline int32_t hg_atomic_get32(hg_atomic_int32_t *p) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
static inline int32_t hg_atomic_incr32(hg_atomic_int32_t *p) { return __atomic_add_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline int32_t hg_atomic_decr32(hg_atomic_int32_t *p) { return __atomic_sub_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline int
hg_atomic_cas32(hg_atomic_int32_t *p, int32_t cmp, int32_t swp)
{
    return __atomic_compare_exchange_n(p, &cmp, swp, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
#endif
