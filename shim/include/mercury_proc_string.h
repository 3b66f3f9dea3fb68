#ifndef MINI_MERCURY_PROC_STRING_H
#define MINI_MERCURY_PROC_STRING_H
#include "mercury.h"
typedef char *      hg_string_t;
typedef const char *hg_const_string_t;
static inline hg_return_t
hg_proc_hg_string_t(hg_proc_t proc, void *data)
{
    char **     s   = (char **)data;
    uint64_t    len = 0;
    hg_return_t r   = HG_SUCCESS;
    switch (hg_proc_get_op(proc)) {
        case HG_ENCODE:
            len = *s ? strlen(*s) + 1 : 0;
            r   = hg_proc_raw(proc, &len, sizeof(len));
            if (r == HG_SUCCESS && len)
                r = hg_proc_raw(proc, *s, len);
            break;
        case HG_DECODE:
            r = hg_proc_raw(proc, &len, sizeof(len));
            if (r != HG_SUCCESS)
                return r;
            if (len == 0) {
                *s = NULL;
                return r;
            }
            *s = (char *)malloc(len);
            if (!*s)
                return HG_NOMEM;
            r = hg_proc_raw(proc, *s, len);
            break;
        case HG_FREE:
            free(*s);
            *s = NULL;
            break;
    }
    return r;
}
static inline hg_return_t hg_proc_hg_const_string_t(hg_proc_t p, void *d) { return hg_proc_hg_string_t(p, d); }
#endif
