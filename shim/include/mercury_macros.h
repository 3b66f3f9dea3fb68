#ifndef MINI_MERCURY_MACROS_H
#define MINI_MERCURY_MACROS_H
#include "mercury.h"
#define MERCURY_REGISTER(hg_class, func_name, in_struct_type_name, out_struct_type_name, rpc_cb)             \
    HG_Register_name(hg_class, func_name, MM_PROC_NAME(in_struct_type_name), MM_PROC_NAME(out_struct_type_name), \
                     rpc_cb)
#define MM_PROC_NAME(x) MM_PROC_NAME_(x)
#define MM_PROC_NAME_(x) hg_proc_##x
static inline hg_return_t hg_proc_void(hg_proc_t p, void *d) { (void)p; (void)d; return HG_SUCCESS; }
#endif
