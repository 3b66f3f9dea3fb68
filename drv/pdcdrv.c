/* Command-driven PDC client: one command per line on stdin, one JSON object per line on the original stdout.
 * It only calls the library's public client functions and prints what they return. */
#include "pdc.h"
#include "pdc_client_connect.h"
#include "pdc_client_server_common.h"
#include "pdc_interface.h"
#include "pdc_cont_pkg.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ctype.h>
#define MAXTOK 4096
static FILE *out;
static char *tok[MAXTOK];
static int   ntok, cur;

typedef struct slot {
    char         name[32];
    pdcid_t      id;
    void *       p;   /* transfer buffer / query */
    size_t       n;
    struct slot *next;
} slot;
static slot *slots;

static slot *
S(const char *n)
{
    slot *s;
    for (s = slots; s; s = s->next)
        if (!strcmp(s->name, n))
            return s;
    s = calloc(1, sizeof(*s));
    strncpy(s->name, n, sizeof(s->name) - 1);
    s->next = slots;
    slots   = s;
    return s;
}
static char *
T(void)
{
    static char z[1] = "";
    return cur < ntok ? tok[cur++] : z;
}
static long long
I(void)
{
    return strtoll(T(), NULL, 0);
}
static unsigned long long
U(void)
{
    return strtoull(T(), NULL, 0);
}
static int
hv(int c)
{
    if (c >= '0' && c <= '9')
        return c - '0';
    return tolower(c) - 'a' + 10;
}
/* percent-decoded string; "-" is NULL, "%" alone is the empty string */
static char *
STR(void)
{
    char *t = T(), *r, *q;
    if (!strcmp(t, "-"))
        return NULL;
    r = q = malloc(strlen(t) + 1);
    for (; *t; t++) {
        if (*t == '%') {
            if (t[1] && t[2]) {
                *q++ = (char)(hv(t[1]) * 16 + hv(t[2]));
                t += 2;
            }
        }
        else
            *q++ = *t;
    }
    *q = 0;
    return r;
}
static void *
HEX(size_t *n)
{
    char *         t = T();
    size_t         i, l = strlen(t) / 2;
    unsigned char *b = calloc(1, l + 16);
    if (!strcmp(t, "-")) {
        *n = 0;
        return b;
    }
    for (i = 0; i < l; i++)
        b[i] = (unsigned char)(hv(t[2 * i]) * 16 + hv(t[2 * i + 1]));
    *n = l;
    return b;
}
static void
js(const char *k, const char *s)
{
    fprintf(out, ",\"%s\":", k);
    if (!s) {
        fprintf(out, "null");
        return;
    }
    fputc('"', out);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\')
            fprintf(out, "\\%c", c);
        else if (c < 32 || c > 126)
            fprintf(out, "\\u%04x", c);
        else
            fputc(c, out);
    }
    fputc('"', out);
}
static void
ji(const char *k, long long v)
{
    fprintf(out, ",\"%s\":%lld", k, v);
}
static void
jid(const char *k, unsigned long long v)
{
    fprintf(out, ",\"%s\":\"%llu\"", k, v);
}
static void
jhex(const char *k, const void *p, size_t n)
{
    size_t i;
    fprintf(out, ",\"%s\":\"", k);
    for (i = 0; i < n; i++)
        fprintf(out, "%02x", ((const unsigned char *)p)[i]);
    fputc('"', out);
}
static void
jids(const char *k, const uint64_t *v, long n)
{
    long i;
    fprintf(out, ",\"%s\":[", k);
    for (i = 0; i < n; i++)
        fprintf(out, "%s\"%llu\"", i ? "," : "", (unsigned long long)v[i]);
    fputc(']', out);
}
static void
jnums(const char *k, const uint64_t *v, long n)
{
    long i;
    fprintf(out, ",\"%s\":[", k);
    for (i = 0; i < n; i++)
        fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)v[i]);
    fputc(']', out);
}
static pdcid_t pdc;

static void
objinfo(struct pdc_obj_info *i)
{
    if (!i) {
        ji("info", 0);
        return;
    }
    ji("info", 1);
    js("name", i->name);
    jid("meta", i->meta_id);
    if (i->obj_pt) {
        ji("ndim", (long long)i->obj_pt->ndim);
        if (i->obj_pt->dims)
            jnums("dims", i->obj_pt->dims, (long)i->obj_pt->ndim);
        ji("type", i->obj_pt->type);
        ji("part", i->obj_pt->region_partition);
        ji("cons", i->obj_pt->consistency);
    }
}
static pdc_query_t *
qparse(void)
{
    /* prefix expression: "and" q q | "or" q q | "c" obj op type hexvalue */
    char *t = T();
    if (!strcmp(t, "and") || !strcmp(t, "or")) {
        pdc_query_t *a = qparse(), *b = qparse();
        return t[0] == 'a' ? PDCquery_and(a, b) : PDCquery_or(a, b);
    }
    slot * o  = S(T());
    int    op = (int)I(), ty = (int)I();
    size_t n;
    void * v = HEX(&n);
    return PDCquery_create(o->id, (pdc_query_op_t)op, (pdc_var_type_t)ty, v);
}

static int
run(void)
{
    char *c = T();
    int   i, n;
    fprintf(out, "{\"op\":\"%s\"", c);
#define IS(x) else if (!strcmp(c, x))
    if (!strcmp(c, "init")) {
        pdc = PDCinit("pdc");
        ji("ok", pdc != 0);
        ji("nserv", pdc_server_num_g);
    }
    IS("fini") { ji("rc", PDCclose(pdc)); }
    IS("prop")
    {
        slot *s = S(T());
        char *k = T();
        s->id   = PDCprop_create(k[0] == 'c' ? PDC_CONT_CREATE : PDC_OBJ_CREATE, pdc);
        ji("ok", s->id != 0);
    }
    IS("pset")
    {
        slot *s  = S(T());
        int   rc = 0;
        while (cur < ntok) {
            char *k = T();
            if (!strcmp(k, "dims")) {
                uint64_t d[16];
                int      nd = (int)I();
                for (i = 0; i < nd; i++)
                    d[i] = U();
                rc |= PDCprop_set_obj_dims(s->id, nd, d);
            }
            else if (!strcmp(k, "type"))
                rc |= PDCprop_set_obj_type(s->id, (pdc_var_type_t)I());
            else if (!strcmp(k, "user"))
                rc |= PDCprop_set_obj_user_id(s->id, (uint32_t)I());
            else if (!strcmp(k, "ts"))
                rc |= PDCprop_set_obj_time_step(s->id, (uint32_t)I());
            else if (!strcmp(k, "app"))
                rc |= PDCprop_set_obj_app_name(s->id, STR());
            else if (!strcmp(k, "tags"))
                rc |= PDCprop_set_obj_tags(s->id, STR());
            else if (!strcmp(k, "loc"))
                rc |= PDCprop_set_obj_data_loc(s->id, STR());
            else if (!strcmp(k, "part"))
                rc |= PDCprop_set_obj_transfer_region_type(s->id, (pdc_region_partition_t)I());
            else if (!strcmp(k, "cons"))
                rc |= PDCprop_set_obj_consistency_semantics(s->id, (pdc_consistency_t)I());
            else if (!strcmp(k, "life"))
                rc |= PDCprop_set_cont_lifetime(s->id, (pdc_lifetime_t)I());
        }
        ji("rc", rc);
    }
    IS("pget")
    {
        slot *               s = S(T());
        struct pdc_obj_prop *p = PDCobj_prop_get_info(s->id);
        ji("ok", p != NULL);
        if (p) {
            ji("ndim", (long long)p->ndim);
            if (p->dims)
                jnums("dims", p->dims, (long)p->ndim);
            ji("type", p->type);
            ji("part", p->region_partition);
            ji("cons", p->consistency);
        }
    }
    IS("pdup")
    {
        slot *s = S(T()), *f = S(T());
        s->id   = PDCprop_obj_dup(f->id);
        ji("ok", s->id != 0);
    }
    IS("pclose") { ji("rc", PDCprop_close(S(T())->id)); }
    /* ---- containers */
    IS("ccreate")
    {
        slot *s  = S(T());
        char *nm = STR();
        s->id    = PDCcont_create(nm, S(T())->id);
        ji("ok", s->id != 0);
        if (s->id) {
            struct _pdc_id_info *   x  = PDC_find_id(s->id);
            struct _pdc_cont_info * ci = x ? (struct _pdc_cont_info *)x->obj_ptr : NULL;
            jid("meta", ci ? ci->cont_info_pub->meta_id : 0);
        }
    }
    IS("copen")
    {
        slot *s  = S(T());
        char *nm = STR();
        s->id    = PDCcont_open(nm, pdc);
        ji("ok", s->id != 0);
        if (s->id) {
            struct _pdc_id_info *   x  = PDC_find_id(s->id);
            struct _pdc_cont_info * ci = x ? (struct _pdc_cont_info *)x->obj_ptr : NULL;
            jid("meta", ci ? ci->cont_info_pub->meta_id : 0);
        }
    }
    IS("cclose") { ji("rc", PDCcont_close(S(T())->id)); }
    IS("cdel") { ji("rc", PDCcont_del(S(T())->id)); }
    IS("cpersist") { ji("rc", PDCcont_persist(S(T())->id)); }
    IS("cinfo")
    {
        char *                nm = STR();
        struct pdc_cont_info *p  = PDCcont_get_info(nm);
        ji("ok", p != NULL);
        if (p) {
            js("name", p->name);
            jid("meta", p->meta_id);
        }
    }
    IS("cgetid")
    {
        slot *s  = S(T());
        char *nm = STR();
        s->id    = PDCcont_get_id(nm, pdc);
        ji("ok", s->id != 0);
    }
    IS("citer")
    {
        cont_handle *h = PDCcont_iter_start();
        int          k = 0;
        fprintf(out, ",\"conts\":[");
        while (h && !PDCcont_iter_null(h) && k < 10000) {
            struct pdc_cont_info *p = PDCcont_iter_get_info(h);
            fprintf(out, "%s{\"i\":%d", k ? "," : "", k);
            js("name", p->name);
            jid("meta", p->meta_id);
            fprintf(out, "}");
            h = PDCcont_iter_next(h);
            k++;
        }
        fprintf(out, "]");
    }
    IS("oiter")
    {
        pdcid_t     cid = S(T())->id;
        obj_handle *h   = PDCobj_iter_start(cid);
        int         k   = 0;
        fprintf(out, ",\"objs\":[");
        while (h && !PDCobj_iter_null(h) && k < 10000) {
            struct pdc_obj_info *p = PDCobj_iter_get_info(h);
            fprintf(out, "%s{\"i\":%d", k ? "," : "", k);
            js("name", p->name);
            jid("meta", p->meta_id);
            fprintf(out, "}");
            h = PDCobj_iter_next(h, cid);
            k++;
        }
        fprintf(out, "]");
    }
    IS("cputobj")
    {
        slot *  s = S(T());
        pdcid_t v[4096];
        for (n = 0; cur < ntok; n++)
            v[n] = S(T())->id;
        ji("rc", PDCcont_put_objids(s->id, n, v));
    }
    IS("cdelobj")
    {
        slot *  s = S(T());
        pdcid_t v[4096];
        for (n = 0; cur < ntok; n++)
            v[n] = S(T())->id;
        ji("rc", PDCcont_del_objids(s->id, n, v));
    }
    IS("cgetobj")
    {
        slot *   s = S(T());
        pdcid_t *v = NULL;
        n          = 0;
        int rc     = PDCcont_get_objids(s->id, &n, &v);
        ji("rc", rc);
        ji("n", n);
        if (rc >= 0 && v)
            jids("ids", v, n);
    }
    /* ---- objects */
    IS("ocreate")
    {
        slot *s  = S(T());
        slot *k  = S(T());
        char *nm = STR();
        s->id    = PDCobj_create(k->id, nm, S(T())->id);
        ji("ok", s->id != 0);
        if (s->id) {
            struct pdc_obj_info *p = PDCobj_get_info(s->id);
            jid("meta", p ? p->meta_id : 0);
        }
    }
    IS("oopen")
    {
        slot *s  = S(T());
        char *nm = STR();
        s->id    = PDCobj_open(nm, pdc);
        ji("ok", s->id != 0);
        if (s->id)
            objinfo(PDCobj_get_info(s->id));
    }
    IS("oclose") { ji("rc", PDCobj_close(S(T())->id)); }
    IS("odel") { ji("rc", PDCobj_del(S(T())->id)); }
    IS("oinfo") { objinfo(PDCobj_get_info(S(T())->id)); }
    IS("oexists")
    {
        char *          nm = STR();
        int             ts = (int)I();
        pdc_metadata_t *m  = NULL;
        uint32_t        ms = 0;
        int             rc = PDC_Client_query_metadata_name_timestep(nm, ts, &m, &ms);
        ji("rc", rc);
        ji("found", m != NULL);
        if (m) {
            jid("meta", m->obj_id);
            js("name", m->obj_name);
            js("app", m->app_name);
            js("tags", m->tags);
            ji("user", m->user_id);
            ji("ts", m->time_step);
            jid("cont", m->cont_id);
            ji("ndim", (long long)m->ndim);
            jnums("dims", m->dims, m->ndim > 4 ? 4 : (long)m->ndim);
            ji("type", m->data_type);
            ji("part", m->region_partition);
            ji("cons", m->consistency);
        }
    }
    IS("ddim")
    {
        char *   nm = STR();
        int      ts = (int)I();
        uint64_t d[8];
        int      nd = (int)I(), reset = -1;
        for (i = 0; i < nd; i++)
            d[i] = U();
        ji("rc", PDC_Client_obj_reset_dims(nm, ts, nd, d, &reset));
        ji("reset", reset);
    }
    IS("odims")
    {
        slot *    s = S(T());
        int       nd = 0;
        uint64_t *d  = NULL;
        int       rc = PDCobj_get_dims(s->id, &nd, &d);
        ji("rc", rc);
        ji("ndim", nd);
        if (rc >= 0 && d)
            jnums("dims", d, nd);
    }
    IS("osetdims")
    {
        slot *   s = S(T());
        uint64_t d[8];
        int      nd = (int)I();
        for (i = 0; i < nd; i++)
            d[i] = U();
        ji("rc", PDCobj_set_dims(s->id, nd, d));
    }
    IS("tput")
    {
        char * k  = T();
        slot * s  = S(T());
        char * nm = STR();
        int    ty = (int)I();
        size_t l;
        void * v = HEX(&l);
        if (k[0] == 'c')
            ji("rc", PDCcont_put_tag(s->id, nm, v, (pdc_var_type_t)ty, l));
        else
            ji("rc", PDCobj_put_tag(s->id, nm, v, (pdc_var_type_t)ty, l));
    }
    IS("tget")
    {
        char *         k  = T();
        slot *         s  = S(T());
        char *         nm = STR();
        void *         v  = NULL;
        pdc_var_type_t ty = PDC_UNKNOWN;
        psize_t        l  = 0;
        int            rc = k[0] == 'c' ? PDCcont_get_tag(s->id, nm, &v, &ty, &l)
                             : PDCobj_get_tag(s->id, nm, &v, &ty, &l);
        ji("rc", rc);
        ji("size", (long long)l);
        if (rc >= 0 && v && l < 100000) {
            ji("type", ty);
            jhex("val", v, l);
        }
    }
    IS("tdel")
    {
        char *k  = T();
        slot *s  = S(T());
        char *nm = STR();
        ji("rc", k[0] == 'c' ? PDCcont_del_tag(s->id, nm) : PDCobj_del_tag(s->id, nm));
    }
    IS("kvq")
    {
        pdc_kvtag_t kv;
        size_t      l;
        kv.name        = STR();
        kv.type        = (int8_t)I();
        kv.value       = HEX(&l);
        kv.size        = (uint32_t)l;
        uint64_t *ids  = NULL;
        int       nres = 0;
        int       rc   = PDC_Client_query_kvtag(&kv, &nres, &ids);
        ji("rc", rc);
        ji("n", nres);
        if (nres > 0 && ids)
            jids("ids", ids, nres);
    }
    IS("listall")
    {
        int              nres = 0;
        pdc_metadata_t **m    = NULL;
        int              rc   = PDC_Client_list_all(&nres, &m);
        ji("rc", rc);
        ji("n", nres);
        fprintf(out, ",\"objs\":[");
        for (i = 0; i < nres; i++) {
            fprintf(out, "%s{\"i\":%d", i ? "," : "", i);
            js("name", m[i]->obj_name);
            jid("meta", m[i]->obj_id);
            ji("ts", m[i]->time_step);
            fprintf(out, "}");
        }
        fprintf(out, "]");
    }
    IS("partq")
    {
        int              uid  = (int)I();
        char *           app  = STR();
        char *           nm   = STR();
        int              t0   = (int)I();
        int              t1   = (int)I();
        int              nd   = (int)I();
        char *           tags = STR();
        int              nres = 0;
        pdc_metadata_t **m    = NULL;
        int              rc   = PDC_partial_query(0, uid, app, nm, t0, t1, nd, tags, &nres, &m);
        ji("rc", rc);
        ji("n", nres);
        fprintf(out, ",\"objs\":[");
        for (i = 0; i < nres; i++) {
            fprintf(out, "%s{\"i\":%d", i ? "," : "", i);
            js("name", m[i]->obj_name);
            jid("meta", m[i]->obj_id);
            ji("ts", m[i]->time_step);
            fprintf(out, "}");
        }
        fprintf(out, "]");
    }
    IS("qtag")
    {
        char *           tags = STR();
        int              nres = 0;
        pdc_metadata_t **m    = NULL;
        int              rc   = PDC_Client_query_tag(tags, &nres, &m);
        ji("rc", rc);
        ji("n", nres);
        fprintf(out, ",\"objs\":[");
        for (i = 0; i < nres; i++) {
            fprintf(out, "%s{\"i\":%d", i ? "," : "", i);
            js("name", m[i]->obj_name);
            jid("meta", m[i]->obj_id);
            fprintf(out, "}");
        }
        fprintf(out, "]");
    }
    IS("addtag")
    {
        slot *s = S(T());
        ji("rc", PDC_Client_add_tag(s->id, STR()));
    }
    IS("delname")
    {
        char *nm = STR();
        ji("rc", PDC_Client_delete_metadata(nm, S(T())->id));
    }
    IS("delid")
    {
        struct pdc_obj_info *p = PDCobj_get_info(S(T())->id);
        ji("rc", p ? PDC_Client_delete_metadata_by_id(p->meta_id) : -99);
    }
    IS("delmeta")
    {
        ji("rc", PDC_Client_delete_metadata_by_id(U()));
    }
    IS("oput")
    {
        slot * s  = S(T());
        slot * k  = S(T());
        char * nm = STR();
        size_t l;
        void * v = HEX(&l);
        s->id    = PDCobj_put_data(nm, v, l, k->id);
        ji("ok", s->id != 0);
        if (s->id) {
            struct pdc_obj_info *p = PDCobj_get_info(s->id);
            jid("meta", p ? p->meta_id : 0);
        }
    }
    IS("oget")
    {
        slot *   s = S(T());
        uint64_t l = U();
        char *   v = malloc(l + 64);
        memset(v, 0xEE, l + 64);
        int rc = PDCobj_get_data(s->id, v, l);
        ji("rc", rc);
        jhex("data", v, l);
        for (i = 0; i < 64; i++)
            if ((unsigned char)v[l + i] != 0xEE)
                break;
        ji("guard", i == 64);
    }
    /* ---- regions */
    IS("region")
    {
        slot *   s  = S(T());
        int      nd = (int)I();
        uint64_t o[8], z[8];
        for (i = 0; i < nd; i++)
            o[i] = U();
        for (i = 0; i < nd; i++)
            z[i] = U();
        s->id = PDCregion_create(nd, o, z);
        ji("ok", s->id != 0);
    }
    IS("rinfo")
    {
        struct pdc_region_info *p = PDCregion_get_info(S(T())->id);
        ji("ok", p != NULL);
        if (p) {
            ji("ndim", (long long)p->ndim);
            jnums("off", p->offset, (long)p->ndim);
            jnums("size", p->size, (long)p->ndim);
            ji("mapping", p->mapping);
        }
    }
    IS("rclose") { ji("rc", PDCregion_close(S(T())->id)); }
    IS("buf")
    {
        /* buf <slot> <hex>: a user buffer with guard bytes behind it */
        slot * s = S(T());
        size_t l;
        char * v = HEX(&l);
        char * b = malloc(l + 64);
        memcpy(b, v, l);
        memset(b + l, 0xEE, 64);
        s->p = b;
        s->n = l;
        ji("n", (long long)l);
    }
    IS("bget")
    {
        slot *s = S(T());
        jhex("data", s->p, s->n);
        for (i = 0; i < 64; i++)
            if (((unsigned char *)s->p)[s->n + i] != 0xEE)
                break;
        ji("guard", i == 64);
    }
    IS("bset")
    {
        slot * s = S(T());
        size_t l;
        char * v = HEX(&l);
        memcpy(s->p, v, l < s->n ? l : s->n);
        ji("n", (long long)l);
    }
    IS("xfer")
    {
        slot *s = S(T());
        char *a = T();
        slot *b = S(T());
        slot *o = S(T());
        slot *l = S(T());
        slot *r = S(T());
        s->id   = PDCregion_transfer_create(b->p, a[0] == 'W' ? PDC_WRITE : PDC_READ, o->id, l->id, r->id);
        ji("ok", s->id != 0);
    }
    IS("xstart") { ji("rc", PDCregion_transfer_start(S(T())->id)); }
    IS("xwait") { ji("rc", PDCregion_transfer_wait(S(T())->id)); }
    IS("xclose") { ji("rc", PDCregion_transfer_close(S(T())->id)); }
    IS("xstatus")
    {
        slot *                s  = S(T());
        pdc_transfer_status_t st = (pdc_transfer_status_t)-1;
        ji("rc", PDCregion_transfer_status(s->id, &st));
        ji("st", st);
    }
    IS("xstartall")
    {
        pdcid_t v[256];
        for (n = 0; cur < ntok; n++)
            v[n] = S(T())->id;
        ji("rc", PDCregion_transfer_start_all(v, n));
    }
    IS("xwaitall")
    {
        pdcid_t v[256];
        for (n = 0; cur < ntok; n++)
            v[n] = S(T())->id;
        ji("rc", PDCregion_transfer_wait_all(v, n));
    }
    IS("map")
    {
        slot *b = S(T());
        int   t = (int)I();
        slot *l = S(T());
        slot *o = S(T());
        slot *r = S(T());
        ji("rc", PDCbuf_obj_map(b->p, (pdc_var_type_t)t, l->id, o->id, r->id));
    }
    IS("unmap")
    {
        slot *o = S(T());
        slot *r = S(T());
        ji("rc", PDCbuf_obj_unmap(o->id, r->id));
    }
    IS("lock")
    {
        slot *o = S(T());
        slot *r = S(T());
        char *a = T();
        ji("rc", PDCreg_obtain_lock(o->id, r->id, a[0] == 'W' ? PDC_WRITE : PDC_READ,
                                    a[1] == 'N' ? PDC_NOBLOCK : PDC_BLOCK));
    }
    IS("release")
    {
        slot *o = S(T());
        slot *r = S(T());
        char *a = T();
        ji("rc", PDCreg_release_lock(o->id, r->id, a[0] == 'W' ? PDC_WRITE : PDC_READ));
    }
    IS("flush") { ji("rc", PDCobj_flush_start(S(T())->id)); }
    IS("flushall") { ji("rc", PDCobj_flush_all_start()); }
    /* ---- DART */
    IS("dins")
    {
        int      algo = (int)I(), ref = (int)I();
        char *   k = STR(), *v = STR();
        uint64_t d = U();
        ji("rc", PDC_Client_insert_obj_ref_into_dart((dart_hash_algo_t)algo, k, v,
                                                     (dart_object_ref_type_t)ref, d));
    }
    IS("ddel")
    {
        int      algo = (int)I(), ref = (int)I();
        char *   k = STR(), *v = STR();
        uint64_t d = U();
        ji("rc", PDC_Client_delete_obj_ref_from_dart((dart_hash_algo_t)algo, k, v,
                                                     (dart_object_ref_type_t)ref, d));
    }
    IS("dq")
    {
        int       algo = (int)I(), ref = (int)I();
        char *    q    = STR();
        int       nres = 0;
        uint64_t *r    = NULL;
        int       rc   = PDC_Client_search_obj_ref_through_dart((dart_hash_algo_t)algo, q,
                                                        (dart_object_ref_type_t)ref, &nres, &r);
        ji("rc", rc);
        ji("n", nres);
        if (nres > 0 && r)
            jnums("ids", r, nres);
        else
            fprintf(out, ",\"ids\":[]");
    }
    /* ---- data queries */
    IS("q")
    {
        slot *s = S(T());
        s->p    = qparse();
        ji("ok", s->p != NULL);
    }
    IS("qregion")
    {
        slot *s = S(T());
        ji("rc", PDCquery_sel_region(s->p, PDCregion_get_info(S(T())->id)));
    }
    IS("qhits")
    {
        uint64_t h  = 12345678;
        slot *   s  = S(T());
        ji("rc", PDCquery_get_nhits(s->p, &h));
        ji("n", (long long)h);
    }
    IS("qsel")
    {
        /* qsel <query> <obj> <elem size>: selection, then the data at the selection */
        slot *          s = S(T());
        slot *          o = S(T());
        size_t          e = U();
        pdc_selection_t sel;
        memset(&sel, 0, sizeof(sel));
        ji("rc", PDCquery_get_selection(s->p, &sel));
        ji("n", (long long)sel.nhits);
        ji("ndim", (long long)sel.ndim);
        if (sel.nhits < 1000000)
            jnums("coords", sel.coords, (long)(sel.nhits * sel.ndim));
        if (sel.nhits && sel.nhits < 1000000 && e) {
            char *d = calloc(1, sel.nhits * e + 64);
            ji("drc", PDCquery_get_data(o->id, &sel, d));
            jhex("data", d, sel.nhits * e);
        }
        PDCselection_free(&sel);
    }
    IS("qfree") { PDCquery_free_all(S(T())->p); }
    /* ---- servers */
    IS("ckpt") { ji("rc", PDC_Client_all_server_checkpoint()); }
    IS("closeall") { ji("rc", PDC_Client_close_all_server()); }
    IS("id")
    {
        /* which server holds the metadata of a name */
        ji("x", 0);
    }
    else { ji("badcmd", 1); }
    fprintf(out, "}\n");
    fflush(out);
    return 0;
}

int
main(int argc, char **argv)
{
    static char * line;
    static size_t cap;
    int           fd = dup(1);
    out              = fdopen(fd, "w");
    if (argc > 1) {
        freopen(argv[1], "a", stdout);
        freopen(argv[1], "a", stderr);
        setvbuf(stdout, NULL, _IOLBF, 0);
    }
#ifdef ENABLE_MPI
    MPI_Init(&argc, &argv);
#endif
    while (getline(&line, &cap, stdin) > 0) {
        char *p = line;
        ntok = cur = 0;
        while (*p && ntok < MAXTOK) {
            while (*p == ' ' || *p == '\n')
                *p++ = 0;
            if (!*p)
                break;
            tok[ntok++] = p;
            while (*p && *p != ' ' && *p != '\n')
                p++;
        }
        if (!ntok)
            continue;
        if (!strcmp(tok[0], "quit"))
            break;
        run();
    }
#ifdef ENABLE_MPI
    MPI_Finalize();
#endif
    return 0;
}
