/* Drives the counting and scaling filters of src/server/dablooms. */
#include "proto.h"
#include "pdc_dablooms.h"

static counting_bloom_t *c_[64];
static scaling_bloom_t * s_[64];
static unsigned char *   key[4096];
static int               klen[4096], nkeys;

static int
check(int f, const char *k, int n)
{
    return (c_[f] ? counting_bloom_check(c_[f], k, n) : scaling_bloom_check(s_[f], k, n)) != 0;
}

int
main(void)
{
    while (next_line()) {
        char *op = W();
        int   f, a, b, i, n;
        char  t[64];
        B(op);
        if (!*op)
            ;
        IS("key")
        {
            i      = (int)N();
            key[i] = H(&klen[i]);
            if (i > nkeys)
                nkeys = i;
        }
        IS("new")
        {
            f = (int)N();
            a = (int)N();
            b = (int)N();
            n = (int)N();
            if (a)
                s_[f] = new_scaling_bloom(b, 1.0 / n);
            else
                c_[f] = new_counting_bloom(b, 1.0 / n);
        }
        IS("free")
        {
            f = (int)N();
            if (c_[f])
                free_counting_bloom(c_[f]);
            else
                free_scaling_bloom(s_[f]);
            c_[f] = NULL;
            s_[f] = NULL;
        }
        else if (!strcmp(op, "add") || !strcmp(op, "remove"))
        {
            f = (int)N();
            a = (int)N();
            b = (int)N();
            for (i = a; i <= b; i++) {
                const char *k = (const char *)key[i];
                if (c_[f])
                    (*op == 'a' ? counting_bloom_add : counting_bloom_remove)(c_[f], k, klen[i]);
                else
                    (*op == 'a' ? scaling_bloom_add : scaling_bloom_remove)(s_[f], k, klen[i], i);
            }
        }
        IS("check")
        {
            f = (int)N();
            i = (int)N();
            JI("yes", check(f, (const char *)key[i], klen[i]));
        }
        IS("all")
        {
            f = (int)N();
            printf(",\"yes\":[");
            for (n = 0, i = 1; i <= nkeys; i++)
                if (check(f, (const char *)key[i], klen[i]))
                    printf("%s%d", n++ ? "," : "", i);
            printf("]");
            if (c_[f])
                n = (int)c_[f]->header->count;
            else
                for (n = 0, i = 0; i < (int)s_[f]->num_blooms; i++)
                    n += (int)s_[f]->blooms[i]->header->count;
            JI("count", n);
        }
        IS("probe")
        {
            f = (int)N();
            n = (int)N();
            a = (int)N();
            for (b = 0, i = 0; i < n; i++) {
                sprintf(t, "probe %d %d", a, i);
                b += check(f, t, (int)strlen(t));
            }
            JI("wrong", b);
        }
        E();
    }
    return 0;
}
