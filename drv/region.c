/* Drives the region arithmetic of src/utils: overlap, containment and the copies between buffers. */
#include "proto.h"
#include "pdc_region.h"

#define GUARD 64
static unsigned char *raw[64];
static long           len_[64];
static int            nd;
static uint64_t       off[64][8], size[64][8];
static int            unit;

static void
vec(uint64_t *v)
{
    int i;
    for (i = 0; i < nd; i++)
        v[i] = strtoull(W(), NULL, 0);
}
static void
show(const char *k, int b)
{
    long i;
    int  g = 1;
    for (i = 0; i < GUARD; i++)
        g = g && raw[b][i] == 0xEE && raw[b][GUARD + len_[b] + i] == 0xEE;
    printf(",\"%s\":\"", k);
    for (i = 0; i < len_[b]; i++)
        printf("%02x", raw[b][GUARD + i]);
    printf("\",\"%s_guard\":%d", k, g);
}
static void
showv(const char *k, uint64_t *v)
{
    int i;
    printf(",\"%s\":[", k);
    for (i = 0; i < nd; i++)
        printf("%s\"%lu\"", i ? "," : "", v[i]);
    printf("]");
}

int
main(void)
{
    while (next_line()) {
        char *         op = W();
        int            a, b, n, c, d;
        uint64_t       o1[8], s1[8], o2[8], s2[8], *oo = NULL, *os = NULL;
        unsigned char *h;
        B(op);
        if (!*op)
            ;
        IS("new")
        {
            b    = (int)N();
            nd   = (int)N();
            unit = (int)N();
            vec(off[b]);
            vec(size[b]);
            h       = H(&n);
            raw[b]  = malloc(n + 2 * GUARD);
            len_[b] = n;
            memset(raw[b], 0xEE, n + 2 * GUARD);
            memcpy(raw[b] + GUARD, h, n);
            free(h);
        }
        IS("copy")
        {
            a = (int)N();
            b = (int)N();
            PDC_region_overlap_detect(nd, off[a], size[a], off[b], size[b], &oo, &os);
            JI("yes", oo != NULL);
            if (oo)
                memcpy_overlap_subregion(nd, unit, (char *)raw[a] + GUARD, off[a], size[a], (char *)raw[b] + GUARD,
                                         off[b], size[b], oo, os);
            free(oo);
            show("from", a);
            show("to", b);
        }
        IS("gather")
        {
            a = (int)N();
            b = (int)N();
            for (n = 0; n < nd; n++)
                o1[n] = off[b][n] - off[a][n];
            memcpy_subregion(nd, unit, PDC_WRITE, (char *)raw[a] + GUARD, size[a], (char *)raw[b] + GUARD, o1, size[b]);
            show("from", a);
            show("to", b);
        }
        IS("scatter")
        {
            a = (int)N();
            b = (int)N();
            for (n = 0; n < nd; n++)
                o1[n] = off[a][n] - off[b][n];
            memcpy_subregion(nd, unit, PDC_READ, (char *)raw[b] + GUARD, size[b], (char *)raw[a] + GUARD, o1, size[a]);
            show("from", a);
            show("to", b);
        }
        IS("ask")
        {
            c  = nd;
            nd = (int)N();
            vec(o1);
            vec(s1);
            vec(o2);
            vec(s2);
            JI("overlap", check_overlap(nd, o1, s1, o2, s2));
            PDC_region_overlap_detect(nd, o1, s1, o2, s2, &oo, &os);
            JI("where", oo != NULL);
            if (oo) {
                showv("off", oo);
                showv("size", os);
                JI("within", detect_region_contained(o1, s1, o2, s2, nd));
            }
            free(oo);
            nd = c;
        }
        else
        {
            JI("unknown", 1);
        }
        E();
    }
    return 0;
}
