/* Drives the collections of src/commons (or, with SERVER_HT, the hash table of the server; with HTAB, the one of the
   profiler). */
#include "proto.h"
#ifdef SERVER_HT
#include "pdc_hash-table.h"
#elif defined(HTAB)
#include "pdc_hashtab.h"
#else
#include "art.h"
#include "pdc_compare.h"
#include "pdc_deque.h"
#include "pdc_hash.h"
#include "pdc_hash_table.h"
#include "pdc_set.h"
#include "pdc_stack.h"
#include "pdc_vector.h"
extern HashTableHashFunc  pdc_default_double_hash_func_ptr;
extern HashTableEqualFunc pdc_default_double_equal_func_ptr;
#endif

#define MAXH 16
typedef struct item {
    int v;
    int live;
} item;
static item *fv[100000];
static int   nfv, fkeys;

static void *
mkv(int v)
{
    item *i = malloc(sizeof *i);
    i->v    = v;
    return i;
}
static int
val(void *p)
{
    return p ? ((item *)p)->v : -1;
}
static void
free_val(void *p)
{
    fv[nfv++] = p;
}
static void
free_key(void *p)
{
    fkeys++;
    free(p);
}
/* what was freed during this call: a value freed twice shows up twice (and address sanitizer sees it) */
static void
freed(void)
{
    int i, j;
    printf(",\"fv\":[");
    for (i = 0; i < nfv; i++)
        printf("%s%d", i ? "," : "", fv[i]->v);
    printf("],\"fk\":%d", fkeys);
    for (i = 0; i < nfv; i++) {
        for (j = 0; j < i; j++)
            if (fv[j] == fv[i])
                break;
        if (j == i)
            free(fv[i]);
    }
    nfv = fkeys = 0;
}

static unsigned
one_hash(void *p)
{
    (void)p;
    return 7;
}

#ifdef HTAB
/* the same calls, made on an htab of pairs */
#define SERVER_HT 1
typedef struct {
    void *key, *value;
} HashTablePair;
typedef struct {
    htab_t t;
    void (*fk)(void *);
    void (*fval)(void *);
    char k;
} HashTable;
typedef struct {
    HashTablePair *a;
    int            n, i;
} HashTableIterator;
static HashTable *cur; /* whose pair is being let go of */
static hashval_t
el_i(const void *p)
{
    return (hashval_t) * (int *)((const HashTablePair *)p)->key;
}
static hashval_t
el_c(const void *p)
{
    (void)p;
    return 7;
}
static hashval_t
el_s(const void *p)
{
    return htab_hash_string(((const HashTablePair *)p)->key);
}
static hashval_t
el_p(const void *p)
{
    return htab_hash_pointer(((const HashTablePair *)p)->key);
}
static int
eq_i(const void *a, const void *b)
{
    return *(int *)((const HashTablePair *)a)->key == *(int *)((const HashTablePair *)b)->key;
}
static int
eq_s(const void *a, const void *b)
{
    return !strcmp(((const HashTablePair *)a)->key, ((const HashTablePair *)b)->key);
}
static int
eq_p(const void *a, const void *b)
{
    return htab_eq_pointer(((const HashTablePair *)a)->key, ((const HashTablePair *)b)->key);
}
static void
el_del(void *p)
{
    HashTablePair *e = p;
    if (cur->fk)
        cur->fk(e->key);
    if (cur->fval)
        cur->fval(e->value);
    free(e);
}
static void
hash_table_register_free_functions(HashTable *h, void (*fk)(void *), void (*f)(void *))
{
    h->fk   = fk;
    h->fval = f;
}
static int
hash_table_insert(HashTable *h, void *k, void *v)
{
    HashTablePair *e = malloc(sizeof *e);
    void **        s;
    e->key   = k;
    e->value = v;
    cur      = h;
    s        = htab_find_slot(h->t, e, INSERT);
    if (!s)
        return 0;
    if (*s != HTAB_EMPTY_ENTRY)
        el_del(*s);
    *s = e;
    return 1;
}
static void *
hash_table_lookup(HashTable *h, void *k)
{
    HashTablePair e = {k, NULL}, *r = htab_find(h->t, &e);
    void **       s = htab_find_slot(h->t, &e, NO_INSERT);
    if ((s ? *s : NULL) != (void *)r)
        return NULL;
    return r ? r->value : NULL;
}
static int
hash_table_remove(HashTable *h, void *k)
{
    HashTablePair e = {k, NULL};
    void **       s;
    size_t        n = htab_elements(h->t);
    cur             = h;
    if (n % 2) { /* the caller that has looked the slot up */
        s = htab_find_slot(h->t, &e, NO_INSERT);
        if (s)
            htab_clear_slot(h->t, s);
    }
    else
        htab_remove_elt(h->t, &e);
    return htab_elements(h->t) + 1 == n;
}
static unsigned
hash_table_num_entries(HashTable *h)
{
    return (unsigned)htab_elements(h->t);
}
static int
el_show(void **s, void *x)
{
    HashTableIterator *it = x;
    it->a                 = realloc(it->a, (size_t)(it->n + 1) * sizeof *it->a);
    it->a[it->n++]        = *(HashTablePair *)*s;
    return 1;
}
static void
hash_table_iterate(HashTable *h, HashTableIterator *it)
{
    memset(it, 0, sizeof *it);
    htab_traverse(h->t, el_show, it);
}
static int
hash_table_iter_has_more(HashTableIterator *it)
{
    return it->i < it->n;
}
static HashTablePair
hash_table_iter_next(HashTableIterator *it)
{
    HashTablePair none = {NULL, NULL};
    return it->i < it->n ? it->a[it->i++] : none;
}
static void
hash_table_free(HashTable *h)
{
    cur = h;
    htab_delete(h->t);
    free(h);
}
static struct {
    HashTable *h;
    int        m, r, n, stop;
} sweep;
static int
el_sweep(void **s, void *x)
{
    (void)x;
    HashTablePair *e = *s;
    printf("%s%d", sweep.n++ ? "," : "", val(e->value));
    if (val(e->value) % sweep.m == sweep.r)
        htab_clear_slot(sweep.h->t, s);
    return sweep.n != sweep.stop;
}
static HashTable *
htab_make(char k, size_t size)
{
    HashTable *h = calloc(1, sizeof *h);
    h->k         = k;
    h->t = htab_create(size, k == 'i' ? el_i : k == 'c' ? el_c : k == 'p' ? el_p : el_s, k == 'i' || k == 'c' ? eq_i : k == 'p' ? eq_p : eq_s,
                       el_del);
    return h;
}
#endif
static HashTable *ht[MAXH];
static char       kind[MAXH];
static int        own[MAXH];

/* the key as the table's hash and comparison functions want it; i: int, u: 64-bit, s: string, n: string without case, p: pointer */
static void *
mkkey(char k)
{
    char *w = W();
    void *r;
    switch (k) {
        case 'i':
        case 'c':
        case 'I':
            r          = malloc(sizeof(int));
            *(int *)r = atoi(w);
            return r;
        case 'D':
            r             = malloc(8);
            *(double *)r = strtod(w, NULL);
            return r;
        case 'L':
            r           = malloc(8);
            *(long *)r = strtol(w, NULL, 10);
            return r;
        case 'u':
        case 'U':
            r               = malloc(8);
            *(uint64_t *)r = strtoull(w, NULL, 10);
            return r;
        case 'p':
            return (void *)(uintptr_t)strtoull(w, NULL, 10);
        default:
            p_i--;
            return H(NULL);
    }
}
static void
putkey(char k, void *p)
{
    switch (k) {
        case 'i':
        case 'c':
        case 'I':
            printf("\"%d\"", *(int *)p);
            break;
        case 'D':
            printf("\"%.17g\"", *(double *)p);
            break;
        case 'L':
            printf("\"%ld\"", *(long *)p);
            break;
        case 'u':
        case 'U':
            printf("\"%lu\"", (unsigned long)*(uint64_t *)p);
            break;
        case 'p':
            printf("\"%lu\"", (unsigned long)(uintptr_t)p);
            break;
        default:
            bytes(p, (int)strlen(p));
    }
}

static int
ieq(void *a, void *b)
{
    return *(int *)a == *(int *)b;
}
static unsigned
ihash(void *a)
{
    return (unsigned)*(int *)a;
}
static int
seq_(void *a, void *b)
{
    return !strcmp(a, b);
}
static unsigned
shash(void *a)
{
    unsigned r = 0;
    for (unsigned char *p = a; *p; p++)
        r = r * 31 + *p;
    return r;
}

static void
hash_new(int m, char k)
{
    kind[m] = k;
#ifdef HTAB
    (void)ihash;
    (void)shash;
    (void)seq_;
    (void)ieq;
    (void)one_hash;
    ht[m] = htab_make(k, (size_t)N());
#elif defined(SERVER_HT)
    ht[m] = k == 'i' ? hash_table_new(ihash, ieq) : k == 'c' ? hash_table_new(one_hash, ieq) : hash_table_new(shash, seq_);
#else
    (void)ihash;
    (void)shash;
    (void)seq_;
    switch (k) {
        case 'i':
            ht[m] = hash_table_new(int_hash, int_equal);
            break;
        case 'c':
            ht[m] = hash_table_new(one_hash, ieq);
            break;
        case 'u':
            ht[m] = hash_table_new(ui64_hash, ui64_equal);
            break;
        case 'p':
            ht[m] = hash_table_new(pointer_hash, pointer_equal);
            break;
        case 'n':
            ht[m] = hash_table_new(string_nocase_hash, string_nocase_equal);
            break;
        case 'S':
            ht[m] = hash_table_new(pdc_default_string_hash_func_ptr, pdc_default_string_equal_func_ptr);
            break;
        case 'I':
            ht[m] = hash_table_new(pdc_default_integer_hash_func_ptr, pdc_default_integer_equal_func_ptr);
            break;
        case 'L':
            ht[m] = hash_table_new(pdc_default_long_hash_func_ptr, pdc_default_long_equal_func_ptr);
            break;
        case 'U':
            ht[m] = hash_table_new(pdc_default_uint64_hash_func_ptr, pdc_default_uint64_equal_func_ptr);
            break;
        case 'D':
            ht[m] = hash_table_new(pdc_default_double_hash_func_ptr, pdc_default_double_equal_func_ptr);
            break;
        default:
            ht[m] = hash_table_new(string_hash, string_equal);
    }
#endif
}

#ifndef SERVER_HT
static Set *       st[MAXH];
static art_tree    at[MAXH];
static PDC_deque_t dq[MAXH];
static PDC_stack_t sk[MAXH];
static PDC_VECTOR *vc[MAXH];
static int         art_n, art_stop;
static int
art_show(void *data, const unsigned char *key, uint32_t len, void *value)
{
    (void)data;
    printf("%s[", art_n++ ? "," : "");
    bytes(key, (int)len);
    printf(",%d]", val(value));
    return art_stop && art_n >= art_stop ? 77 : 0;
}
static Set *
set_make(char k)
{
    switch (k) {
        case 'i':
            return set_new(int_hash, int_equal);
        case 'c':
            return set_new(one_hash, ieq);
        case 'u':
            return set_new(ui64_hash, ui64_equal);
        case 'p':
            return set_new(pointer_hash, pointer_equal);
        case 'n':
            return set_new(string_nocase_hash, string_nocase_equal);
        default:
            return set_new(string_hash, string_equal);
    }
}
#endif

int
main(void)
{
    while (next_line()) {
        char *op = W();
        int   m  = (int)N(), n, i;
        (void)n;
        (void)i;
        B(op);
        JI("m", m);
        if (!*op)
            ;
        IS("hnew")
        {
            char k = *W();
            own[m] = (int)N();
            hash_new(m, k);
            if (own[m])
                hash_table_register_free_functions(ht[m], k == 'p' ? NULL : free_key, free_val);
        }
        IS("hput")
        {
            void *k = mkkey(kind[m]);
            JI("ok", hash_table_insert(ht[m], k, mkv((int)N())) != 0);
            freed();
        }
        IS("hget")
        {
            void *k = mkkey(kind[m]);
            JI("v", val(hash_table_lookup(ht[m], k)));
            if (kind[m] != 'p')
                free(k);
        }
        IS("hdel")
        {
            void *k = mkkey(kind[m]);
            JI("ok", hash_table_remove(ht[m], k) != 0);
            if (kind[m] != 'p')
                free(k);
            freed();
        }
        IS("hnum")
        {
            JI("n", (long)hash_table_num_entries(ht[m]));
        }
        IS("hiter")
        {
            HashTableIterator it;
            hash_table_iterate(ht[m], &it);
            printf(",\"seq\":[");
            for (n = 0; hash_table_iter_has_more(&it) && n < 100000; n++) {
                HashTablePair p = hash_table_iter_next(&it);
                printf("%s[", n ? "," : "");
                putkey(kind[m], p.key);
                printf(",%d]", val(p.value));
            }
            printf("]");
            HashTablePair e = hash_table_iter_next(&it);
            JI("end", e.key == NULL && e.value == NULL);
        }
        IS("hfree")
        {
            hash_table_free(ht[m]);
            freed();
        }
#ifdef HTAB
        IS("hempty")
        {
            cur = ht[m];
            htab_empty(ht[m]->t);
            freed();
        }
        IS("hsweep")
        {
            sweep.h    = cur = ht[m];
            sweep.m    = (int)N();
            sweep.r    = (int)N();
            sweep.stop = (int)N();
            sweep.n    = 0;
            printf(",\"seq\":[");
            htab_traverse(ht[m]->t, el_sweep, NULL);
            printf("]");
            freed();
        }
#endif
#ifndef SERVER_HT
        IS("snew")
        {
            kind[m] = *W();
            st[m]   = set_make(kind[m]);
            own[m]  = (int)N();
            if (own[m])
                set_register_free_function(st[m], free_key);
        }
        IS("sadd")
        {
            void *k = mkkey(kind[m]);
            i       = set_insert(st[m], k) != 0;
            JI("ok", i);
            if (!i && kind[m] != 'p')
                free(k);
            freed();
        }
        IS("sdel")
        {
            void *k = mkkey(kind[m]);
            JI("ok", set_remove(st[m], k) != 0);
            if (kind[m] != 'p')
                free(k);
            freed();
        }
        IS("sq")
        {
            void *k = mkkey(kind[m]);
            JI("ok", set_query(st[m], k) != 0);
            if (kind[m] != 'p')
                free(k);
        }
        IS("snum")
        {
            JI("n", (long)set_num_entries(st[m]));
        }
        IS("sarr")
        {
            SetValue *a = set_to_array(st[m]);
            n           = (int)set_num_entries(st[m]);
            printf(",\"seq\":[");
            for (i = 0; i < n; i++) {
                if (i)
                    printf(",");
                putkey(kind[m], a[i]);
            }
            printf("]");
            free(a);
        }
        IS("siter")
        {
            SetIterator it;
            set_iterate(st[m], &it);
            printf(",\"seq\":[");
            for (n = 0; set_iter_has_more(&it) && n < 100000; n++) {
                if (n)
                    printf(",");
                putkey(kind[m], set_iter_next(&it));
            }
            printf("]");
            JI("end", set_iter_next(&it) == NULL);
        }
        IS("suni")
        {
            int a = (int)N(), b = (int)N();
            st[m]   = set_union(st[a], st[b]);
            kind[m] = kind[a];
            own[m]  = 0;
            JI("ok", st[m] != NULL);
        }
        IS("sint")
        {
            int a = (int)N(), b = (int)N();
            st[m]   = set_intersection(st[a], st[b]);
            kind[m] = kind[a];
            own[m]  = 0;
            JI("ok", st[m] != NULL);
        }
        IS("sfree")
        {
            set_free(st[m]);
            freed();
        }
        IS("anew")
        {
            JI("ok", art_tree_init(&at[m]) == 0);
        }
        IS("aput")
        {
            unsigned char *k = H(&n);
            JI("old", val(art_insert(&at[m], k, n, mkv((int)N()))));
            free(k);
        }
        IS("aputn")
        {
            unsigned char *k = H(&n);
            JI("old", val(art_insert_no_replace(&at[m], k, n, mkv((int)N()))));
            free(k);
        }
        IS("aget")
        {
            unsigned char *k = H(&n);
            JI("v", val(art_search(&at[m], k, n)));
            free(k);
        }
        IS("adel")
        {
            unsigned char *k = H(&n);
            JI("old", val(art_delete(&at[m], k, n)));
            free(k);
        }
        IS("anum")
        {
            JI("n", (long)at[m].size);
        }
        IS("amin")
        {
            art_leaf *l = art_minimum(&at[m]);
            JB("k", l ? l->key : NULL, l ? (int)l->key_len : 0);
            JI("v", l ? val(l->value) : -1);
        }
        IS("amax")
        {
            art_leaf *l = art_maximum(&at[m]);
            JB("k", l ? l->key : NULL, l ? (int)l->key_len : 0);
            JI("v", l ? val(l->value) : -1);
        }
        IS("aiter")
        {
            art_stop = (int)N();
            art_n    = 0;
            printf(",\"seq\":[");
            i = art_iter(&at[m], art_show, NULL);
            printf("]");
            JI("rc", i);
        }
        IS("apre")
        {
            unsigned char *k = H(&n);
            art_stop         = (int)N();
            art_n            = 0;
            printf(",\"seq\":[");
            i = art_iter_prefix(&at[m], k, n, art_show, NULL);
            printf("]");
            JI("rc", i);
            free(k);
        }
        IS("afree")
        {
            JI("ok", art_tree_destroy(&at[m]) == 0);
        }
        IS("dnew")
        {
            PDC_deque_init(&dq[m]);
        }
        IS("dpf")
        {
            PDC_deque_push_front(&dq[m], mkv((int)N()));
        }
        IS("dpb")
        {
            PDC_deque_push_back(&dq[m], mkv((int)N()));
        }
        IS("dgf")
        {
            JI("v", val(PDC_deque_pop_front(&dq[m])));
        }
        IS("dgb")
        {
            JI("v", val(PDC_deque_pop_back(&dq[m])));
        }
        IS("dnum")
        {
            JI("n", (long)dq[m].size);
        }
        IS("dfree")
        {
            PDC_deque_free(&dq[m]);
        }
        IS("knew")
        {
            PDC_stack_init(&sk[m]);
        }
        IS("kpush")
        {
            PDC_stack_push(&sk[m], mkv((int)N()));
        }
        IS("kpop")
        {
            JI("v", val(PDC_stack_pop(&sk[m])));
        }
        IS("knum")
        {
            JI("n", (long)sk[m].size);
        }
        IS("kfree")
        {
            PDC_stack_free(&sk[m]);
        }
        IS("vnew")
        {
            long cap = N();
            vc[m]    = cap < 0 ? pdc_vector_new() : pdc_vector_create((size_t)cap, strtod(W(), NULL));
        }
        IS("vadd")
        {
            pdc_vector_add(vc[m], mkv((int)N()));
        }
        IS("vget")
        {
            JI("v", val(pdc_vector_get(vc[m], (size_t)N())));
        }
        IS("vnum")
        {
            JI("n", (long)pdc_vector_size(vc[m]));
        }
        IS("vfac")
        {
            pdc_vector_set_expansion_factor(vc[m], strtod(W(), NULL));
        }
        IS("viter")
        {
            PDC_VECTOR_ITERATOR *it = pdc_vector_iterator_new(vc[m]);
            printf(",\"seq\":[");
            for (n = 0; pdc_vector_iterator_has_next(it) && n < 100000; n++)
                printf("%s%d", n ? "," : "", val(pdc_vector_iterator_next(it)));
            printf("]");
            JI("end", pdc_vector_iterator_next(it) == NULL);
            pdc_vector_iterator_destroy(it);
        }
        IS("vfree")
        {
            pdc_vector_destroy(vc[m]);
        }
        IS("cmp")
        {
            char  k = (char)m;
            void *a = mkkey(k), *b = mkkey(k);
            int   c = k == 'i' ? int_compare(a, b) : k == 'u' ? ui64_compare(a, b) : k == 'p' ? pointer_compare(a, b)
                  : k == 'n' ? string_nocase_compare(a, b) : string_compare(a, b);
            int e = k == 'i' ? int_equal(a, b) : k == 'u' ? ui64_equal(a, b) : k == 'p' ? pointer_equal(a, b)
                  : k == 'n' ? string_nocase_equal(a, b) : string_equal(a, b);
            unsigned ha = k == 'i' ? int_hash(a) : k == 'u' ? ui64_hash(a) : k == 'p' ? pointer_hash(a)
                        : k == 'n' ? string_nocase_hash(a) : string_hash(a);
            unsigned hb = k == 'i' ? int_hash(b) : k == 'u' ? ui64_hash(b) : k == 'p' ? pointer_hash(b)
                        : k == 'n' ? string_nocase_hash(b) : string_hash(b);
            JI("c", c);
            JI("e", e != 0);
            JI("h", ha == hb);
        }
#endif
        else
        {
            JI("unknown", 1);
        }
        E();
    }
    return 0;
}
