/* Drives the routing of src/commons/index/dart: which servers an insert, a delete and a query go to. */
#include <unistd.h>
#include "proto.h"
#include "dart_core.h"

static DART    sp[8];
static int     cur;
static int64_t load_[8][4096];

static dart_server
info(uint32_t id)
{
    dart_server s;
    memset(&s, 0, sizeof s);
    s.id                 = id;
    s.indexed_word_count = load_[cur][id % 4096];
    return s;
}

static void
show(index_hash_result_t *r, int n, const char *tok)
{
    int i;
    printf(",\"n\":%d,\"pairs\":[", n);
    for (i = 0; i < n; i++) {
        printf("%s[%u,", i ? "," : "", r[i].server_id > 1000000 ? 1000000 : r[i].server_id);
        bytes((const unsigned char *)r[i].key, (int)strlen(r[i].key));
        printf("]");
    }
    printf("]");
    (void)tok;
}

int
main(void)
{
    while (next_line()) {
        char *op = W();
        int   m = cur = (int)N(), a, b, c, d, n;
        B(op);
        JI("m", m);
        if (!*op)
            ;
        IS("space")
        {
            a = (int)N(), b = (int)N(), c = (int)N(), d = (int)N();
            memset(&sp[m], 0, sizeof sp[m]);
            memset(load_[m], 0, sizeof load_[m]);
            dart_space_init(&sp[m], 1, a, b, c, d);
            JI("height", sp[m].dart_tree_height);
        }
        IS("load")
        {
            a          = (int)N();
            load_[m][a] = N();
        }
        IS("route")
        {
            index_hash_result_t *r = NULL;
            a                      = (int)N();
            char *t                = (char *)H(NULL);
            n                      = DART_hash(&sp[m], t, (dart_op_type_t)a, a == OP_INSERT ? info : NULL, &r);
            show(r, n, t);
        }
        IS("dht")
        {
            index_hash_result_t *r = NULL;
            a                      = (int)N();
            b                      = (int)N();
            char *t                = (char *)H(NULL);
            n                      = DHT_hash(&sp[m], b ? 1 : strlen(t), t, (dart_op_type_t)a, &r);
            show(r, n, t);
        }
        else
        {
            JI("unknown", 1);
        }
        E();
    }
    fflush(stdout);
    _exit(0);
}
