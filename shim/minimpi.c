/* Mini-MPI.  Rank and size come from MM_RANK / MM_SIZE; a collective is an all-gather of one blob per rank
 * through files $MM_DIR/mpi/<comm>.<seq>.<rank> (written under a temporary name, then renamed). */
#define _GNU_SOURCE
#include "mpi.h"
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <sys/resource.h>
#include <unistd.h>
struct mm_comm {
    int  rank, size, seq, kids;
    char name[64];
};
struct mm_comm mm_world = {0, 1, 0, 0, "w"}, mm_self = {0, 1, 0, 0, "s"};
static int     inited, fin;
static const char *
dir(void)
{
    static char b[512];
    if (!b[0]) {
        const char *d = getenv("MM_MPI_DIR");
        snprintf(b, sizeof b, "%s", d ? d : "/tmp");
        mkdir(b, 0700);
    }
    return b;
}
static size_t
tsz(MPI_Datatype t)
{
    switch (t) {
        case MPI_CHAR:
        case MPI_BYTE:
        case MPI_UINT8_T:
        case MPI_INT8_T:
            return 1;
        case MPI_INT:
        case MPI_UNSIGNED:
        case MPI_FLOAT:
        case MPI_INT32_T:
        case MPI_UINT32_T:
            return 4;
        case MPI_UINT16_T:
        case MPI_INT16_T:
            return 2;
        default:
            return 8;
    }
}
static void
fname(char *b, size_t n, MPI_Comm c, int seq, int r)
{
    snprintf(b, n, "%s/%s.%d.%d", dir(), c->name, seq, r);
}
/* gather every rank's blob; out[r] malloc'd, lens[r]; with nowait only this rank's blob is handed in, as an MPI that
   sends small messages eagerly lets a rank that is not the root of a reduction go on */
static void
exch_(MPI_Comm c, const void *buf, size_t n, char **out, size_t *lens, int nowait)
{
    char f[700], t[720];
    int  r, seq = c->seq++;
    if (c->size == 1) {
        out[0] = malloc(n + 1);
        memcpy(out[0], buf, n);
        lens[0] = n;
        return;
    }
    fname(f, sizeof f, c, seq, c->rank);
    snprintf(t, sizeof t, "%s.tmp", f);
    /* a limit on what the servers can store is not one on their messages */
    struct rlimit lim, all;
    getrlimit(RLIMIT_FSIZE, &lim);
    all          = lim;
    all.rlim_cur = all.rlim_max;
    setrlimit(RLIMIT_FSIZE, &all);
    int fd = open(t, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || write(fd, buf, n) != (ssize_t)n) {
        perror("minimpi");
        _exit(97);
    }
    setrlimit(RLIMIT_FSIZE, &lim);
    close(fd);
    rename(t, f);
    if (nowait)
        return;
    for (r = 0; r < c->size; r++) {
        struct stat st;
        int         tries = 0;
        fname(f, sizeof f, c, seq, r);
        while ((fd = open(f, O_RDONLY)) < 0) {
            usleep(tries < 50 ? 100 : 1000);
            if (++tries > 120000) {
                fprintf(stderr, "minimpi: rank %d gave up waiting for rank %d\n", c->rank, r);
                _exit(96);
            }
        }
        fstat(fd, &st);
        lens[r] = st.st_size;
        out[r]  = malloc(st.st_size + 1);
        if (read(fd, out[r], st.st_size) != st.st_size)
            _exit(97);
        close(fd);
    }
}
static void
exch(MPI_Comm c, const void *buf, size_t n, char **out, size_t *lens)
{
    exch_(c, buf, n, out, lens, 0);
}
#define EX(buf, n)                                                                                           \
    char * _o[c->size];                                                                                      \
    size_t _l[c->size];                                                                                      \
    exch(c, buf, n, _o, _l)
#define DONE                                                                                                 \
    for (int _i = 0; _i < c->size; _i++)                                                                     \
    free(_o[_i])
int
MPI_Init(int *a, char ***b)
{
    if (getenv("MM_RANK"))
        mm_world.rank = atoi(getenv("MM_RANK"));
    if (getenv("MM_SIZE"))
        mm_world.size = atoi(getenv("MM_SIZE"));
    inited = 1;
    return 0;
}
int
MPI_Initialized(int *f)
{
    *f = inited;
    return 0;
}
int
MPI_Finalized(int *f)
{
    *f = fin;
    return 0;
}
int
MPI_Finalize(void)
{
    fin = 1;
    return 0;
}
int
MPI_Abort(MPI_Comm c, int e)
{
    _exit(e ? e : 1);
}
double
MPI_Wtime(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
int
MPI_Comm_rank(MPI_Comm c, int *r)
{
    *r = c->rank;
    return 0;
}
int
MPI_Comm_size(MPI_Comm c, int *r)
{
    *r = c->size;
    return 0;
}
int
MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out)
{
    int            me[2] = {color, key}, i;
    struct mm_comm *n    = calloc(1, sizeof *n);
    int             kid  = c->kids++;
    EX(me, sizeof me);
    for (i = 0; i < c->size; i++) {
        int *v = (int *)_o[i];
        if (v[0] != color)
            continue;
        n->size++;
        if (v[1] < key || (v[1] == key && i < c->rank))
            n->rank++;
    }
    DONE;
    snprintf(n->name, sizeof n->name, "%.40s-%d_%d", c->name, kid, color);
    *out = n;
    return 0;
}
int
MPI_Comm_dup(MPI_Comm c, MPI_Comm *o)
{
    return MPI_Comm_split(c, 0, c->rank, o);
}
int
MPI_Comm_split_type(MPI_Comm c, int t, int k, MPI_Info i, MPI_Comm *o)
{
    return MPI_Comm_split(c, 0, c->rank, o);
}
int
MPI_Comm_free(MPI_Comm *c)
{
    if (*c != &mm_world && *c != &mm_self)
        free(*c);
    *c = NULL;
    return 0;
}
int
MPI_Get_processor_name(char *b, int *n)
{
    strcpy(b, "localhost");
    *n = 9;
    return 0;
}
int
MPI_Barrier(MPI_Comm c)
{
    EX("", 0);
    DONE;
    return 0;
}
int
MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    EX(b, c->rank == root ? n * tsz(t) : 0);
    if (c->rank != root)
        memcpy(b, _o[root], n * tsz(t));
    DONE;
    return 0;
}
static void
place(char **o, size_t *l, void *rb, const int *cnt, const int *dis, int n, size_t es, int size)
{
    for (int i = 0; i < size; i++)
        memcpy((char *)rb + (dis ? (size_t)dis[i] : (size_t)i * n) * es, o[i], l[i]);
}
int
MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    EX(s, n * tsz(t));
    if (c->rank == root)
        place(_o, _l, r, 0, 0, rn, tsz(rt), c->size);
    DONE;
    return 0;
}
int
MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *cn, const int *d, MPI_Datatype rt, int root,
            MPI_Comm c)
{
    EX(s, n * tsz(t));
    if (c->rank == root)
        place(_o, _l, r, cn, d, 0, tsz(rt), c->size);
    DONE;
    return 0;
}
int
MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    EX(s, n * tsz(t));
    place(_o, _l, r, 0, 0, rn, tsz(rt), c->size);
    DONE;
    return 0;
}
int
MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *r, const int *cn, const int *d, MPI_Datatype rt, MPI_Comm c)
{
    EX(s, n * tsz(t));
    place(_o, _l, r, cn, d, 0, tsz(rt), c->size);
    DONE;
    return 0;
}
int
MPI_Scatterv(const void *s, const int *cn, const int *d, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root,
             MPI_Comm c)
{
    size_t tot = 0;
    int    mine[2] = {0, 0};
    if (c->rank == root)
        for (int i = 0; i < c->size; i++)
            if ((size_t)(cn[i] + d[i]) > tot)
                tot = cn[i] + d[i];
    (void)mine;
    /* root's blob: counts, displacements, data */
    size_t hd  = 2 * sizeof(int) * c->size, n = c->rank == root ? hd + tot * tsz(t) : 0;
    char * buf = malloc(n + 1);
    if (c->rank == root) {
        memcpy(buf, cn, hd / 2);
        memcpy(buf + hd / 2, d, hd / 2);
        memcpy(buf + hd, s, tot * tsz(t));
    }
    EX(buf, n);
    free(buf);
    int *rc = (int *)_o[root], *rdis = rc + c->size;
    memcpy(r, _o[root] + hd + rdis[c->rank] * tsz(t), rc[c->rank] * tsz(t));
    DONE;
    return 0;
}
#define RED(T)                                                                                               \
    {                                                                                                        \
        T *a = (T *)acc;                                                                                     \
        for (int i = 0; i < n; i++) {                                                                        \
            T b = ((const T *)v)[i];                                                                         \
            switch (op) {                                                                                    \
                case MPI_SUM:                                                                                \
                    a[i] += b;                                                                               \
                    break;                                                                                   \
                case MPI_MIN:                                                                                \
                    if (b < a[i])                                                                            \
                        a[i] = b;                                                                            \
                    break;                                                                                   \
                case MPI_MAX:                                                                                \
                    if (b > a[i])                                                                            \
                        a[i] = b;                                                                            \
                    break;                                                                                   \
                case MPI_LOR:                                                                                \
                    a[i] = a[i] || b;                                                                        \
                    break;                                                                                   \
                case MPI_LAND:                                                                               \
                    a[i] = a[i] && b;                                                                        \
                    break;                                                                                   \
            }                                                                                                \
        }                                                                                                    \
    }                                                                                                        \
    break
static void
comb(void *acc, const void *v, int n, MPI_Datatype t, MPI_Op op)
{
    switch (t) {
        case MPI_CHAR:
        case MPI_BYTE:
        case MPI_INT8_T:
            RED(char);
        case MPI_UINT8_T:
            RED(uint8_t);
        case MPI_INT:
        case MPI_INT32_T:
            RED(int);
        case MPI_UNSIGNED:
        case MPI_UINT32_T:
            RED(unsigned);
        case MPI_FLOAT:
            RED(float);
        case MPI_DOUBLE:
            RED(double);
        case MPI_UNSIGNED_LONG:
        case MPI_UNSIGNED_LONG_LONG:
        case MPI_UINT64_T:
            RED(uint64_t);
        default:
            RED(int64_t);
    }
}
static int
reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int lo, int hi, int mine, MPI_Comm c)
{
    if (s == MPI_IN_PLACE)
        s = r;
    EX(s, n * tsz(t));
    if (mine) {
        memcpy(r, _o[lo], n * tsz(t));
        for (int i = lo + 1; i <= hi; i++)
            comb(r, _o[i], n, t, op);
    }
    DONE;
    return 0;
}
int
MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    if (c->rank != root && c->size > 1) {
        exch_(c, s, n * tsz(t), NULL, NULL, 1);
        return 0;
    }
    return reduce(s, r, n, t, op, 0, c->size - 1, c->rank == root, c);
}
int
MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    return reduce(s, r, n, t, op, 0, c->size - 1, 1, c);
}
int
MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    return reduce(s, r, n, t, op, 0, c->rank, 1, c);
}
