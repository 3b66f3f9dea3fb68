/* Runs a program of several threads that use thread pools. Every line of the input is
 *   CLIENT AFTER OP ARGUMENTS
 * where the operation waits until all lines before AFTER are done. Events are written in the order in which they
 * happen, which is exact, as only one thread runs at a time. */
#include "proto.h"
#include "sched.h"
#include <unistd.h>
#include "thpool.h"

static struct op {
    int  c, after, a, b, d, e, f;
    volatile int done;
    char op[16];
} O[1024];
static int        no;
static threadpool P[16];
static struct jb {
    int p, j, points, gate, child;
} J[4096];
static volatile int open_[4096], started[4096];

#define EV(...) printf("{\"op\":" __VA_ARGS__)
static void job(void *x);
static void
add(int p, int j, int by)
{
    int r;
    EV("\"addb\",\"p\":%d,\"j\":%d}\n", p, j);
    r = thpool_add_work(P[p], job, &J[j]);
    EV("\"adde\",\"p\":%d,\"j\":%d,\"by\":%d,\"ok\":%s}\n", p, j, by, r == 0 ? "true" : "false");
}
static void
job(void *x)
{
    struct jb *j = x;
    int        i;
    started[j->j] = 1;
    EV("\"start\",\"p\":%d,\"j\":%d}\n", j->p, j->j);
    for (i = 0; i < j->points / 2; i++)
        s_point();
    if (j->gate)
        while (!open_[j->j])
            s_sleep(1);
    if (j->child) {
        J[j->child].p      = j->p;
        J[j->child].j      = j->child;
        J[j->child].points = 3;
        add(j->p, j->child, j->j);
    }
    for (; i < j->points; i++)
        s_point();
    EV("\"end\",\"p\":%d,\"j\":%d}\n", j->p, j->j);
}
static void
client(void *x)
{
    int c = (int)(long)x, i, k, ok;
    for (i = 0; i < no; i++) {
        struct op *o = &O[i];
        if (o->c != c)
            continue;
        do {
            for (ok = 1, k = 0; k < o->after; k++)
                ok = ok && O[k].done;
            if (!ok)
                s_sleep(1);
        } while (!ok);
        s_point();
        if (!strcmp(o->op, "init")) {
            P[o->a] = thpool_init(o->b);
            EV("\"init\",\"p\":%d,\"n\":%d,\"ok\":%s}\n", o->a, o->b, P[o->a] ? "true" : "false");
        }
        else if (!strcmp(o->op, "add")) {
            struct jb *j = &J[o->b];
            j->p         = o->a;
            j->j         = o->b;
            j->points    = o->d;
            j->gate      = o->e;
            j->child     = o->f;
            add(o->a, o->b, 0);
        }
        else if (!strcmp(o->op, "wait")) {
            EV("\"waitb\",\"c\":%d,\"p\":%d}\n", c, o->a);
            thpool_wait(P[o->a]);
            EV("\"waite\",\"c\":%d,\"p\":%d}\n", c, o->a);
        }
        else if (!strcmp(o->op, "pause")) {
            thpool_pause(P[o->a]);
            EV("\"pause\",\"p\":%d}\n", o->a);
        }
        else if (!strcmp(o->op, "resume")) {
            EV("\"resume\",\"p\":%d}\n", o->a);
            thpool_resume(P[o->a]);
        }
        else if (!strcmp(o->op, "destroy")) {
            EV("\"destb\",\"p\":%d}\n", o->a);
            thpool_destroy(P[o->a]);
            P[o->a] = NULL;
            EV("\"deste\",\"p\":%d}\n", o->a);
        }
        else if (!strcmp(o->op, "open"))
            open_[o->a] = 1;
        else if (!strcmp(o->op, "meet"))
            while (!started[o->a])
                s_sleep(1);
        else if (!strcmp(o->op, "working")) {
            /* the number is read at one moment, which lies between the two events */
            EV("\"workb\",\"c\":%d,\"p\":%d}\n", c, o->a);
            k = thpool_num_threads_working(P[o->a]);
            EV("\"worke\",\"c\":%d,\"p\":%d,\"n\":%d}\n", c, o->a, k);
        }
        else if (!strcmp(o->op, "rest"))
            for (k = 0; k < o->a; k++)
                s_sleep(1);
        o->done = 1;
    }
}
int
main(void)
{
    int seed = 1, style = 0, spur = 0, i, nc = 0;
    setvbuf(stdout, malloc(1 << 20), _IOFBF, 1 << 20);
    while (next_line()) {
        struct op *o = &O[no];
        char *     w = W();
        if (!strcmp(w, "set")) {
            seed  = (int)N();
            style = (int)N();
            spur  = (int)N();
            continue;
        }
        o->c     = atoi(w);
        o->after = (int)N();
        strncpy(o->op, W(), 15);
        o->a = (int)N();
        o->b = (int)N();
        o->d = (int)N();
        o->e = (int)N();
        o->f = (int)N();
        if (o->c >= nc)
            nc = o->c + 1;
        no++;
    }
    s_start(seed, style, spur);
    for (i = 0; i < nc; i++)
        s_spawn(client, (void *)(long)i);
    s_finish();
    EV("\"left\",\"n\":%d}\n", s_live());
    fflush(stdout);
    _exit(0);
}
