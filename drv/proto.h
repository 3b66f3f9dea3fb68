/* One text command per line on stdin, one JSON object per line on stdout. */
#ifndef PROTO_H
#define PROTO_H
#include <ctype.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char *p_tok[4096];
static int   p_n, p_i, p_first;
static char  p_line[1 << 20];

static int
next_line(void)
{
    char *s, *sv;
    if (!fgets(p_line, sizeof p_line, stdin))
        return 0;
    p_n = p_i = 0;
    for (s = strtok_r(p_line, " \n", &sv); s && p_n < 4096; s = strtok_r(NULL, " \n", &sv))
        p_tok[p_n++] = s;
    return 1;
}
static char *
W(void)
{
    return p_i < p_n ? p_tok[p_i++] : (char *)"";
}
static long
N(void)
{
    return strtol(W(), NULL, 0);
}
/* bytes written as hexadecimal digits, "-" for none; a terminating zero is added */
static unsigned char *
H(int *len)
{
    char *         s = W();
    int            n = *s == '-' ? 0 : (int)strlen(s) / 2, i;
    unsigned char *b = malloc(n + 1);
    unsigned       v;
    for (i = 0; i < n; i++) {
        sscanf(s + 2 * i, "%2x", &v);
        b[i] = (unsigned char)v;
    }
    b[n] = 0;
    if (len)
        *len = n;
    return b;
}
static void
B(const char *op)
{
    printf("{\"op\":\"%s\"", op);
}
static void
E(void)
{
    printf("}\n");
    fflush(stdout);
}
static void
JI(const char *k, long v)
{
    printf(",\"%s\":%ld", k, v);
}
static void
JU(const char *k, unsigned long v)
{
    printf(",\"%s\":\"%lu\"", k, v);
}
static void
JB(const char *k, const unsigned char *b, int n)
{
    int i;
    printf(",\"%s\":[", k);
    for (i = 0; i < n; i++)
        printf("%s%d", i ? "," : "", b[i]);
    printf("]");
}
static void
bytes(const unsigned char *b, int n)
{
    int i;
    printf("[");
    for (i = 0; i < n; i++)
        printf("%s%d", i ? "," : "", b[i]);
    printf("]");
}
#define IS(x) else if (!strcmp(op, x))
#endif
