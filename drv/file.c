/* Drives src/commons/file on files in the current directory. */
#include "proto.h"
#include "common_io.h"
#include <unistd.h>

static FILE *fp[64];
static int   nl_;

static void
hexs(const char *k, const void *b, long n)
{
    long i;
    printf(",\"%s\":\"", k);
    for (i = 0; i < n; i++)
        printf("%02x", ((const unsigned char *)b)[i]);
    printf("\"");
}
static void
one(char *line)
{
    size_t i;
    printf("%s\"", nl_++ ? "," : "");
    for (i = 0; line[i]; i++)
        printf("%02x", (unsigned char)line[i]);
    printf("\"");
}
static char *
name(void)
{
    static char b[64];
    snprintf(b, sizeof b, "file%ld", N());
    return b;
}

int
main(void)
{
    while (next_line()) {
        char *         op = W(), *f, *lines[64], mode[8];
        unsigned char *b, *c;
        int            h, n, i, r = 0;
        B(op);
        if (!*op)
            ;
        IS("wtext")
        {
            f = name();
            n = (int)N();
            for (i = 0; i < n; i++)
                lines[i] = (char *)H(NULL);
            r = write_text_file(f, lines, n);
            for (i = 0; i < n; i++)
                free(lines[i]);
        }
        IS("rtext")
        {
            f   = name();
            nl_ = 0;
            printf(",\"lines\":[");
            r = read_text_file(f, one);
            printf("]");
        }
        IS("wbin")
        {
            f = name();
            b = H(&n);
            c = malloc(n);
            memcpy(c, b, n);
            r = write_binary_file(f, c, n);
            free(b);
            free(c);
        }
        IS("rbin")
        {
            f = name();
            n = (int)N();
            h = (int)N();
            b = malloc(n);
            r = read_binary_file(f, b, n);
            hexs("b", b, n < h ? n : h);
            free(b);
        }
        IS("update")
        {
            f = name();
            b = H(&n);
            r = update_binary_file(f, b, n, N(), n);
            free(b);
        }
        IS("full")
        {
            h = (int)N();
            b = H(&n);
            if (h) {
                lines[0] = (char *)b;
                r        = write_text_file("/dev/full", lines, n ? 1 : 0);
            }
            else
                r = write_binary_file("/dev/full", b, n);
            free(b);
        }
        IS("open")
        {
            h = (int)N();
            f = name();
            strncpy(mode, W(), 7);
            fp[h] = open_file(f, mode);
            r     = fp[h] == NULL;
        }
        IS("close")
        {
            h = (int)N();
            r = close_file(fp[h]);
        }
        IS("write")
        {
            io_buffer_t x;
            h        = (int)N();
            x.buffer = (char *)H(&n);
            x.size   = n;
            r        = write_file(fp[h], &x);
            free(x.buffer);
        }
        IS("read")
        {
            io_buffer_t x = {0};
            h = (int)N();
            r = read_file(fp[h], &x);
            hexs("b", x.buffer, (long)x.size);
            free(x.buffer);
        }
        IS("line")
        {
            h = (int)N();
            n = (int)N();
            f = malloc(n);
            r = read_line(fp[h], f, n);
            if (r == 0)
                hexs("line", f, (long)strlen(f));
            free(f);
        }
        printf(",\"ok\":%s", r == 0 ? "true" : "false");
        E();
    }
    return 0;
}
