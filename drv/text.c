/* Drives the text functions of src/commons/utils. */
#include "proto.h"
#include "query_utils.h"

static void
str(const char *k, const char *s)
{
    if (s)
        JB(k, (const unsigned char *)s, (int)strlen(s));
    else
        printf(",\"%s\":[-1]", k);
}
static void
drop(char *s)
{
    free(s);
}

int
main(void)
{
    char *list = strdup("");
    while (next_line()) {
        char *op = W(), *s, *t, *r, **v;
        int   a, b, i, n;
        B(op);
        if (!*op)
            ;
        IS("reset")
        {
            free(list);
            list = strdup("");
        }
        IS("add")
        {
            s = (char *)H(NULL);
            r = malloc(strlen(list) + strlen(s) + 2);
            sprintf(r, "%s%s%s", list, *list ? "," : "", s);
            free(list);
            list = r;
        }
        IS("cut")
        {
            s = (char *)H(NULL);
            a = (int)N();
            b = (int)N();
            str("part", r = substring(s, a, b));
            drop(r);
            str("tail", r = substr(s, a));
            drop(r);
            str("head", r = subrstr(s, b));
            drop(r);
            str("back", r = reverse_str(s));
            drop(r);
            free(s);
        }
        IS("find")
        {
            s = (char *)H(NULL);
            t = (char *)H(NULL);
            a = (int)N();
            JI("at", indexOfStr(s, t));
            JI("atc", indexOf(s, (char)a));
            JI("starts", startsWith(s, t));
            JI("ends", endsWith(s, t));
            JI("has", contains(s, t));
            JI("is", equals(s, t));
        }
        IS("match")
        {
            s = (char *)H(NULL);
            t = (char *)H(NULL);
            JI("kind", determine_pattern_type(t));
            JI("yes", simple_matches(s, t));
            free(s);
            free(t);
        }
        IS("split")
        {
            s = (char *)H(NULL);
            t = (char *)H(NULL);
            v = NULL;
            n = -7;
            JI("rc", split_string(s, t, &v, &n));
            JI("n", n);
            printf(",\"parts\":[");
            for (i = 0; v && i < n; i++) {
                printf(i ? "," : "");
                bytes((unsigned char *)v[i], (int)strlen(v[i]));
                free(v[i]);
            }
            printf("]");
            free(v);
            free(s);
            free(t);
        }
        IS("pair")
        {
            s = (char *)H(NULL);
            a = (int)N();
            str("key", r = get_key(s, (char)a));
            drop(r);
            str("value", r = get_value(s, (char)a));
            drop(r);
        }
        IS("tags")
        {
            s = (char *)H(NULL);
            t = (char *)H(NULL);
            a = (int)N();
            b = (int)N();
            str("found", k_v_matches_p(list, s, t));
            str("keyfound", k_v_matches_p(list, s, NULL));
            JI("has", has_tag(list, s));
            JI("hasp", has_tag_p(list, s));
            JI("match", is_value_match(list, s, t));
            JI("matchp", is_value_match_p(list, s, t));
            JI("range", is_value_in_range(list, s, a, b));
            str("text", list);
        }
        IS("query")
        {
            pdc_kvtag_t        tag;
            query_gen_input_t  in;
            query_gen_output_t out;
            memset(&in, 0, sizeof in);
            memset(&out, 0, sizeof out);
            tag.name = (char *)H(NULL);
            i        = (int)N();
            s        = (char *)H(NULL);
            n        = (int)N();
            tag.type  = i ? PDC_STRING : PDC_INT;
            tag.value = i ? (void *)s : (void *)&n;
            tag.size  = i ? strlen(s) + 1 : sizeof(int);
            in.base_tag         = &tag;
            in.key_query_type   = (int)N();
            in.value_query_type = (int)N();
            in.affix_len        = (int)N();
            in.range_lo         = (int)N();
            in.range_hi         = (int)N();
            gen_query_key_value(&in, &out);
            str("key", out.key_query);
            str("value", out.value_query);
            str("all", r = gen_query_str(&out));
            printf(",\"lens\":[%d,%d]", (int)out.key_query_len, (int)out.value_query_len);
            drop(r);
            free_query_output(&out);
        }
        IS("some")
        {
            i = (int)N();
            str("tags", gen_tags(i));
            n = (int)N();
            a = (int)N();
            b = (int)N();
            v = gen_random_strings(n, a, b, (int)N());
            printf(",\"random\":[");
            for (i = 0; i < n; i++) {
                printf(i ? "," : "");
                bytes((unsigned char *)v[i], (int)strlen(v[i]));
                free(v[i]);
            }
            printf("]");
            free(v);
        }
        else
        {
            JI("unknown", 1);
        }
        E();
    }
    return 0;
}
