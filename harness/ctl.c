/* K01: queries of the control tree, against a reading of the query of its own.
 * The tree: m.{r read, w write, x run, i.{r read} indexed, s subtree} global,
 * n.{r, j.{k.r}} of the ctl.  VF_MODE 0: any string of VF_LEN bytes; 1: any
 * sequence of VF_LEN tokens; 2: one setting; 3: several; 4: in a file. */
#include "ctl/ctl.h"
#include "vf.h"
#include "vf_models.h"
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef VF_MODE
#define VF_MODE 0
#endif
#ifndef VF_LEN
#define VF_LEN 4
#endif
#ifndef VF_OOM
#define VF_OOM 0
#endif
static int the_ctx, calls, called, c_type, c_n, c_ret;
static long c_idx[4];
static const char *c_iname[4];
static void *c_arg;
static char c_extra[24];
static long w_int;
struct multi {
    unsigned char b;
    long long ll;
    char str[4];
    int flag;
};
static struct multi c_multi;
static int note(int id, void *ctx, void *arg, umf_ctl_index_utlist_t *ix) {
    VF_ASSERT(ctx == &the_ctx, "a handler gets the context of the query");
    calls++;
    called = id;
    c_arg = arg;
    c_n = 0;
    for (; ix; ix = ix->next)
        if (ix->name) {
            if (c_n == 4)
                VF_LIMIT("indexes");
            c_iname[c_n] = ix->name;
            c_idx[c_n++] = ix->value;
        }
    return c_ret;
}
#define H(fn, id)                                                                                                                                            \
    static int fn(void *c, umf_ctl_query_source_t s, void *a, umf_ctl_index_utlist_t *ix, const char *x, umf_ctl_query_type_t t) {                            \
        (void)s, (void)x, (void)t;                                                                                                                           \
        return note(id, c, a, ix);                                                                                                                            \
    }
H(mr, 1) H(mx, 3) H(ir, 4) H(nr, 6) H(jkr, 7)
static int mw(void *c, umf_ctl_query_source_t s, void *a, umf_ctl_index_utlist_t *ix, const char *x, umf_ctl_query_type_t t) {
    (void)x, (void)t, (void)s;
    w_int = *(int *)a;
    return note(2, c, a, ix);
}
static int mv(void *c, umf_ctl_query_source_t s, void *a, umf_ctl_index_utlist_t *ix, const char *x, umf_ctl_query_type_t t) {
    (void)x, (void)t, (void)s;
    memcpy(&c_multi, a, sizeof(c_multi));
    return note(8, c, a, ix);
}
static int ms(void *c, umf_ctl_query_source_t s, void *a, umf_ctl_index_utlist_t *ix, const char *x, umf_ctl_query_type_t t) {
    (void)s;
    VF_ASSERT(x != NULL && strlen(x) < sizeof(c_extra), "a subtree gets the rest of the name");
    strcpy(c_extra, x);
    c_type = (int)t;
    return note(5, c, a, ix);
}
static const struct ctl_argument int_arg = CTL_ARG_INT;
static const struct ctl_argument multi_arg = {sizeof(struct multi),
                                              {CTL_ARG_PARSER_STRUCT(struct multi, b, ctl_arg_integer), CTL_ARG_PARSER_STRUCT(struct multi, ll, ctl_arg_integer),
                                               CTL_ARG_PARSER_STRUCT(struct multi, str, ctl_arg_string), CTL_ARG_PARSER_STRUCT(struct multi, flag, ctl_arg_boolean), CTL_ARG_PARSER_END}};
static umf_ctl_node_t Ti[] = {{"r", CTL_NODE_LEAF, {ir}, NULL, NULL}, CTL_NODE_END};
static umf_ctl_node_t Tm[] = {{"r", CTL_NODE_LEAF, {mr}, NULL, NULL},
                              {"w", CTL_NODE_LEAF, {NULL, mw}, &int_arg, NULL},
                              {"v", CTL_NODE_LEAF, {NULL, mv}, &multi_arg, NULL},
                              {"x", CTL_NODE_LEAF, {NULL, NULL, mx}, NULL, NULL},
                              {"i", CTL_NODE_INDEXED, {NULL}, NULL, Ti},
                              {"s", CTL_NODE_SUBTREE, {NULL, NULL, NULL, ms}, NULL, NULL},
                              CTL_NODE_END};
static umf_ctl_node_t Tk[] = {{"r", CTL_NODE_LEAF, {jkr}, NULL, NULL}, CTL_NODE_END};
static umf_ctl_node_t Tj2[] = {{"k", CTL_NODE_INDEXED, {NULL}, NULL, Tk}, CTL_NODE_END};
static umf_ctl_node_t Tn[] = {{"r", CTL_NODE_LEAF, {nr}, NULL, NULL}, {"j", CTL_NODE_INDEXED, {NULL}, NULL, Tj2}, CTL_NODE_END};
static umf_ctl_node_t roots[] = {{"m", CTL_NODE_NAMED, {NULL}, NULL, Tm}, {"n", CTL_NODE_NAMED, {NULL}, NULL, Tn}, CTL_NODE_END};

/* --- what a query means --- */
static const umf_ctl_node_t *e_node;
static int e_n, e_extra;
static long e_idx[4];
static const char *e_iname[4];
static void meaning(const char *q) {
    const umf_ctl_node_t *at = roots, *n = NULL;
    e_n = 0;
    e_extra = 0;
    int p = 0;
    while (1) {
        while (q[p] == '.')
            p++;
        if (!q[p])
            break;
        int s = p;
        while (q[p] && q[p] != '.')
            p++;
        e_extra = s;
        if (n && n->type == CTL_NODE_SUBTREE)
            break; /* the rest is the subtree's */
        if (!at) {
            e_node = NULL;
            return;
        }
        char tok[24];
        memcpy(tok, q + s, (size_t)(p - s));
        tok[p - s] = 0;
        char *end;
        long v = strtol(tok, &end, 0);
        const umf_ctl_node_t *f = at;
        for (; f->name; f++)
            if (!strcmp(f->name, tok) || (end != tok && f->type == CTL_NODE_INDEXED))
                break;
        if (!f->name) {
            e_node = NULL;
            return;
        }
        if (end != tok) {
            e_idx[e_n] = v;
            e_iname[e_n++] = f->name;
        }
        n = f;
        at = f->children;
    }
    e_node = n;
}
static int id_of(const umf_ctl_node_t *n) {
    return n == &Tm[0] ? 1 : n == &Tm[1] ? 2 : n == &Tm[2] ? 8 : n == &Tm[3] ? 3 : n == &Ti[0] ? 4 : n == &Tm[5] ? 5 : n == &Tn[0] ? 6 : n == &Tk[0] ? 7 : 0;
}
static struct ctl *C;
static void query(const char *q) {
    static const umf_ctl_query_type_t types[] = {CTL_QUERY_READ, CTL_QUERY_WRITE, CTL_QUERY_RUNNABLE};
    umf_ctl_query_type_t t = types[nd_pick(3)];
    struct multi arg = {0};
    long base = vf_ba_live;
    calls = 0;
    c_ret = nd_choice() ? -1 : 0;
    int f = vf_ba_failed;
    int r = ctl_query(C, &the_ctx, CTL_QUERY_PROGRAMMATIC, q, t, &arg);
    VF_ASSERT(vf_ba_live == base, "a query leaves no memory behind");
    if (f != vf_ba_failed) {
        VF_ASSERT((r != 0) == (calls == 0 || c_ret != 0), "a query that ran out of memory fails");
        VF_REACH("oom");
        if (!calls)
            return;
    }
    meaning(q);
    const umf_ctl_node_t *n = e_node;
    bool ok = n && ((n->type == CTL_NODE_LEAF && n->cb[t]) || n->type == CTL_NODE_SUBTREE);
    if (!ok) {
        VF_ASSERT(r == -1 && calls == 0, "a query that names nothing fails and does nothing");
        VF_REACH("nothing");
        return;
    }
    VF_REACH("found");
    VF_ASSERT(calls == 1 && called == id_of(n), "a query reaches exactly the node it names");
    VF_ASSERT(r == c_ret, "the result of a query is that of its handler");
    VF_ASSERT(c_arg == &arg, "a handler gets the argument of the query");
    VF_ASSERT(c_n == e_n, "a handler gets the indexes of the query");
    for (int i = 0; i < c_n; i++) { /* the last one first */
        VF_ASSERT(c_idx[i] == e_idx[e_n - 1 - i], "a handler gets the values of the indexes");
        VF_ASSERT(!strcmp(c_iname[i], e_iname[e_n - 1 - i]), "a handler gets the names of the indexes");
        VF_REACH("indexed");
    }
    if (n->type == CTL_NODE_SUBTREE) {
        VF_ASSERT(!strcmp(c_extra, q + e_extra), "a subtree gets the rest of the name");
        VF_ASSERT(c_type == (int)t, "a subtree gets the type of the query");
        VF_REACH("subtree");
    }
}
static void config(void) {
    /* one setting of an integer, and one of a structure */
    static const char *const names[] = {"m.w", "m.v", "m.r", "q"};
    char s[40] = "";
    int w = nd_pick(4);
    strcpy(s, names[w]);
    strcat(s, "=");
    char v[16];
    int l = 0;
    static const char *const f0[] = {"1", "255", "256", "-1", "", "x"}, *const f1[] = {"0", "-9223372036854775808", "77"}, *const f2[] = {"abc", "abcd", "", "a"}, *const f3[] = {"y", "N", "2", "0z"};
    int a = 0, b = 0, c = 0, d = 0;
    if (w == 1) {
        a = nd_pick(6), b = nd_pick(3), c = nd_pick(4), d = nd_pick(4);
        strcat(s, f0[a]), strcat(s, ","), strcat(s, f1[b]), strcat(s, ","), strcat(s, f2[c]), strcat(s, ","), strcat(s, f3[d]);
    } else {
        for (int i = 0; i < VF_LEN; i++) {
            char x = (char)nd_range(0, 127);
            VF_ASSUME(x != ';' && x != '=');
            v[l++] = x;
        }
        v[l] = 0;
        strcat(s, v);
    }
    calls = 0;
    c_ret = nd_choice() ? -1 : 0;
    long base = vf_ba_live;
    int r = ctl_load_config_from_string(C, &the_ctx, s);
    VF_ASSERT(vf_ba_live == base, "a configuration leaves no memory behind");
    if (w >= 2 || (w == 0 && !v[0])) {
        VF_ASSERT(r == -1 && calls == 0, "a setting of nothing fails");
        VF_REACH("nothing");
        return;
    }
    if (w == 0) {
        char *end;
        int p = 0;
        while (v[p] == ',')
            p++;
        errno = 0;
        char tok[16];
        int k = 0;
        while (v[p] && v[p] != ',')
            tok[k++] = v[p++];
        tok[k] = 0;
        long long n = strtoll(tok, &end, 0);
        bool good = end != tok && errno == 0 && n >= INT_MIN && n <= INT_MAX;
        VF_ASSERT((calls == 1) == good, "an integer is set if it is one");
        VF_ASSERT(!good || w_int == n, "an integer is set to its value");
        VF_ASSERT((r == 0) == (good && c_ret == 0), "a failed setting is reported");
        if (good)
            VF_REACH("set");
    } else {
        bool good = a < 2 && b != 1 && (c == 0 || c == 3) && (d != 2);
        VF_ASSERT((calls == 1) == good, "a structure is set if every field is right");
        if (good) {
            VF_ASSERT(c_multi.b == (a == 0 ? 1 : 255) && c_multi.ll == (b == 0 ? 0 : 77) && !strcmp(c_multi.str, f2[c]) && c_multi.flag == (d == 0), "every field is set to its value");
            VF_REACH("set struct");
        }
        VF_ASSERT((r == 0) == (good && c_ret == 0), "a failed setting is reported");
    }
}
#if VF_MODE >= 3
/* several settings, as a string or as the content of a file */
static char text[40];
static int t_len, t_pos, t_size, t_open, t_opened;
static int f_open, f_seek, f_tell, f_more;
FILE *vf_fopen(const char *n, const char *m);
int vf_fseek(FILE *f, long o, int w);
long vf_ftell(FILE *f);
int vf_fgetc(FILE *f);
int vf_fclose(FILE *f);
FILE *vf_fopen(const char *n, const char *m) {
    VF_ASSERT(!strcmp(n, "the.conf") && m[0] == 'r', "the file is opened to be read");
    if (f_open)
        return NULL;
    t_open++, t_opened++;
    return (FILE *)text;
}
int vf_fseek(FILE *f, long o, int w) {
    VF_ASSERT(f == (FILE *)text && t_open, "an open file");
    if (f_seek && --f_seek == 0)
        return -1;
    t_pos = w == SEEK_END ? t_size + (int)o : w == SEEK_SET ? (int)o : t_pos + (int)o;
    return 0;
}
long vf_ftell(FILE *f) {
    VF_ASSERT(f == (FILE *)text && t_open, "an open file");
    return f_tell ? f_tell == 1 ? -1 : 1l << 40 : t_pos;
}
int vf_fgetc(FILE *f) {
    VF_ASSERT(f == (FILE *)text && t_open, "an open file");
    return t_pos < t_len ? (unsigned char)text[t_pos++] : EOF;
}
int vf_fclose(FILE *f) {
    VF_ASSERT(f == (FILE *)text && t_open, "an open file");
    t_open--;
    return 0;
}
#define MAXS 6
static int s_n, s_got, s_fail;
static long s_val[MAXS];
static int sw(void *c, umf_ctl_query_source_t s, void *a, umf_ctl_index_utlist_t *ix, const char *x, umf_ctl_query_type_t t) {
    (void)x, (void)ix, (void)t;
    VF_ASSERT(c == &the_ctx && s == CTL_QUERY_CONFIG_INPUT, "a setting comes from the configuration");
    VF_ASSERT(f_more || (s_got < s_n && s_val[s_got] == *(int *)a), "the settings are made in their order with their values");
    return s_fail == ++s_got ? -1 : 0;
}
static umf_ctl_node_t Tz[] = {{"w", CTL_NODE_LEAF, {NULL, sw}, &int_arg, NULL}, {"r", CTL_NODE_LEAF, {mr}, NULL, NULL}, CTL_NODE_END};
static void settings(void) {
    static const char *const t[] = {"z.w=1", "z.w=22", ";", "=", "z", ".w", "z.w", "z.r", "7", "#", "\n", " ", "\t"};
    bool file = VF_MODE == 4;
    text[0] = 0;
    int l = 1 + nd_pick(VF_LEN);
    for (int i = 0; i < l; i++)
        strcat(text, t[nd_pick(file ? 13 : 9)]);
    t_len = t_size = (int)strlen(text);
    /* what it means */
    char c[40];
    int n = 0;
    bool note_ = false;
    if (file)
        f_more = nd_pick(3); /* the file grew, or tells no size */
    if (f_more)
        t_size = f_more == 1 ? 0 : t_len - 1;
    for (int i = 0; i < t_len; i++) {
        char x = text[i];
        if (file && x == '#')
            note_ = true;
        if (file && x == '\n')
            note_ = false;
        else if (!note_ && !(file && (x == ' ' || x == '\t')))
            c[n++] = x;
    }
    c[n] = 0;
    bool ok = true;
    s_fail = nd_pick(3);
    for (int i = 0; ok && c[i];) {
        if (c[i] == ';') {
            i++;
            continue;
        }
        int k = 0, from[3] = {0}, len[3] = {0};
        while (c[i] && c[i] != ';') {
            if (c[i] == '=') {
                i++;
                continue;
            }
            int f = i;
            while (c[i] && c[i] != ';' && c[i] != '=')
                i++;
            if (k < 3)
                from[k] = f, len[k] = i - f;
            k++;
        }
        if (k != 2) {
            ok = false;
            break;
        }
        /* the name, without empty parts, is z.w? */
        char nm[40];
        int q = 0;
        for (int j = 0; j < len[0]; j++)
            if (c[from[0] + j] != '.' || (q && nm[q - 1] != '.'))
                nm[q++] = c[from[0] + j];
        if (q && nm[q - 1] == '.')
            q--;
        nm[q] = 0;
        char v[40], *end;
        memcpy(v, c + from[1], (size_t)len[1]);
        v[len[1]] = 0;
        errno = 0;
        long x = strtol(v, &end, 0);
        ok = !strcmp(nm, "z.w") && end != v;
        if (ok) {
            if (s_n == MAXS)
                VF_LIMIT("settings");
            s_val[s_n++] = x;
            ok = s_n != s_fail;
        }
    }
    long base = vf_ba_live;
    bool bad = false;
    if (file && !f_more) {
        int w = nd_pick(6);
        f_open = w == 1, f_seek = w == 2 ? 1 : w == 3 ? 2 : 0, f_tell = w == 4 ? 1 : w == 5 ? 2 : 0;
        bad = w != 0;
    }
    int f = vf_ba_failed;
    int r = file ? ctl_load_config_from_file(C, &the_ctx, "the.conf") : ctl_load_config_from_string(C, &the_ctx, text);
    VF_ASSERT(vf_ba_live == base && t_open == 0 && (!file || f_open || t_opened == 1), "a configuration leaves nothing behind");
    if (f_more) { /* read up to the size it had, or all of it */
        VF_REACH("grown");
        return;
    }
    if (bad || vf_ba_failed != f) {
        VF_ASSERT(bad ? r == -1 && !s_got : r == -1 || (ok && s_got == s_n), "a configuration that cannot be read fails");
        VF_REACH("unread");
        return;
    }
    VF_ASSERT(s_got == s_n, "every setting is made, up to the first bad one");
    VF_ASSERT((r == 0) == ok, "a bad setting is reported");
    VF_REACH("read");
    if (s_n > 1)
        VF_REACH("two");
}
#endif
int VF_ENTRY(void) {
    ctl_register_module_node(NULL, "m", Tm);
    long base = vf_ba_live;
    C = ctl_new();
    VF_ASSERT(C != NULL, "a tree");
    ctl_register_module_node(C, "n", Tn);
    vf_ba_fail_budget = VF_OOM;
    char q[40];
    if (VF_MODE == 0) {
        for (int i = 0; i < VF_LEN; i++)
            q[i] = (char)nd_range(0, 127);
        q[VF_LEN] = 0;
        query(q);
    } else if (VF_MODE == 1) {
        static const char *const t[] = {"m", "n", "r", "w", "x", "s", "k", "5", "-0x1f", ""};
        q[0] = 0;
        int l = 1 + nd_pick(VF_LEN);
        for (int i = 0; i < l; i++) {
            if (i)
                strcat(q, ".");
            strcat(q, t[nd_pick(10)]);
        }
        query(q);
    } else
#if VF_MODE >= 3
    {
        ctl_register_module_node(C, "z", Tz);
        settings();
    }
#else
        config();
#endif
    ctl_delete(C);
    VF_ASSERT(vf_ba_live == base, "no memory is left behind");
    VF_REACH("end");
    return 0;
}
