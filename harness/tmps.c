/* Contracts of the temporary strings (src/common/tmps.c). */
#define FG_NO_FATAL
#include "fg.h"
void stub_fatal(char *msg, int ex) { CALLER_OBL("no internal error", 0); VF_HALT(); }
#include "src/common/tmps.c"

/* ---- printing: the text is any text of gh_len characters; gh_w is any position of it ---- */
static size_t gh_len, gh_w, gh_cur, gh_at; static char gh_c; static char *gh_b;
#ifdef VF_CPROVER
static int gh_va, gh_list;
int stub_vsn(char *b, size_t n, const char *f, va_list ap)
{
    CALLER_OBL("buffer is as large as said", n > 0 && __CPROVER_w_ok(b, n));
    CALLER_OBL("its own buffer", b == gh_b && n <= gh_cur);
    gh_va++;
    gh_at = gh_len < n ? gh_len : n - 1;
    if (gh_w < gh_at) b[gh_w] = gh_c;
    b[gh_at] = 0;
    return (int)gh_len;
}
size_t stub_strlen(const char *s) { CALLER_OBL("of the text just printed", s == gh_b && gh_va && s[gh_at] == 0); return gh_at; }
void *stub_memset(void *p, int c, size_t n) { CALLER_OBL("inside the buffer", __CPROVER_w_ok(p, n)); return p; }
void *xmalloc(int n)
{
    CALLER_OBL("a positive size", n > 0);
    void *p = malloc(n); __CPROVER_assume(p != NULL);
    if (n != sizeof(TmpS)) { gh_b = p; gh_cur = n; }
    return p;
}
void *xrealloc(void *o, int n)
{
    if (gh_list) { void *q = realloc(o, n); __CPROVER_assume(q != NULL); return q; }
    CALLER_OBL("the buffer", o == gh_b && n > 0);
    char *p = malloc(n); __CPROVER_assume(p != NULL);
    if (gh_w < gh_cur && gh_w < (size_t)n) p[gh_w] = gh_b[gh_w];
    if (gh_va && gh_at < gh_cur && gh_at < (size_t)n) p[gh_at] = gh_b[gh_at];
    free(o);
    gh_b = p; gh_cur = n;
    return p;
}
void xfree(void *p) { free(p); }
# define MAXLEN 2000000000L
#else
# define MAXLEN 400
#endif
void h_printf(void)
{
    int viat = nd_bool("tmps"); char *t; TmpS *p = NULL;
    gh_len = (size_t)nd_range("len", 0, MAXLEN); gh_w = (size_t)nd_range("w", 0, MAXLEN);
    gh_c = nd_char("c");
    REQUIRES(gh_c != 0 && gh_w < gh_len);
    tmps_list = tmps_last = NULL;
#ifdef VF_CPROVER
    gh_va = 0;
    if (viat) { p = tmps_printf("f"); t = p->s; }
    else { t = s_printf("f"); p = tmps_list; }
    ENSURES("room for the whole text and its end", gh_b == t && gh_cur >= gh_len + 1 && __CPROVER_r_ok(t, gh_len + 1));
#else
    char *src = malloc(gh_len + 1);
    memset(src, 'x', gh_len); src[gh_len] = 0; src[gh_w] = gh_c;
    if (viat) { p = tmps_printf("%s", src); t = p->s; }
    else { t = s_printf("%s", src); p = tmps_list; }
#endif
    ENSURES("every character of the text, and its end, whatever the length", t[gh_w] == gh_c && t[gh_len] == 0);
    ENSURES("listed once, with its size", tmps_list == p && tmps_last == p && p->s == t && p->len == gh_len + 1 && p->next == NULL);
    VF_REACH("printf");
}

/* ---- the list of temporary strings ---- */
static TmpS *gh_e[6]; static int gh_k;
static void list_ok(const char *x)
{
    TmpS *p = tmps_list;
    for (int i = 0; i < 6; i++) if (i < gh_k) {
        ENSURES("the strings not freed, in order", p == gh_e[i] && p != NULL);
        ENSURES("unchanged", p->s[0] == (char)('0' + p->len) && tmps_find(p->s) == p);
        p = p->next;
    }
    ENSURES("nothing else", p == NULL && tmps_last == (gh_k ? gh_e[gh_k - 1] : NULL));
}
static void add(int len) { TmpS *p = tmps_alloc(len); ENSURES("as large as wanted", p->len == (size_t)len); p->s[len - 1] = 0; p->s[0] = '0' + len; gh_e[gh_k++] = p; }
static void drop(int j) { for (int i = j; i + 1 < gh_k; i++) gh_e[i] = gh_e[i + 1]; gh_k--; }
static int gh_op;
static void list_j(int j)
{
    TmpS *p = gh_e[j];
    if (gh_op == 0) { tmps_free(p); drop(j); }
    else if (gh_op == 1) { s_free(p->s); drop(j); }
    else if (gh_op == 2) { char *s = s_realloc(p->s, 9); ENSURES("same text, new size", s == p->s && p->len == 9 && s[0] != 0); s[0] = '9'; }
    else { tmps_freeall(); gh_k = 0; }
    list_ok("");
    add(2);
    list_ok("");
    if (gh_k > 1) { s_free(gh_e[gh_k - 2]->s); drop(gh_k - 2); }
    s_free(gh_e[gh_k - 1]->s); drop(gh_k - 1);
    list_ok("");
    add(3);
    list_ok("");
    s_freeall(); gh_k = 0;
    list_ok("");
    VF_REACH("list");
}
static void list_k(int k)
{
    tmps_list = tmps_last = NULL; gh_k = 0;
    VF_PATCH(fatal, stub_fatal);
    for (int i = 0; i < k; i++) add(i + 3);
    list_ok("");
    VF_PER("j", 0, k - 1, list_j);
}
static void list_op(int op) { gh_op = op; VF_PER("k", 1, 4, list_k); }
void h_list(void)
{
#ifdef VF_CPROVER
    gh_list = 1;
#endif
    VF_PER("op", 0, 3, list_op);
}
