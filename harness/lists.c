/* Contracts of the node lists (node.c) and text lists (textlist.c). */
#include "fg.h"
#include "src/common/node.c"
#include "src/common/textlist.c"

static int gh_zone = 2;
int cf_defzone(void) { return gh_zone; }
int cf_zone(void) { return gh_zone; }
#ifdef VF_CPROVER
int verbose = 0;
void *xmalloc(int n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void xfree(void *p) { free(p); }
char *strsave(char *s)
{
    char *p = xmalloc(16);
    for (int i = 0; i < 16; i++) { p[i] = s[i]; if (!s[i]) return p; }
    __CPROVER_assert(0, "libc-model: string too long for this unit");
    return p;
}
/* ascending sort (contract of qsort; insertion sort calling the comparison under test) */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    void **a = base;
    CALLER_OBL("array of pointers", sz == sizeof(void *));
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--) {
            if (cmp(&a[j - 1], &a[j]) <= 0) break;
            void *t = a[j]; a[j] = a[j - 1]; a[j - 1] = t;
        }
}
#endif
#include "lon.h"
void h_lon_ops(void)
{
    LON l, m;
    Node a[2 * NMAX], b[2 * NMAX], x = an();
    int n = build(&l, a);
    ENSURES("appended in order", is_list(&l, a, n));
    int pos = -1, cnt = (int)nd_range("uplinks", 0, NMAX);
    for (int i = 0; i < NMAX; i++) if (i < n && pos < 0 && node_eq(&a[i], &x)) pos = i;
    ENSURES("search finds exactly the members", lon_search(&l, &x) == (pos >= 0 ? TRUE : FALSE));
    ENSURES("one of the first nodes", lon_is_uplink(&l, cnt, &x) == (pos >= 0 && pos < cnt ? TRUE : FALSE));
    lon_remove(&l, &x);
    int k = 0;
    for (int i = 0; i < NMAX; i++) if (i < n && i != pos) b[k++] = a[i];
    ENSURES("removes the node, keeps the others", is_list(&l, b, k));
    lon_add(&l, &x);
    b[k++] = x;
    ENSURES("usable after removal", is_list(&l, b, k));
    VF_REACH("ops");
}
void h_lon_join(void)
{
    LON l, m;
    Node a[2 * NMAX], b[2 * NMAX];
    int n = build(&l, a), k = build(&m, b);
    lon_join(&l, &m);
    for (int i = 0; i < NMAX; i++) if (i < k) a[n + i] = b[i];
    ENSURES("all nodes of both", is_list(&l, a, n + k));
    ENSURES("source unchanged", is_list(&m, b, k));
    lon_delete(&l);
    ENSURES("deleted", is_list(&l, a, 0));
    VF_REACH("join");
}
void h_lon_wild(void)
{
    LON l;
    Node a[2 * NMAX], x = an();
    int n = (int)nd_range("n", 0, NMAX), e = 0;
    lon_init(&l);
    for (int i = 0; i < NMAX; i++)
        if (i < n) {
            a[i] = an();
            if (nd_bool("w")) a[i].zone = WILDCARD;
            if (nd_bool("w")) a[i].net = WILDCARD;
            if (nd_bool("w")) a[i].node = WILDCARD;
            if (nd_bool("w")) a[i].point = WILDCARD;
            lon_add(&l, &a[i]);
            if (node_match(&x, &a[i])) e = 1;
        }
    ENSURES("some pattern of the list matches", lon_search_wild(&l, &x) == (e ? TRUE : FALSE));
    VF_REACH("wild");
}
/* ---- printing and reading back ---- */
static char *outstr(FILE *fp)
{
    size_t len;
    unsigned char *d = vf_out_data(fp, &len);
#ifdef VF_CPROVER
    d[len] = 0;
    return (char *)d;
#else
    char *s = malloc(len + 1);
    memcpy(s, d, len);
    s[len] = 0;
    return s;
#endif
}
static void do_lon_text(int n)
{
    LON l, m;
    Node a[2 * NMAX];
    buildn(&l, a, n);
    int sh = nd_bool("short");
    for (int i = 0; i + 1 < NMAX; i++) if (i + 1 < n) REQUIRES(!node_eq(&a[i], &a[i + 1]) || !sh);
    if (!sh) for (int i = 0; i < NMAX; i++) if (i < n) REQUIRES(a[i].point == 0);
    FILE *fp = vf_open_out();
    lon_print(&l, fp, sh);
    char *t = outstr(fp);
    ENSURES("list unchanged", is_list(&l, a, n));
    lon_init(&m);
    lon_add_string(&m, t);
    ENSURES("what is printed reads back", is_list(&m, a, n));
    VF_REACH("text");
}
void h_lon_text(void) { PER_LENGTH(do_lon_text) }
/* t is the list a[0..k): each address written against the one before, separated by blanks */
static int is_text(char *t, Node *a, int k)
{
#if defined(VF_STUB_DIFF) && defined(VF_CPROVER)
    if (tab_k != k) return 0;
    for (int i = 0; i < NMAX; i++)
        if (i < k) {
            if (!node_eq(&tab_n[i], &a[i])) return 0;
            if (i ? !node_eq(&tab_o[i], &a[i - 1]) : tab_o[i].zone != INVALID) return 0;
            if (t[2 * i] != '0' + i) return 0;
            if (i + 1 < k && t[2 * i + 1] != ' ') return 0;
            if (i + 1 == k && !(t[2 * i + 1] == 0 || (t[2 * i + 1] == ' ' && t[2 * i + 2] == 0))) return 0;
        }
    return k || !t[0];
#else
    LON m;
    lon_init(&m);
    lon_add_string(&m, t);
    return is_list(&m, a, k);
#endif
}
static void do_lon_sorted2(int up)
{
    LON l;
    Node a[2 * NMAX], b[2 * NMAX];
    int n = g_n, k = 0;
    buildn(&l, a, n);
    FILE *fp = vf_open_out();
    lon_print_sorted(&l, fp, up);
    ENSURES("list unchanged", is_list(&l, a, n));
    char *t = outstr(fp);
    /* specification: the first up nodes as they are, the rest ascending, adjacent duplicates once */
    for (int i = 0; i < n; i++) b[i] = a[i];
    for (int i = 1; i < n; i++)
        for (int j = n - 1; j >= 1; j--)
            if (j > up && node_cmp(&b[j - 1], &b[j]) > 0) { Node x = b[j]; b[j] = b[j - 1]; b[j - 1] = x; }
    for (int i = 0; i < n; i++)
        if (i == 0 || !node_eq(&b[i], &b[i - 1])) a[k++] = b[i];
    ENSURES("sorted behind the uplinks, duplicates once", is_text(t, a, k));
    VF_REACH("sorted");
}
static void do_lon_sorted(int n) { g_n = n; VF_PER("up", 0, NMAX, do_lon_sorted2) }
void h_lon_sorted(void) { PER_LENGTH(do_lon_sorted) }
static void do_lon_passive(int n)
{
    LON l, m;
    Node a[2 * NMAX];
    buildn(&l, a, n);
    for (int i = 0; i + 1 < NMAX; i++) if (i + 1 < n) REQUIRES(!node_eq(&a[i], &a[i + 1]));
    FILE *fp = vf_open_out();
    ENSURES("no error", lon_print_passive(&l, fp) == 0);
    char *t = outstr(fp);
    for (int i = 0; t[i]; i++) if (t[i] == ',') t[i] = ' ';
    lon_init(&m);
    lon_add_string(&m, t);
    ENSURES("comma separated", is_list(&m, a, n));
    VF_REACH("passive");
}
void h_lon_passive(void) { PER_LENGTH(do_lon_passive) }
/* ---- text lists ---- */
static int tl_is(Textlist *l, Textline **a, int n)
{
    Textline *p = l->first, *q = NULL;
    if (l->n != n) return 0;
    for (int i = 0; i < 2 * NMAX + 1; i++)
        if (i < n) {
            if (p != a[i] || p->prev != q) return 0;
            q = p; p = p->next;
        }
    return p == NULL && l->last == q;
}
static Textline *mkline(void)
{
    Textline *t = malloc(sizeof *t);
#ifdef VF_CPROVER
    __CPROVER_assume(t != NULL);
#endif
    char b[3];
    vf_str_in(b, 2);
    t->line = strsave(b);
    t->next = t->prev = (Textline *)nd_bool("junk") ? t : NULL;
    return t;
}
static int tbuild(Textlist *l, Textline **a)
{
    int n = (int)nd_range("n", 0, NMAX);
    tl_init(l);
    for (int i = 0; i < NMAX; i++)
        if (i < n) { a[i] = mkline(); tl_add(l, a[i]); }
    return n;
}
void h_tl_ops(void)
{
    Textlist l, m;
    Textline *a[2 * NMAX + 1], *b[2 * NMAX + 1];
    int n = tbuild(&l, a);
    ENSURES("appended in order", tl_is(&l, a, n));
    if (n) {
        int r = (int)nd_range("r", 0, NMAX - 1), k = 0;
        REQUIRES(r < n);
        Textline *x = a[r];
        for (int i = 0; i < NMAX; i++) if (i < n && i != r) a[k++] = a[i];
        if (nd_bool("del")) tl_delete(&l, x);
        else {
            tl_remove(&l, x);
            ENSURES("removed line is free standing", x->next == NULL && x->prev == NULL);
        }
        n--;
        ENSURES("the others stay in order", tl_is(&l, a, n));
    }
    int k = tbuild(&m, b);
    tl_addtl_move(&l, &m);
    for (int i = 0; i < NMAX; i++) if (i < k) a[n + i] = b[i];
    ENSURES("moved behind", tl_is(&l, a, n + k));
    ENSURES("source empty", tl_is(&m, b, 0));
    tl_append(&l, "x");
    a[n + k] = l.last;
    ENSURES("appended", tl_is(&l, a, n + k + 1) && !strcmp(l.last->line, "x"));
    TextlistIterator it;
    tl_iterator_start(&it, &l);
    for (int i = 0; i < 2 * NMAX + 1; i++) if (i < n + k + 1) ENSURES("iterator visits all in order", tl_iterator_next(&it) == a[i]);
    ENSURES("then ends", tl_iterator_next(&it) == NULL && tl_iterator_next(&it) == NULL);
    VF_REACH("tl");
}
void h_tl_copy(void)
{
    Textlist l, m;
    Textline *a[2 * NMAX + 1], *b[2 * NMAX + 1];
    int n = tbuild(&l, a), k = tbuild(&m, b);
    int which = (int)nd_range("which", 0, 2);
    Textlist *d = &m;
    if (which == 0) tl_addtl(d, &l);
    else if (which == 1) ENSURES("rc", tl_copy(d, &l) == OK);
    else { d = tl_dup(&l); k = 0; }
    ENSURES("source unchanged", tl_is(&l, a, n));
    Textline *p = d->first;
    for (int i = 0; i < NMAX; i++) if (i < k) { ENSURES("old lines first", p == b[i]); p = p->next; }
    for (int i = 0; i < NMAX; i++)
        if (i < n) {
            ENSURES("then copies of the lines", p != NULL && p != a[i] && p->line != a[i]->line && !strcmp(p->line, a[i]->line));
            p = p->next;
        }
    ENSURES("and nothing else", p == NULL && d->n == n + k);
    long sz = 0;
    for (int i = 0; i < NMAX; i++) if (i < n) sz += strlen(a[i]->line);
    ENSURES("size", tl_size(&l) == sz);
    tl_clear(&l);
    ENSURES("cleared", l.first == NULL && l.last == NULL && l.n == 0);
    VF_REACH("copy");
}
/* reading the text character by character in pieces of any size gives its concatenation */
/* induction over calls: from any iterator state (line, position), one call */
static int rest(TextlistCharIterator *it, char *e)       /* the text not yet delivered */
{
    int k = 0;
    Textline *p = it->cur;
    for (int i = 0; i < NMAX && p; i++, p = p->next)
        for (int j = 0; j < 3; j++) {
            if (!p->line[j]) break;
            if (i || j >= (int)it->pos) e[k++] = p->line[j];
        }
    return k;
}
static int state_ok(TextlistCharIterator *it) { return it->cur == NULL || (it->pos <= it->len && it->len == strlen(it->cur->line)); }
static void do_tl_chars(int n)
{
    Textlist l;
    Textline *a[NMAX];
    tl_init(&l);
    for (int i = 0; i < n; i++) { a[i] = mkline(); tl_add(&l, a[i]); }
    TextlistCharIterator it;
    char e[2 * NMAX + 2], f[2 * NMAX + 2], buf[2 * NMAX + 2];
    tl_char_iterator_start(&it, &l);
    ENSURES("starts at the first character", state_ok(&it) && it.cur == l.first && it.pos == 0);
    int c = (int)nd_range("line", 0, NMAX), pos = (int)nd_range("pos", 0, 2);
    it.cur = NULL;
    for (int i = 0; i < n; i++) if (i == c) { it.cur = a[i]; it.len = strlen(a[i]->line); it.pos = pos; REQUIRES(it.pos <= it.len); }
    int k = rest(&it, e), want = (int)nd_range("want", 1, 2 * NMAX);
    int r = (int)tl_char_iterator_next(&it, buf, want);
    ENSURES("as much as wanted, or all that is left", r == (want < k ? want : k));
    for (int j = 0; j < 2 * NMAX; j++) if (j < r) ENSURES("the text in order", buf[j] == e[j]);
    ENSURES("state", state_ok(&it));
    int m = rest(&it, f);
    ENSURES("the rest is left for the next call", m == k - r);
    for (int j = 0; j < 2 * NMAX; j++) if (j < m) ENSURES("in order", f[j] == e[r + j]);
    VF_REACH("chars");
}
void h_tl_chars(void) { PER_LENGTH(do_tl_chars) }
/* search by line or by prefix, ignoring case */
void h_tl_get(void)
{
    Textlist l;
    Textline *a[2 * NMAX + 1], *e = NULL;
    int n = tbuild(&l, a);
    char s[3];
    int ns = vf_str_in(s, 2), len = (int)nd_range("len", 0, 2);
    for (int i = NMAX - 1; i >= 0; i--)
        if (i < n) {
            char *t = a[i]->line;
            int eq = 1;
            for (int j = 0; j < 3; j++) {
                if (len && j >= len) break;
                char x = t[j], y = s[j];
                if (x >= 'A' && x <= 'Z') x += 32;
                if (y >= 'A' && y <= 'Z') y += 32;
                if (x != y) { eq = 0; break; }
                if (!x) break;
            }
            if (eq) e = a[i];
        }
    ENSURES("first line equal (or with that beginning)", tl_get(&l, s, len) == e);
    char *c = tl_get_str(&l, s, len);
    ENSURES("copy of it", e ? c && c != e->line && !strcmp(c, e->line) : !c);
    VF_REACH("get");
}
