/* Node lists in harnesses: building, expected content, the abbreviated notation's contract. */
#ifndef LON_H
#define LON_H
#define NMAX VF_BOUND

/* ---- abbreviated notation as a contract (proved: A02): a text written for n against o
 * reads back as n against o; written against nothing it reads back against anything ---- */
#if defined(VF_STUB_DIFF) && defined(VF_CPROVER)
static Node tab_n[8], tab_o[8];
static int tab_k;
#ifndef VF_TOKMAX
# define VF_TOKMAX 1
#endif
static char tokbuf[VF_TOKMAX + 1];
static int tab_len[8];              /* chosen by the harness: length of the text, 0 = 1 */
char *stub_to_diff(Node *n, Node *o)
{
    CALLER_OBL("token table", tab_k < 8);
    REQUIRES(!(node_eq(n, o) && n->point == 0));      /* the text would be empty: callers exclude it */
    tab_n[tab_k] = *n; tab_o[tab_k] = *o;
    tokbuf[0] = '0' + tab_k; tokbuf[1] = 0;
    for (int i = 1; i < VF_TOKMAX; i++) if (i < tab_len[tab_k]) { tokbuf[i] = 'x'; tokbuf[i + 1] = 0; }
    tab_k++;
    return tokbuf;
}
int stub_from_diff(char *s, Node *n, Node *o)
{
    int k = s[0] - '0';
    if (s[0] == '!') return ERROR;
    CALLER_OBL("one whole address", k >= 0 && k < tab_k);
    if (VF_TOKMAX == 1) CALLER_OBL("one whole address", s[1] == 0);
    else CALLER_OBL("one whole address", (int)strlen(s) == (tab_len[k] ? tab_len[k] : 1));
    for (int i = 0; i < 8; i++)
        if (i == k) {
            CALLER_OBL("read against the address before it", tab_o[i].zone == INVALID || node_eq(&tab_o[i], o));
            *n = tab_n[i];
        }
    return OK;
}
char *stub_znf1(Node *n) { Node inv; node_invalid(&inv); return stub_to_diff(n, &inv); }
#endif

static Node an(void)
{
    Node n;
    node_clear(&n);
    n.zone = (int)nd_range("z", 1, 65535); n.net = (int)nd_range("n", 0, 65535);
    n.node = (int)nd_range("f", 0, 65535); n.point = (int)nd_range("p", 0, 65535);
    return n;
}
static int g_n;
/* one branch per list length, so that the length is a constant in each */
#define PER_LENGTH(f) VF_PER("n", 0, NMAX, f)
static void buildn(LON *l, Node *a, int n)
{
    lon_init(l);
    for (int i = 0; i < n; i++) { a[i] = an(); lon_add(l, &a[i]); }
}
static int build(LON *l, Node *a)
{
    int n = (int)nd_range("n", 0, NMAX);
    lon_init(l);
    for (int i = 0; i < NMAX; i++)
        if (i < n) { a[i] = an(); lon_add(l, &a[i]); }
    return n;
}
/* representation invariant and content */
static int is_list(LON *l, Node *a, int n)
{
    LNode *p = l->first, *q = NULL;
    if (l->size != n) return 0;
    for (int i = 0; i < 2 * NMAX; i++)
        if (i < n) {
            if (!p || p->prev != q || !node_eq(&p->node, &a[i])) return 0;
            q = p; p = p->next;
        }
    return p == NULL && l->last == q;
}
#endif
