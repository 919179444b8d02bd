/* Contracts of the echomail functions of ftntoss (toss/ftntoss.c). */
#include "tosslib.h"
static int eq3(Node *a, Node *b) { return a->net == b->net && a->node == b->node && a->point == b->point; }

/* ---- E01: SEEN-BY and PATH lines ---- */

/* the addresses on the lines of l, each line on its own; every line must begin with text,
 * have blanks between the addresses, end with CR LF and be of at most 76 characters */
static int read_lines(Textlist *l, char *text, Node *a, int max)
{
    int n = 0;
    for (Textline *p = l->first; p; p = p->next) {
        Node old;
        char *s = p->line, t[48];
        int len = strlen(s);
        ENSURES("line ends with CR LF", len >= 2 && s[len - 2] == '\r' && s[len - 1] == '\n');
        ENSURES("at most 76 characters", len - 2 <= 76);
        for (int i = 0; text[i]; i++) ENSURES("keyword", s[i] == text[i]);
        s += strlen(text);
        node_invalid(&old);
        old.zone = gh_zone;
        while (*s == ' ') {
            int k = 0;
            for (s++; *s > ' '; s++) { if (k < 47) t[k++] = *s; }
            t[k] = 0;
            Node x;
            ENSURES("room", n < max);
            ENSURES("every address is readable", k > 0 && asc_to_node_diff(t, &x, &old) == OK);
            a[n++] = old = x;
        }
        ENSURES("nothing but addresses", *s == '\r');
    }
    return n;
}
#define MAXN 4
static int gh_sorted, gh_mask;
static void put_n(int n)
{
    LON l; Textlist tl; Node a[MAXN], e[MAXN], r[MAXN + 1];
    char *text = gh_sorted ? "SEEN-BY:" : "\001PATH:";
    int k = 0;
    lon_init(&l); tl_init(&tl);
    gh_zone = (int)nd_range("zone", 1, 65535);
    for (int i = 0; i < n; i++) {
        a[i] = an();
#ifdef VF_CPROVER
        a[i].point = echomail4d ? a[i].point : (gh_mask >> i & 1) ? 7 : 0;   /* only zero or not matters here */
#endif
        lon_add(&l, &a[i]);
        for (int j = 0; j < i; j++) REQUIRES(!eq3(&a[i], &a[j]));      /* a node named twice in a row is written once */
    }
    if (gh_sorted) lon_to_kludge_sorted(&tl, text, &l);
    else {
        int rc = lon_to_kludge(&tl, text, &l), any = 0;
        for (int i = 0; i < n; i++) if (!a[i].point || echomail4d) any = 1;
        ENSURES("tells whether the path is empty", !!rc == any);
    }
    if (gh_sorted)          /* ascending, equal ones keep any order */
        for (int i = 1; i < n; i++)
            for (int j = i; j > 0 && node_cmp(&a[j - 1], &a[j]) > 0; j--) { Node t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
    for (int i = 0; i < n; i++) if (!a[i].point || echomail4d) { e[k] = a[i]; e[k].zone = gh_zone; k++; }
    int m = read_lines(&tl, text, r, MAXN + 1);
    ENSURES("as many addresses as nodes", m == k);
    for (int i = 0; i < MAXN; i++) if (i < k) ENSURES("the nodes in order", node_eq(&r[i], &e[i]));
    VF_REACH("put");
}
/* line breaking: all nodes printed, lengths of their texts around the limit */
static void put_len(int c)
{
#if defined(VF_STUB_DIFF) && defined(VF_CPROVER)
    static const int L[6] = { 1, 17, 18, 19, 20, 21 }, S[6] = { 1, 31, 32, 33, 34, 35 };
    /* texts are written again when they begin a new line */
    for (int i = 0; i < 8; i++) tab_len[i] = gh_sorted ? 33 : 23;
    if (gh_sorted) tab_len[1] = S[c];
    else tab_len[2] = L[c] + (c ? 2 : 0);     /* the PATH keyword is shorter */
#endif
    echomail4d = TRUE;
    put_n(gh_sorted ? 2 : MAXN);
}
static void put_sel(int f)
{
    if (f < 6) put_len(f);
    else if (f == 6) { echomail4d = FALSE; put_n(0); }
    else { echomail4d = FALSE; gh_mask = f - 7; put_n(gh_sorted ? 1 : 2); }
}
void h_put(void)
{
#ifdef SORTED
    gh_sorted = 1;
#endif
    VF_PER("case", 0, 10, put_sel);
}
/* reading lines: whatever stands before the first colon or blank is the keyword; unreadable
 * words are skipped; each line starts afresh.  The layout is enumerated, the addresses are not. */
static int mkline(char *d, int kind, int nw, int pat, int end, Node *e, int k)
{
    Node old;
    int w;
    strcpy(d, kind == 0 ? "SEEN-BY: " : kind == 1 ? "\001PATH: " : kind == 2 ? "SEEN-BY:" : "SEEN-BY:\t ");
    w = strlen(d);
    node_invalid(&old); old.zone = gh_zone;
    for (int j = 0; j < nw; j++) {
        if ((pat & 1) && j == 0) d[w++] = '!';
        else {
            Node x = an();
            REQUIRES(!node_eq(&x, &old));
            char *t = node_to_asc_diff(&x, &old);
            while (*t) d[w++] = *t++;
            e[k++] = old = x;
        }
        d[w++] = (pat & 2) ? '\t' : ' ';
        if (pat & 2) d[w++] = ' ';
    }
    if (end < 2) d[w++] = '\r';
    if (end < 1) d[w++] = '\n';
    d[w] = 0;
    return k;
}
static void get_case(int c)
{
    Textlist tl; LON l; Node e[6];
    int k = 0;
    char line[2][128];
    gh_zone = (int)nd_range("zone", 1, 65535);
    tl_init(&tl); lon_init(&l);
    if (c) {
        c--;
        int kind = c % 4, nw = c / 4 % 3, pat = c / 12 % 4, end = c / 48 % 3, two = c / 144;
        k = mkline(line[0], kind, nw, pat, end, e, k);
        tl_append(&tl, line[0]);
        if (two) { k = mkline(line[1], 3 - kind, 2, 3 - pat, end, e, k); tl_append(&tl, line[1]); }
    }
    kludge_to_lon(&tl, &l);
    ENSURES("size", l.size == k);
    LNode *p = l.first;
    for (int i = 0; i < 4; i++) if (i < k) { ENSURES("the addresses in order", p && node_eq(&p->node, &e[i])); p = p->next; }
    VF_REACH("get");
}
#ifdef VF_CPROVER
/* a selection that has every value of every feature, and pairs of lines */
static void get_sel(int i) { static const short c[12] = { 0, 1, 6, 10, 19, 33, 60, 95, 126, 1 + 144 + 4, 1 + 144 + 71, 1 + 144 + 130 }; get_case(c[i]); }
void h_get(void) { VF_PER("case", 0, 11, get_sel); }
#else
void h_get(void) { VF_PER("case", 0, 288, get_case); }
#endif

/* ---- E02: who gets a message, and what is added to SEEN-BY and PATH ---- */
static int in3(Node *a, int n, Node *x) { for (int i = 0; i < 3; i++) if (i < n && eq3(&a[i], x)) return 1; return 0; }
static int in4(Node *a, int n, Node *x) { for (int i = 0; i < 3; i++) if (i < n && node_eq(&a[i], x)) return 1; return 0; }
/* l consists of the nodes a[i] with k[i], in that order */
static int is_sub(LON *l, Node *a, _Bool *k, int n)
{
    LNode *p = l->first, *q = NULL;
    int c = 0;
    for (int i = 0; i < n; i++)
        if (k[i]) {
            if (!p || p->prev != q || !node_eq(&p->node, &a[i])) return 0;
            q = p; p = p->next; c++;
        }
    return p == NULL && l->last == q && l->size == c;
}
static void mk(LON *l, Node *a, int n)
{
    lon_init(l);
    for (int i = 0; i < n; i++) { a[i] = an(); lon_add(l, &a[i]); }
}
#define NB (VF_BOUND < 3 ? VF_BOUND : 3)
static int g_ns, g_nn, g_np;
static void seenby_p(int np)
{
    LON s, d, w, pa; Node A[5], P[1], from = an();
    _Bool k[5] = { 1, 1, 1, 1, 1 }, kw[5] = { 0, 0, 0, 0, 0 };
    int up = (int)nd_range("uplinks", 0, 3), ns = g_ns, nn = g_nn, has_new = np != -2;
    if (np < 0) np = -1;
    mk(&s, A, ns); mk(&d, A + ns, nn); mk(&pa, P, np == 1); lon_init(&w);
    for (int i = ns; i < ns + nn; i++) {
        int seen = 0;
        for (int j = 0; j < i; j++) if (k[j] && eq3(&A[j], &A[i])) seen = 1;
        k[i] = !seen && i - ns + 1 >= up && !node_eq(&from, &A[i]) && !(np == 1 && node_eq(&P[0], &A[i]));
        kw[i] = k[i] && has_new;
    }
    do_seenby(&s, &d, has_new ? &w : NULL, np < 0 ? NULL : &pa, up, &from);
    ENSURES("SEEN-BY: exactly the new recipients are added", is_sub(&s, A, k, ns + nn));
    ENSURES("recipients: not seen, not the sender, not passive, each once", is_sub(&w, A, kw, ns + nn));
    for (int i = 0; i < 5; i++) k[i] = 1;
    ENSURES("the area's lists are unchanged", is_sub(&d, A + ns, k, nn) && is_sub(&pa, P, k, np == 1));
    VF_REACH("seenby");
}
static void seenby_n(int n) { g_nn = n; VF_PER("passive", -2, 1, seenby_p); }
static void seenby_s(int ns) { g_ns = ns; VF_PER("n", 0, NB, seenby_n); }
void h_seenby(void) { VF_PER("s", 0, 2, seenby_s); }

static void point_n(int ns)
{
    LON s, p; Node S[3], P[3], from = an();
    _Bool k[3] = { 1, 1, 1 };
    int np = g_np;
    gh_addr = an();
    mk(&s, S, ns); mk(&p, P, np);
    do_4dpoint(&s, &p, &from, &gh_addr);
    if (ns == 1 && S[0].net == from.net && S[0].node == from.node && (S[0].point == 0 || S[0].point == from.point)) S[0] = from;
    if (np == 1 && P[0].net == from.net && P[0].node == from.node && (P[0].point == 0 || P[0].point == from.point)) P[0] = from;
    S[ns] = gh_addr; k[ns] = !in3(S, ns, &gh_addr);
    ENSURES("SEEN-BY of a point gets its full address, we are in SEEN-BY", is_sub(&s, S, k, ns + 1));
    k[ns] = 1;
    ENSURES("PATH of a point gets its full address", is_sub(&p, P, k, np));
    do_path(&p);
    P[np] = gh_addr; k[np] = !(np > 0 && eq3(&P[np - 1], &gh_addr));
    ENSURES("we are at the end of PATH", is_sub(&p, P, k, np + 1) && eq3(&p.last->node, &gh_addr));
    VF_REACH("path");
}
static void point_p(int np) { g_np = np; VF_PER("s", 0, 2, point_n); }
void h_point(void) { VF_PER("p", 0, 2, point_p); }

/* circular PATH: one of our addresses (of any zone) before the last */
static void circ_a(int na)
{
    LON p; Node P[4]; int circ = 0;
    gh_naka = na;
    for (int i = 0; i < 2; i++) gh_aka[i] = an();
    mk(&p, P, g_np);
    for (int i = 0; i < g_np - 1; i++) if (in3(gh_aka, na, &P[i])) circ = 1;
    ENSURES("circular: one of our addresses before the end", do_check_path(&p) == (circ ? ERROR : OK));
    Node x = an();
    ENSURES("our addresses", !!is_local_addr(&x, FALSE) == in4(gh_aka, na, &x) && !!is_local_addr(&x, TRUE) == in3(gh_aka, na, &x));
    VF_REACH("circular");
}
static void circ_p(int np) { g_np = np; VF_PER("akas", 0, 2, circ_a); }
void h_circ(void) { VF_PER("p", 0, 4, circ_p); }

/* nodes of DeleteSeenBy / DeletePath lines */
static DeleteSeenBy gh_ds[2]; static DeletePath gh_dp[2];
static int g_nd;
static void del_n(int n)
{
    LON l; Node S[3], D[2]; _Bool k[3];
    int nd = g_nd, which = nd_bool("path");
    mk(&l, S, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) REQUIRES(!node_eq(&S[i], &S[j]));
    for (int i = 0; i < nd; i++) {
        D[i] = an();
        LON *x = which ? &gh_dp[i].deletepath : &gh_ds[i].deleteseenby;
        lon_init(x); lon_add(x, &D[i]);
    }
    gh_ds[0].next = gh_dp[0].next = NULL;
    gh_ds[1].next = NULL; gh_dp[1].next = NULL;
    if (nd == 2) { gh_ds[0].next = &gh_ds[1]; gh_dp[0].next = &gh_dp[1]; }
    deleteseenby_first = !which && nd ? &gh_ds[0] : NULL;
    deletepath_first = which && nd ? &gh_dp[0] : NULL;
    if (which) do_deletepath(&l); else do_deleteseenby(&l);
    for (int i = 0; i < n; i++) k[i] = !in4(D, nd, &S[i]);
    ENSURES("exactly the configured nodes are removed", is_sub(&l, S, k, n));
    VF_REACH("delete");
}
static void del_d(int nd) { g_nd = nd; VF_PER("n", 0, 3, del_n); }
void h_delete(void) { VF_PER("d", 1, 2, del_d); }

/* ---- packets written (contract of outpkt.c, packet.c, message.c): a record of the calls ---- */
/* every packet message: opened from .. to .., then header, then body; the messages for one
 * arbitrary node gh_w are counted, the rest of what must hold is checked as it happens */
static Node gh_w; static int gh_isbad, gh_cnt, gh_all, gh_bad, gh_fail = -1, gh_stage;
static Node gh_to; static char gh_file;
static LON *gh_zgl;
static Textline *gh_seen, *gh_path;
static Node gh_zgn; static int gh_zg;
FILE *outpkt_open(Node *from, Node *to, int grade, int type, int flav, int bad)
{
    ENSURES("messages are written one after the other", gh_stage == 0);
    if (gh_all == gh_fail) return NULL;
    gh_all++;
    gh_to = *to; gh_stage = 1;
    gh_isbad = bad;
    if (bad) { gh_bad++; return (FILE *)&gh_file; }
    if (node_eq(to, &gh_w)) gh_cnt++;
    ENSURES("packet from us", node_eq(from, &gh_addr));
    ENSURES("echomail packet, normal", grade == g_flag && type == 'e' && flav == 'n');
    return (FILE *)&gh_file;
}
int pkt_put_msg_hdr(FILE *fp, Message *m, int net)
{
    ENSURES("header into the open packet", fp == (FILE *)&gh_file && gh_stage == 1);
    gh_stage = 2;
    ENSURES("header addressed to that node, no netmail", node_eq(&m->node_to, &gh_to) && !net);
    ENSURES("from us", gh_isbad || node_eq(&m->node_from, &gh_addr));
    return OK;
}
static int gh_flow, gh_cnt_expected;
static void flow_body(MsgBody *b);
int msg_put_msgbody(FILE *fp, MsgBody *b)
{
    if (gh_flow) { ENSURES("body behind the header", fp == (FILE *)&gh_file && gh_stage == 2); gh_stage = 0; flow_body(b); return OK; }
    ENSURES("body behind the header", fp == (FILE *)&gh_file && gh_stage == 2);
    gh_stage = 0;
    ENSURES("PATH as given", b->path.first == gh_path && b->path.n == 1);
    if (gh_zg && node_eq(&gh_to, &gh_zgn))
        ENSURES("a zone gate gets its own SEEN-BY", b->seenby.first != gh_seen && b->seenby.n == 1);
    else
        ENSURES("SEEN-BY as given", b->seenby.first == gh_seen && b->seenby.last == gh_seen && b->seenby.n == 1);
    return OK;
}

#ifdef VF_CPROVER
void stub_sorted(Textlist *tl, char *text, LON *lon)
{
    CALLER_OBL("the zone gate's SEEN-BY", !strcmp(text, "SEEN-BY:") && gh_zgl == lon);
    tl_append(tl, "Z");
}
#endif
static ZoneGate gh_zgb; static Node gh_zgs;
static void toss_p(int np)
{
    LON s, p, d, pa; Node D[3], P[1];
    Message msg = { 0 }; MsgBody body;
    int nn = g_nn, n = 0, all = 0;
    static Textline sl = { "S" }, pl = { "P" };
    gh_zg = np >= 2; np &= 1;
    gh_addr = an(); gh_w = an();
    gh_fail = (int)nd_range("fail", -1, 3);
    g_flag = nd_bool("g") ? 'n' : 'x';
    lon_init(&s); lon_init(&p); mk(&d, D, nn); mk(&pa, P, np);
    msg_body_init(&body);
    tl_add(&body.seenby, &sl); tl_add(&body.path, &pl);
    gh_seen = &sl; gh_path = &pl;
    if (gh_zg) {
        gh_zg = 1;
        gh_zgn = gh_zgb.node = an(); gh_zgs = an(); gh_zgs.point = 0; gh_zgb.next = NULL;
        lon_init(&gh_zgb.seenby); lon_add(&gh_zgb.seenby, &gh_zgs);
        gh_zgl = &gh_zgb.seenby;
        zonegate_first = &gh_zgb;
    }
    int rc = toss_echomail(&msg, &body, &s, &p, &d, &pa);
    for (int i = 0; i < nn; i++) {
        if (np && node_eq(&P[0], &D[i])) continue;
        if (all == gh_fail) break;
        all++;
        if (node_eq(&gh_w, &D[i])) n++;
    }
    ENSURES("one copy for every node that is not passive", gh_cnt == n);
    ENSURES("and no others, all complete", gh_all == all && !gh_bad && gh_stage == 0);
    int want = 0;
    for (int i = 0; i < nn; i++) if (!(np && node_eq(&P[0], &D[i]))) want++;
    ENSURES("failure is reported", rc == (want == all ? OK : ERROR));
    if (rc == OK) ENSURES("the message keeps its SEEN-BY", body.seenby.first == &sl && body.seenby.n == 1);
    VF_REACH("toss");
}
static void toss_n(int n) { g_nn = n; VF_PER("p", 0, 3, toss_p); }
void h_toss(void) { VF_PER("n", 0, NB, toss_n); }

/* ---- E03: which messages are accepted ---- */
int areasbbs_chstate(char **st, char *from, char to) { return OK; }
void areasbbs_changed(void) { }
#ifdef VF_CPROVER
int passive_dummy;
void stub_appendf(Textlist *l, char *f, ...) { }
time_t time(time_t *t) { return 1000; }
char *date(char *f, time_t *t) { return "D"; }
int areasbbs_isstate(char *st, char c) { if (!st) return FALSE; for (int i = 0; i < 3; i++) { if (!st[i]) return FALSE; if (st[i] == c) return TRUE; } return FALSE; }
#endif
static AreasBBS gh_area; static int gh_known, gh_lookups, gh_asked_wrong;
AreasBBS *areasbbs_lookup(char *name)
{
    ENSURES("looked up by the AREA line without its end", !strcmp(name, "E.A"));
    return gh_known || gh_created ? &gh_area : NULL;
}
static Passwd gh_pw; static int gh_haspw;
Passwd *passwd_lookup(const char *ctx, Node *n) { ENSURES("packet password of the sender", !strcmp(ctx, "packet") && node_eq(n, &gh_pw.node)); return gh_haspw ? &gh_pw : NULL; }
void uplinks_init(void) { }
AreaUplink *uplinks_line_get(int f, Node *n) { return NULL; }
static int gh_origin_ok;
int msg_parse_origin(char *b, Node *n) { return gh_origin_ok ? OK : ERROR; }
static int gh_seen_before, gh_writes, gh_write_rc, gh_tests, gh_nomsgid;
static unsigned long gh_crc;
static void key_ok(char *k)
{
    if (gh_nomsgid) {
        int n = strlen(k);
        ENSURES("key of a message without MSGID begins with the area", !strncmp(k, "E.A NOMSGID: ", 13) && n > 22);
        unsigned long v = 0;
        for (int i = 0; i < 8; i++) { char c = k[n - 8 + i]; v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); }
        ENSURES("and ends with the CRC of sender, recipient and subject", v == gh_crc && k[n - 9] == ' ');
    } else
        ENSURES("key is area and MSGID line", !strcmp(k, "E.A MSGID: 2:5/6_x y"));
}
short int hi_test(char *k) { gh_tests++; key_ok(k); return gh_seen_before; }
short int hi_write(time_t t, char *k) { gh_writes++; key_ok(k); return gh_write_rc; }
static Node S0, P0[2], ADD;
static int g_s, g_pth, g_n2, g_pas, gh_has_add, g_mid, g_del;
static int in_lon(LON *l, Node *x) { int r = 0; for (LNode *p = l->first; p; p = p->next) if (eq3(&p->node, x)) r = 1; return r; }
static AddToSeenBy gh_at;
#ifdef VF_CPROVER
/* do_echomail against the contracts of the functions it calls (each proved by its own unit) */
static Node REC; static Message *gh_msg;
static int g_rec, gh_4d, gh_dseen, gh_dpath, gh_pathdone, gh_ws, gh_wp, gh_tossed, gh_tossrc, gh_iscirc, gh_self;
void stub_k2l(Textlist *tl, LON *lon)
{
    if (tl->first && tl->first->line[0] == 'S') { if (g_s) lon_add(lon, &S0); }
    else for (int i = 0; i < g_pth; i++) lon_add(lon, &P0[i]);
}
void stub_4d(LON *s, LON *p, Node *from, Node *addr)
{
    CALLER_OBL("the sender, and our address for this area", node_eq(from, &gh_msg->node_from) && node_eq(addr, &gh_addr));
    CALLER_OBL("the lists as received", s->size == g_s && p->size == g_pth);
    gh_4d = 1;
}
void stub_seenby(LON *s, LON *nodes, LON *new, LON *passive, int up, Node *from)
{
    CALLER_OBL("the sender gets no copy", node_eq(from, &gh_msg->node_from));
    if (new) {
        CALLER_OBL("sender and recipient are in SEEN-BY", gh_4d && in_lon(s, from) && in_lon(s, &gh_msg->node_to));
        CALLER_OBL("the area's nodes, passive nodes and number of uplinks", nodes == &gh_area.nodes && passive == &gh_area.passive && up == gh_area.uplinks && !new->first);
        if (g_rec) { lon_add(s, &REC); lon_add(new, &REC); }
    } else {
        CALLER_OBL("the nodes of the AddToSeenBy line for this area", gh_has_add && nodes == &gh_at.add && !passive && up <= 1);
        lon_add(s, &ADD);
    }
}
void stub_delseen(LON *s)
{
    CALLER_OBL("after all additions", in_lon(s, &gh_msg->node_from) && (!g_rec || in_lon(s, &REC)) && (!gh_has_add || in_lon(s, &ADD)));
    gh_dseen++;
}
void stub_path(LON *p)
{
    CALLER_OBL("the packet's sender is at the end of PATH", p->last && eq3(&p->last->node, &gh_pw.node) && p->size >= g_pth);
    lon_add(p, &gh_addr); gh_pathdone = 1;
}
void stub_delpath(LON *p) { CALLER_OBL("after our address", gh_pathdone); gh_dpath++; }
int stub_check(LON *p) { CALLER_OBL("the complete PATH", gh_pathdone && p->size > g_pth); return gh_iscirc ? ERROR : OK; }
void stub_ws(Textlist *tl, char *text, LON *lon)
{
    CALLER_OBL("SEEN-BY lines are replaced", !strcmp(text, "SEEN-BY:") && !tl->first);
    ENSURES("every AddToSeenBy node is in SEEN-BY", !gh_has_add || in_lon(lon, &ADD));
    ENSURES("sender, recipient and new nodes are in SEEN-BY", in_lon(lon, &gh_msg->node_from) && in_lon(lon, &gh_msg->node_to) && (!g_rec || in_lon(lon, &REC)));
    ENSURES("and those that were there", !g_s || in_lon(lon, &S0));
    ENSURES("DeleteSeenBy nodes are gone", gh_dseen >= g_del);
    tl_append(tl, "S"); gh_ws = 1;
}
int stub_wp(Textlist *tl, char *text, LON *lon)
{
    CALLER_OBL("PATH lines are replaced", !strcmp(text, "\001PATH:") && !tl->first);
    ENSURES("PATH ends with us", lon->last && eq3(&lon->last->node, &gh_addr) && gh_pathdone);
    ENSURES("nothing is lost from PATH", lon->size > g_pth);
    ENSURES("DeletePath nodes are gone", gh_dpath >= g_del);
    tl_append(tl, "P"); gh_wp = 1;
    return 1;
}
int stub_toss(Message *msg, MsgBody *body, LON *seenby, LON *path, LON *new, LON *passive)
{
    ENSURES("passed on with the new SEEN-BY and PATH", msg == gh_msg && gh_ws && gh_wp && body->seenby.n == 1 && body->path.n == 1);
    ENSURES("to exactly the nodes not reached yet, and to ourselves if the area is not passed through",
            new->size == g_rec + gh_self && (!g_rec || in_lon(new, &REC)) && (!gh_self || in_lon(new, &gh_addr)));
    ENSURES("not to passive nodes", passive == &gh_area.passive);
    gh_tossed++;
    return gh_tossrc;
}
int stub_bad(Message *msg, MsgBody *body)
{
    ENSURES("kept with its SEEN-BY and PATH", msg == gh_msg && body->seenby.n == 1 && body->path.n == 1 && !gh_ws);
    gh_bad++;
    return OK;
}
static void flow_body(MsgBody *b) { }
#else
static void flow_body(MsgBody *b)
{
    LON s, p;
    if (gh_isbad) return;
    lon_init(&s); lon_init(&p);
    kludge_to_lon(&b->seenby, &s); kludge_to_lon(&b->path, &p);
    echomail4d = TRUE;
    ENSURES("every AddToSeenBy node is in SEEN-BY", !gh_has_add || in_lon(&s, &ADD) || node_eq(&ADD, &gh_pw.node));
    ENSURES("sender and we are in SEEN-BY", in_lon(&s, &gh_pw.node) && in_lon(&s, &gh_addr));
    ENSURES("the recipient is in SEEN-BY", in_lon(&s, &gh_to));
    ENSURES("PATH ends with us", p.last && eq3(&p.last->node, &gh_addr));
    ENSURES("nothing is lost from PATH", p.size >= g_pth);
}
#endif
static void mkl(Textlist *tl, char *text, Node *a, int n)
{
    static char line[4][100]; static int k;
#ifndef VF_CPROVER
    char *d = line[k = (k + 1) % 4];
    strcpy(d, text);
    for (int i = 0; i < n; i++) { strcat(d, " "); char *t = znfp1(&a[i]); char *q = strchr(t, '@'); if (q) *q = 0; strcat(d, t); }
    strcat(d, "\r\n");
    if (n) tl_append(tl, d);
#else
    tl_append(tl, text);
#endif
}
static void echo_case(void)
{
    Packet pkt; Message msg; MsgBody body; Node D[2], P[1];
    memset(&msg, 0, sizeof(msg)); memset(&pkt, 0, sizeof(pkt));
    msg_body_init(&body);
    gh_flow = 1; echomail4d = TRUE;
    gh_zone = 2;
    gh_addr = an(); gh_w = an();
    gh_naka = 1; gh_aka[0] = an();
    msg.node_from = pkt.from = gh_pw.node = an();
    msg.node_to = pkt.to = an();
    msg.node_orig = an();
    int orig = nd_bool("orig");
    if (!orig) node_invalid(&msg.node_orig);
    strcpy(msg.name_from, "A"); strcpy(msg.name_to, "B"); strcpy(msg.subject, "C");
    gh_crc = 0xa3830348UL;                       /* CRC-32 of "ABC" */
    body.area = "AREA:E.A\r";
    int mid = g_mid;
    gh_nomsgid = !mid;
    if (mid) tl_append(&body.kludge, "\001MSGID: 2:5/6\tx y\r\n");
    /* lists */
    S0 = an(); for (int i = 0; i < 2; i++) P0[i] = an();
#ifndef VF_CPROVER
    S0.zone = P0[0].zone = P0[1].zone = gh_zone;
#endif
    mkl(&body.seenby, "SEEN-BY:", &S0, g_s);
    mkl(&body.path, "\001PATH:", P0, g_pth);
    memset(&gh_area, 0, sizeof(gh_area));
    gh_area.area = "E.A"; gh_area.zone = -1; gh_area.addr.zone = -1;
    mk(&gh_area.nodes, D, g_n2); mk(&gh_area.passive, P, g_pas);
    gh_area.uplinks = (int)nd_range("uplinks", 0, 2);
    gh_area.flags = nd_bool("passthru") ? AREASBBS_PASSTHRU : 0;
    char st[2] = { 0, 0 };
    int sl = (int)nd_range("state", 0, 5);
    st[0] = "USFWP"[sl < 5 ? sl : 0];
    gh_area.state = sl < 5 ? st : NULL;
    if (gh_has_add) {
        ADD = an(); gh_at.area = "E.*"; lon_init(&gh_at.add); lon_add(&gh_at.add, &ADD); addto_first = &gh_at;
    }
    if (g_del) {
        Node x = an(); x.zone = 30000;      /* not one of the nodes above */
        lon_init(&gh_ds[0].deleteseenby); lon_add(&gh_ds[0].deleteseenby, &x); deleteseenby_first = &gh_ds[0]; gh_ds[0].next = NULL;
        lon_init(&gh_dp[0].deletepath); lon_add(&gh_dp[0].deletepath, &x); deletepath_first = &gh_dp[0]; gh_dp[0].next = NULL;
    }
    int azone = nd_bool("azone"), aaddr = nd_bool("aaddr");
    if (azone) gh_area.zone = 7;
    if (aaddr) gh_area.addr.zone = 2;
    /* configuration and environment */
    t_flag = nd_bool("t"); n_flag = nd_bool("n"); p_flag = nd_bool("p");
    kill_unknown = nd_bool("ku"); kill_routed = nd_bool("kr"); kill_insecure = nd_bool("ki"); kill_circular = nd_bool("kc");
    kill_dupe = nd_bool("kd"); kill_nomsgid = nd_bool("kn"); kill_old = nd_bool("ko"); check_path = nd_bool("cp"); dupe_check = nd_bool("dc");
    check_point_origin_addr = nd_bool("cpo");
    gh_known = nd_bool("known"); gh_auth = nd_bool("auth"); gh_forbidden = nd_bool("forb"); gh_new_rc = nd_bool("newrc") ? OK : ERROR;
    gh_haspw = nd_bool("pw"); gh_pw.passwd = "Ab"; int pws = (int)nd_range("pws", 0, 2);
    strcpy(pkt.passwd, pws == 0 ? "" : pws == 1 ? "aB" : "a");
    gh_origin_ok = nd_bool("origin"); gh_seen_before = nd_bool("seen"); gh_write_rc = nd_bool("werr") ? ERROR : OK;
    exp_sec = 500; msg.date = nd_bool("old") ? 499 : 500;
    int is_old = msg.date < 500;
    /* expectation */
    int ok = 1, bad = 0, err = 0, write = 0;
#define REJ(c, kill) if (ok && (c)) { ok = 0; bad = !(kill); }
    int linked = node_eq(&msg.node_from, &gh_addr) || in4(D, g_n2, &msg.node_from);
    int us = node_eq(&msg.node_to, &gh_addr) || in4(gh_aka, 1, &msg.node_to);
    int uplink = 0; for (int i = 0; i < g_n2; i++) if (i < gh_area.uplinks && node_eq(&D[i], &msg.node_from)) uplink = 1;
    REJ(!orig, kill_insecure);
    REJ(check_point_origin_addr && pkt.from.point && !node_eq(&msg.node_orig, &pkt.from), kill_insecure);
    REJ(gh_haspw && pws != 1, kill_insecure);
    REJ(!gh_known && !(gh_auth && !gh_forbidden && gh_new_rc == OK), kill_unknown);
    if (dupe_check) {
        REJ(!mid && kill_nomsgid, kill_dupe);
        REJ(!mid && !gh_origin_ok, kill_dupe);
        REJ(kill_old && is_old, kill_dupe);
        REJ(gh_seen_before, kill_dupe);
        if (ok && linked) { write = 1; if (gh_write_rc == ERROR) { ok = 0; err = 1; } }
    }
    REJ(!n_flag && !us, kill_routed);
    REJ(!t_flag && !linked, kill_insecure);
    /* PATH as received plus sender: circular if we are in it (but not at the end) */
    Node PA[4]; int np = g_pth;
    for (int i = 0; i < g_pth; i++) PA[i] = P0[i];
    if (np == 1 && PA[0].net == msg.node_from.net && PA[0].node == msg.node_from.node && (PA[0].point == 0 || PA[0].point == msg.node_from.point)) PA[0] = msg.node_from;
    int app = np == 0 || !eq3(&PA[np - 1], &pkt.from);        /* sender appended to PATH */
    int circ = 0;
    for (int i = 0; i < np; i++) {
        /* element i is the last one if nothing follows: no sender and we are it */
        int last = i == np - 1 && !app && eq3(&PA[i], &gh_addr);
        if (!last && in3(gh_aka, 1, &PA[i])) circ = 1;
    }
    if (app && !eq3(&pkt.from, &gh_addr) && in3(gh_aka, 1, &pkt.from)) circ = 1;
#ifdef VF_CPROVER
    gh_msg = &msg; REC = an(); gh_tossrc = nd_bool("trc") ? OK : ERROR;
    circ = gh_iscirc = nd_bool("circ");
    gh_self = !p_flag && !node_eq(&msg.node_from, &gh_addr) && (!(gh_area.flags & AREASBBS_PASSTHRU) || in4(D, g_n2, &gh_addr));
#endif
    REJ(check_path && circ, kill_circular);
    REJ(!uplink && sl == 3, kill_circular);
    REJ(sl == 4, 0);
    int want = 0;
    if (ok) {
        _Bool add[2] = { 0, 0 };
        Node s0 = S0;
        if (g_s && s0.net == msg.node_from.net && s0.node == msg.node_from.node && (s0.point == 0 || s0.point == msg.node_from.point)) s0 = msg.node_from;
        for (int i = 0; i < g_n2; i++) {
            int seen = eq3(&D[i], &gh_addr) || eq3(&D[i], &msg.node_from) || eq3(&D[i], &msg.node_to) || (g_s && eq3(&D[i], &s0));
            for (int j = 0; j < i; j++) if (add[j] && eq3(&D[j], &D[i])) seen = 1;
            add[i] = !seen && i + 1 >= gh_area.uplinks && !(g_pas && node_eq(&P[0], &D[i]));
            if (add[i] && node_eq(&D[i], &gh_w)) want++;
        }
        gh_cnt_expected = want;
        if (!p_flag && !node_eq(&msg.node_from, &gh_addr) && (!(gh_area.flags & AREASBBS_PASSTHRU) || in4(D, g_n2, &gh_addr)) &&
            !(g_pas && node_eq(&P[0], &gh_addr)) && node_eq(&gh_w, &gh_addr)) want++;
    }
    int rc = do_echomail(&pkt, &msg, &body);
    ENSURES("rejected messages are kept as bad unless configured to be killed", gh_bad == bad);
    ENSURES("history records exactly what is new and from a linked node", gh_writes == write);
    if (ok && azone) ENSURES("zone of the area", gh_setzone == 7);
    if (ok) ENSURES("address of the area", gh_setcurr == aaddr);
#ifdef VF_CPROVER
    ENSURES("an accepted message is passed on, no other", gh_tossed == ok);
    ENSURES("result", rc == (err ? ERROR : ok ? gh_tossrc : OK));
#else
    ENSURES("copies: accepted messages go to every subscribed, not yet reached, active node, others to nobody", gh_cnt == want);
    ENSURES("nothing is sent if the message is not accepted", ok || gh_all == bad);
    ENSURES("only complete messages", gh_stage == 0);
    ENSURES("error only for a failing history", rc == (err ? ERROR : OK));
#endif
    VF_REACH("echomail");
}
static void echo_s(int c)
{
    g_s = c & 1; g_pth = c / 2 % 3; g_n2 = c / 6 % 3; g_pas = c / 18 % 2; g_mid = c / 36 % 2; gh_has_add = c / 72 % 2; g_del = c / 144;
#ifdef VF_CPROVER
    g_rec = g_pas;
#endif
    echo_case();
}
#ifdef VF_CPROVER
#define EC(s, pth, n, r, mid, add, del) (s) + 2 * (pth) + 6 * (n) + 18 * (r) + 36 * (mid) + 72 * (add) + 144 * (del)
static void echo_sel(int i) { static const short c[5] = { EC(0, 0, 0, 0, 0, 0, 0), EC(1, 1, 1, 1, 1, 1, 0), EC(1, 2, 2, 1, 1, 0, 1), EC(0, 1, 2, 0, 0, 1, 1), EC(1, 0, 1, 0, 1, 1, 1) }; echo_s(c[i]); }
#ifndef ECHO_CASE
void h_echomail(void) { VF_PER("case", 0, 4, echo_sel); }
#else
void h_echomail(void) { VF_PER("case", ECHO_CASE, ECHO_CASE, echo_sel); }
#endif
#else
void h_echomail(void) { VF_PER("case", 0, 287, echo_s); }
#endif
#ifndef VF_CPROVER
extern int vf_small;
void vf_reset(void)
{
    vf_small = 1;
    gh_nbest = gh_setcurr = gh_created = gh_isbad = gh_cnt = gh_all = gh_bad = gh_stage = gh_flow = gh_cnt_expected = 0;
    gh_writes = gh_tests = 0; gh_setzone = -2; gh_fail = -1;
    addto_first = NULL; zonegate_first = NULL; deleteseenby_first = NULL; deletepath_first = NULL;
    echomail4d = FALSE; int_uplinks = FALSE;
}
#endif
