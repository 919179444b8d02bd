/* Contracts of the message body functions (src/common/message.c, kludge.c). */
#include "fg.h"
#ifndef MBUF
# define MBUF 48
#endif
#ifdef VF_CPROVER
int verbose = 0;
void *xmalloc(int n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void xfree(void *p) { free(p); }
char *strsave(char *s)
{
    char *p = xmalloc(MBUF);
    for (int i = 0; i < MBUF; i++) { p[i] = s[i]; if (!s[i]) return p; }
    __CPROVER_assert(0, "libc-model: string too long for this unit");
    return p;
}
/* the line buffer is shorter than in the program */
static char gh_mbuf[MBUF];
# define buffer gh_mbuf
#endif
#ifdef VF_PARSE
/* prefixes of the line just read: a line is known by its kind (constant comparison per kind) */
static int gh_prefix(const char *s, const char *lit, size_t n, int fold);
# ifdef VF_CPROVER
#  define strncmp(s, lit, n) gh_prefix(s, lit, n, 0)
/* numbers of one digit in formatted lines */
static int vf_fmt1(char *b, size_t n, const char *f, int x, int y)
{
    int k = 0, w = 0;
    for (int i = 0; i < 30; i++) {
        if (!f[i]) break;
        if (f[i] == '%') { int v = w++ ? y : x; CALLER_OBL("one-digit number", f[i + 1] == 'd' && w <= 2 && v >= 0 && v <= 9); b[k++] = '0' + v; i++; }
        else b[k++] = f[i];
    }
    b[k] = 0;
    CALLER_OBL("fits", k < (int)n);
    return k;
}
#  define snprintf vf_fmt1
#  undef strnicmp
#  define strnicmp(s, lit, n) gh_prefix(s, lit, n, 1)
# endif
#endif
#include "src/common/message.c"
#if defined(VF_PARSE) && defined(VF_CPROVER)
# undef strncmp
# undef snprintf
# undef strnicmp
#endif
#include "src/common/kludge.c"
void stub_log(const char *f, ...) { }
void stub_debug(int l, const char *f, ...) { }
static int seq(const char *a, const char *b) { for (int i = 0; i < MBUF; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }

/* ---- one line from the packet ---- */
#ifdef VF_CPROVER
long ftell(FILE *fp) { return 7; }      /* only for the log */
#endif
#define NF (VF_BOUND)
static unsigned char gh_d[64];
static void line_n(int n)
{
    char out[16], all[64];
    int size = (int)nd_range("size", 4, 9), na = 0, nz = 0, calls = 0, odd = 0;
    for (int i = 0; i < n; i++) { gh_d[i] = nd_u8("d"); if (gh_d[i] == 0 || gh_d[i] == 2) odd = 1; }
    FILE *fp = vf_open_in(gh_d, n);
    VF_PATCH(fglog, stub_log);
    int pos = 0;
    for (int c = 0; c < (VF_CBMC ? 1 : NF + 1); c++) {     /* a call depends only on the bytes from here on */
        memset(out, 1, sizeof(out));
        int t = pkt_get_line(fp, out, size);
        int np = (int)vf_in_pos(fp), l = 0;
        ENSURES("result is one of line, end of message, end of packet, error", t == 1 || t == MSG_END || t == MSG_TYPE || t == ERROR);
        if (t == ERROR) { ENSURES("error only at the end of the file", np == n); break; }
        for (int i = 0; i < 16; i++) if (out[l]) l++;
        ENSURES("terminated within the buffer", l < size && out[l] == 0);
        int end = np;
        if (t == MSG_TYPE) {
            int z = np >= 3 && np <= n && gh_d[np - 3] == 0 && gh_d[np - 2] == 2 && gh_d[np - 1] == 0;
            ENSURES("end of message: the mark 0 2 0 or a grunged 2 0", z || (np >= 2 && np <= n && gh_d[np - 2] == 2 && gh_d[np - 1] == 0));
            end = z ? np - 3 : np - 2;
            if (end < pos) end = np - 2;
        }
        if (t == MSG_END) {
            ENSURES("end of packet: three 0 bytes", np >= 3 && np <= n && !gh_d[np - 3] && !gh_d[np - 2] && !gh_d[np - 1]);
            end = np - 3;
        }
        /* the line holds the bytes read, without 0 bytes */
        int k = 0, ok = 1;
        for (int i = 0; i < NF; i++) if (i >= pos && i < end && gh_d[i]) { ok = ok && k < l && (unsigned char)out[k] == gh_d[i]; k++; }
        ENSURES("nothing but 0 bytes left out, in order", ok && k == l);
        ENSURES("progress", t != 1 || np > pos);
        /* where lines end, for lines without 0 and 2 bytes */
        int plain = 1;
        for (int i = 0; i < NF; i++) if (i >= pos && i < end && (gh_d[i] == 0 || gh_d[i] == 2)) plain = 0;
        if (plain) {
            int cr = -1;
            for (int i = 0; i < 16; i++) if (i < l && cr < 0 && out[i] == '\r') cr = i;
            int lf = 1;
            if (cr >= 0) for (int i = 0; i < 16; i++) if (i < l && i > cr && out[i] != '\n') lf = 0;
            ENSURES("a line goes up to its first CR and the LFs after it", cr < 0 || lf);
            ENSURES("a line without CR is longer than the buffer or the last one", t != 1 || cr >= 0 || l >= size - 3);
            ENSURES("all LFs after the CR belong to the line", t != 1 || cr < 0 || l >= size - 3 || np >= n || gh_d[np] != '\n');
        }
        pos = np;
        if (t != 1) break;
    }
    VF_REACH("line");
}
void h_line(void) { VF_PER("n", 0, NF, line_n); }

#ifdef VF_GETBODY
/* ---- all of a body as a list of lines ---- */
static Textlist gh_tl;
static char gh_gt[4][8];
static int gh_gn, gh_gi, gh_gend, gh_app, gh_appok, gh_clr, gh_grest;
static void gcopy(char *d, const char *s) { int e = 0; for (int j = 0; j < 8; j++) { if (!e) d[j] = s[j]; if (!s[j]) e = 1; } }
int stub_gline(FILE *fp, char *buf, int size)
{
    int i = gh_gi++;
    CALLER_OBL("room for a line", size == (int)sizeof(buffer) && buf == buffer);
    CALLER_OBL("not read past the end of the message", i <= gh_gn);
    if (i > gh_gn) VF_HALT();
    for (int j = 0; j < 4; j++) if (i == j) gcopy(buf, gh_gt[j]);
    return i == gh_gn ? gh_gend : 1;
}
void stub_gappend(Textlist *l, char *s)
{
    CALLER_OBL("the list given", l == &gh_tl && s != NULL && gh_clr == 1);
    char w[12]; int n = 0;
    for (int j = 0; j < 4; j++) if (gh_app == j) gcopy(w, gh_gt[j]);
    if (gh_app == gh_gn) { for (int j = 0; j < 8; j++) if (w[n]) n++; w[n++] = '\r'; w[n++] = '\n'; w[n] = 0; }
    for (int j = 0; j < 12; j++) { if (w[j] != s[j]) gh_appok = 0; if (!w[j]) break; }
    gh_app++;
}
void stub_gclear(Textlist *l) { CALLER_OBL("the list given", l == &gh_tl && !gh_app); gh_clr++; }
static void getbody_n(int n)
{
    static const int ends[] = { MSG_END, MSG_TYPE, ERROR };
    gh_gn = n; gh_gi = gh_app = gh_clr = 0; gh_appok = 1;
    for (int i = 0; i < 4; i++) {
        for (int j = 0; j < 5; j++) gh_gt[i][j] = (char)nd_u8("c");
        gh_gt[i][5] = 0;
        if (i < n) REQUIRES(gh_gt[i][0] != 0);
    }
    int e = (int)nd_range("end", 0, 2);
    gh_gend = ends[e];
    if (nd_bool("rest") == 0) for (int i = 0; i < 4; i++) if (i == n) gh_gt[i][0] = 0;
    int rest = 0;
    for (int i = 0; i < 4; i++) if (i == n && gh_gt[i][0]) rest = 1;
    VF_PATCH(pkt_get_line, stub_gline); VF_PATCH(tl_append, stub_gappend); VF_PATCH(tl_clear, stub_gclear);
    int t = pkt_get_body((FILE *)&gh_tl, &gh_tl);
    ENSURES("how the message ended is returned", t == gh_gend);
    ENSURES("the list is emptied first", gh_clr == 1);
    ENSURES("all lines read, once", gh_gi == n + 1);
    int want = n + (gh_gend != ERROR && rest);
    ENSURES("every line, and a last one without line end, is in the list", gh_app == want || (gh_gend == ERROR && rest && gh_app == n + 1));
    ENSURES("lines unchanged and in order, the last one ended with CR LF", gh_appok);
    VF_REACH("getbody");
}
void h_getbody(void) { VF_PER("n", 0, 3, getbody_n); }
#endif

/* ---- the parts of a body ---- */
#define NL (VF_BOUND)
enum { K, AR, BL, BS, RF, TX, TD, TE, T2, OR, PA, SB, VI, RE, NTAGS };
static const char *gh_pre[NTAGS] = { "\001", "AREA:", "", "", "To: ", "", "--- ", "---", "---", " * Origin:", "\001PATH", "SEEN-BY", "\001Via", "\001Recd" };
static int gh_k[8], gh_n, gh_i, gh_last;
static char gh_t[8][20];
static void mkline(int i, int k)
{
    char *d = gh_t[i]; int n = ex_str(d, 0, gh_pre[k]);
    if (k == BS) { d[n++] = ' '; d[n++] = '\t'; }
    else if (k == T2) { d[n++] = '-'; d[n++] = 'a' + i; }     /* ---- is text */
    else if (k != BL && k != TE) d[n++] = 'a' + i;
    d[n++] = '\r';
    if (i & 1) d[n++] = '\n';
    d[n] = 0;
}
static int gh_cur;              /* index of the line in `buffer', or -1 */
int stub_line(FILE *fp, char *buf, int size)
{
    int i = gh_i++;
    CALLER_OBL("room for a line", size == (int)sizeof(buffer) && buf == buffer);
    CALLER_OBL("not read past the end of the message", i <= gh_n && !(i == gh_n && gh_last >= 10));
    if (i > gh_n) VF_HALT();
    *buf = 0;
    gh_cur = -1;
    if (i == gh_n) return gh_last;
    gh_cur = i;
    int cut = i == gh_n - 1 && gh_last >= 10;        /* last line without its end */
    for (int j = 0, e = 0; j < 18; j++) { char c = e ? 0 : gh_t[i][j]; if (cut && c == '\r') c = 0; if (!c) e = 1; if (!e || !j || buf[j - 1]) buf[j] = c; }
    return cut ? gh_last - 10 : 1;
}
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "conversion"
static int gh_prefix(const char *s, const char *lit, size_t n, int fold)
{
    int r = 1;
    CALLER_OBL("the line", s == buffer && gh_cur >= 0);
    for (int k = 0; k < NTAGS; k++) {
        /* longest line of the kind; where it is shorter than n or variable the text decides */
        const char *p = gh_pre[k]; int l = 0, ne = 0, var = 0;
        for (int i = 0; i < 16; i++) {
            if (i >= (int)n || ne) break;
            if (!p[i]) { var = 1; break; }
            char a = p[i], b = lit[i];
            if (fold) { a = tolower(a); b = tolower(b); }
            if (a != b) ne = 1; else if (!a) ne = 1;
        }
        if (gh_k[gh_cur] == k) {
            r = ne;
            if (var) { r = 0; for (int i = 0; i < 16; i++) if (i < (int)n) { char a = s[i], b = lit[i]; if (fold) { a = tolower(a); b = tolower(b); } if (a != b) { r = 1; break; } } }
        }
    }
    return r;
}
#pragma CPROVER check pop
/* lists of indices of lines instead of the lines */
static MsgBody gh_b;
enum { LK, LR, LB, LS, LP, LV, NLISTS };
static int gh_l[NLISTS][12], gh_c[NLISTS], gh_def[NLISTS], gh_freed;
static char gh_deft[NLISTS][MBUF];
static int gh_is_cur(void) { return gh_cur >= 0 && seq(buffer, gh_t[gh_cur]); }
static void endline(int i) { int e = 0; for (int j = 0; j < 16; j++) if (gh_t[i][j] == '\r' && !e) { e = 1; gh_t[i][j + 1] = '\n'; gh_t[i][j + 2] = 0; } }
char *stub_save(char *s)
{
    if (s != buffer) CALLER_OBL("a line", s[0] == '-' && seq(s, "---\r"));
    if (s == buffer && gh_is_cur()) return gh_t[gh_cur];
    char *p = malloc(MBUF); REQUIRES(p != NULL);
    for (int i = 0; i < MBUF; i++) { p[i] = s[i]; if (!s[i]) break; }
    return p;
}
static int idx(const char *s) { for (int i = 0; i < NL; i++) if (s == gh_t[i]) return i; return -1; }
void stub_free(void *p) { if (p) gh_freed++; }
void stub_tlclear(Textlist *l) { }
void stub_append(Textlist *l, char *s)
{
    int w = l == &gh_b.kludge ? LK : l == &gh_b.rfc ? LR : l == &gh_b.body ? LB : l == &gh_b.seenby ? LS : l == &gh_b.path ? LP : LV;
    CALLER_OBL("a part of the body", w != LV || l == &gh_b.via);
    if (!s) return;
    l->n++;
    if (s == buffer && !gh_is_cur()) { gh_def[w]++; for (int i = 0; i < MBUF; i++) { gh_deft[w][i] = s[i]; if (!s[i]) break; } return; }
    int i = s == buffer ? gh_cur : idx(s);
    CALLER_OBL("a line of the message", i >= 0);
    for (int j = 0; j < NL; j++) if (j == gh_c[w]) gh_l[w][j] = i;
    gh_c[w]++;
}
static int gh_eof;
int stub_feof2(FILE *fp) { return gh_eof; }
static int list_is(int w, int *ix, int n)
{
    if (gh_c[w] != n || gh_def[w]) return 0;
    for (int i = 0; i < NL; i++) if (i < n && gh_l[w][i] != ix[i]) return 0;
    return 1;
}
static Node gh_from, gh_to;
static int head[8], body[8], rfc[8], seen[8], path[8], via[8], pend[8];
#ifndef E_LO
# define E_LO 0
# define E_HI 4
#endif
#ifndef PARSE_LO
# define PARSE_LO 0
#endif
static int gh_e;
static void parse_n(int n);
static void parse_e(int e) { gh_e = e; VF_PER("n", PARSE_LO, NL, parse_n); }
static void parse_n(int n)
{
    int area = -1, nh = 0, nb = 0, nr = 0, ns = 0, np = 0, nv = 0, npd = 0, i = 0, tear = -1, org = -1;
    gh_n = n; gh_i = 0;
    for (int j = 0; j < n; j++) { gh_k[j] = (int)nd_range("k", 0, NTAGS - 1); for (int k = 0; k < NTAGS; k++) if (gh_k[j] == k) mkline(j, k); }
    int e = gh_e;
    gh_last = e == 0 ? MSG_END : e == 1 ? MSG_TYPE : e == 2 ? ERROR : n == 0 ? MSG_END : e == 3 ? 10 + MSG_END : 10 + MSG_TYPE;
    if (gh_last >= 10) {
        /* blank last lines without end are no lines */
        REQUIRES(gh_k[n - 1] != BL && gh_k[n - 1] != TE);
        endline(n - 1);         /* it is kept with a line end */
    }
    gh_eof = nd_bool("feof");
    msg_body_init(&gh_b);
    for (int j = 0; j < NLISTS; j++) gh_c[j] = gh_def[j] = 0;
    gh_to.net = VF_CBMC ? 3 : nd_range("net", 0, 65535); gh_to.node = VF_CBMC ? 4 : nd_range("node", 0, 65535);
    VF_PATCH(pkt_get_line, stub_line); VF_PATCH(fglog, stub_log); VF_PATCH(debug, stub_debug); VF_PATCH(feof, stub_feof2);
    VF_PATCH(tl_append, stub_append); VF_PATCH(tl_clear, stub_tlclear); VF_PATCH(strsave, stub_save); VF_PATCH(xfree, stub_free);
    int rc = pkt_get_body_parse((FILE *)&gh_b, &gh_b, &gh_from, &gh_to);
    /* kludges, AREA */
    for (int j = 0; j < n; j++) {
        int k = gh_k[j];
        if (i != j) continue;
        if (k == K || k == PA || k == VI || k == RE) head[nh++] = j, i++;
        else if (k == AR && area < 0) area = j, i++;
    }
    if (nh == 0 && area < 0) { ENSURES("a message without any control line is refused", rc == ERROR); return; }
    if (gh_last == ERROR && !gh_eof) { ENSURES("a read error is reported", rc == ERROR); return; }
    ENSURES("success", rc == OK);
    ENSURES("kludges complete, in order", list_is(LK, head, nh));
    ENSURES("area line", area < 0 ? gh_b.area == NULL : gh_b.area == gh_t[area]);
    int hd = i;
    for (int j = 0; j < n; j++) if (i == j && j < hd + 2 && (gh_k[j] == BL || gh_k[j] == BS)) i++;
    for (int j = 0; j < n; j++) if (i == j && gh_k[j] == RF) { rfc[nr++] = j; i++; }
    ENSURES("headers complete, in order", list_is(LR, rfc, nr));
    int ctl = 0, late = 0;
    int bd = i;
    for (int i = 0; i < n; i++) {
        int k = gh_k[i];
        if (i < bd) continue;
        if (area >= 0 ? k == PA || k == SB : k == VI || k == RE) {
            if (k == PA) path[np++] = i; else if (k == SB) seen[ns++] = i; else via[nv++] = i;
            ctl = 1;
        } else {
            int t = (k == TD || k == TE) && tear < 0, o = k == OR && org < 0;
            if (ctl && !t && !o) late = 1;
            if (t) tear = i;
            if (o) org = i;
            if (t || o) pend[npd++] = i;
            else if (!late) {
                for (int j = 0; j < NL; j++) if (j < npd) body[nb++] = pend[j];
                npd = 0; tear = org = -1;
                body[nb++] = i;
            }
        }
    }
    if (!late) {
        ENSURES("text complete, in order", list_is(LB, body, nb));
        ENSURES("tear line", tear >= 0 ? gh_b.tear == gh_t[tear] : area >= 0 ? gh_b.tear && seq(gh_b.tear, "---\r") : !gh_b.tear);
        ENSURES("origin line", org >= 0 ? gh_b.origin == gh_t[org] : area >= 0 ? gh_b.origin && !gh_b.origin[0] : !gh_b.origin);
    } else {
        int ok = nb <= gh_c[LB];
        for (int j = 0; j < NL; j++) if (j < nb && gh_l[LB][j] != body[j]) ok = 0;
        ENSURES("text before the control lines complete, in order", ok);
    }
    ENSURES("Via lines of netmail", list_is(LV, via, nv));
    if (area >= 0) {
        char d[32]; int m;
        if (ns) ENSURES("SEEN-BY lines", list_is(LS, seen, ns));
        else {
            m = ex_num(d, ex_str(d, 0, "SEEN-BY: "), gh_to.net); d[m++] = '/'; m = ex_num(d, m, gh_to.node); d[m++] = '\r'; d[m] = 0;
            ENSURES("a missing SEEN-BY names us, as a line", gh_c[LS] == 0 && gh_def[LS] == 1 && seq(gh_deft[LS], d));
        }
        if (np) ENSURES("PATH lines", list_is(LP, path, np));
        else {
            m = ex_num(d, ex_str(d, 0, "\001PATH: "), gh_to.net); d[m++] = '/'; m = ex_num(d, m, gh_to.node); d[m++] = '\r'; d[m] = 0;
            ENSURES("a missing PATH names us, as a line", gh_c[LP] == 0 && gh_def[LP] == 1 && seq(gh_deft[LP], d));
        }
    } else ENSURES("no echomail lines in netmail", gh_c[LP] + gh_def[LP] + gh_c[LS] + gh_def[LS] == 0);
    VF_REACH("parse");
}
void h_parse(void) { VF_PER("end", E_LO, E_HI, parse_e); }

/* ---- writing a body ---- */
#ifndef VF_PARSE
static Textlist mklist(char *base, int m)
{
    Textlist l;
    l.first = l.last = NULL; l.n = m;
    for (int i = 1; i >= 0; i--)
        if (i < m) {
            Textline *p = malloc(sizeof(*p));
            REQUIRES(p != NULL);
            p->line = base + 3 * i; p->next = l.first; p->prev = NULL;
            if (l.first) l.first->prev = p; else l.last = p;
            l.first = p;
        }
    return l;
}
void h_write(void)
{
    static char t[9][6];
    MsgBody b;
    char ex[64]; int n = 0;
    int c[9];
    for (int i = 0; i < 9; i++) {
        int one = i == 0 || i == 4 || i == 5;
        c[i] = (int)nd_range("n", 0, one ? 1 : 2);
        for (int j = 0; j < 2; j++) { t[i][3 * j] = nd_char("ch"); t[i][3 * j + 1] = nd_char("ch"); t[i][3 * j + 2] = 0; REQUIRES(t[i][3 * j] && t[i][3 * j + 1]); }
        for (int j = 0; j < 2; j++) if (j < c[i]) for (int k = 0; k < 2; k++) ex[n++] = t[i][3 * j + k];
    }
    ex[n++] = 0;
    b.area = c[0] ? t[0] : NULL; b.kludge = mklist(t[1], c[1]); b.rfc = mklist(t[2], c[2]); b.body = mklist(t[3], c[3]);
    b.tear = c[4] ? t[4] : NULL; b.origin = c[5] ? t[5] : NULL; b.seenby = mklist(t[6], c[6]); b.path = mklist(t[7], c[7]); b.via = mklist(t[8], c[8]);
    FILE *fp = vf_open_out();
    int rc = msg_put_msgbody(fp, &b);
    ENSURES("success", rc == 0);
    size_t k, len; int w;
    len = vf_out_witness(fp, &k, &w);
    ENSURES("all parts in order, and the end mark", len == (size_t)n);
    ENSURES("their text unchanged", k >= len || w == (unsigned char)ex[k]);
    VF_REACH("write");
}

/* ---- one line as text ---- */
static void xlate_n(int n)
{
    char *s = vf_buf("s", n + 1), ex[2 * NF + 2], d[2 * NF + 4]; int k = 0, soft = nd_bool("soft"), size = (int)nd_range("size", 1, 2 * NF + 2);
    for (int i = 0; i < n; i++) REQUIRES(s[i] != 0);
    s[n] = 0;
    memset(d, 1, sizeof(d));
    int rc = msg_xlate_line(d, size, s, soft);
    for (int i = 0; i < n; i++) {
        int c = (unsigned char)s[i];
        if (c == '\n' || (soft && c == 0x8d)) continue;
        if (c == '\r') ex[k++] = '\n';
        else if (c < ' ' && c != '\t' && c != '\f') { ex[k++] = '^'; ex[k++] = c + '@'; }
        else ex[k++] = c;
    }
    ENSURES("success", rc == OK);
    int l = k < size ? k : size - 1;
    for (int i = 0; i < 2 * NF + 2; i++) if (i < l) ENSURES("characters of the line", d[i] == ex[i]);
    ENSURES("terminated", d[l] == 0);
    for (int i = 0; i < 2 * NF + 4; i++) ENSURES("not past the buffer", i < size || d[i] == 1);
    VF_REACH("xlate");
}
void h_xlate(void) { VF_PER("n", 0, NF, xlate_n); }

/* ---- addresses in Origin and MSGID ---- */
static Node gh_pn; static int gh_prc, gh_np, gh_at, gh_len;
static char *gh_src;
/* asc_to_node: any outcome; what it is given is recorded */
int stub_a2n(char *a, Node *n, int w)
{
    ENSURES("an exact address", !w);
    int l = 0;
    for (int i = 0; i < 16; i++) if (a[l]) l++;
    gh_np++; gh_len = l;
    int ok = 0;
    for (int p = 0; p < 16; p++) if (p == gh_at) { ok = 1; for (int i = 0; i < 16; i++) if (i < l && gh_src[p + i] != a[i]) ok = 0; }
    ENSURES("the address part of the line", ok);
    if (gh_prc == OK) *n = gh_pn;
    else { Node x = gh_pn; *n = x; }        /* left anyhow */
    return gh_prc;
}
static void origin_n(int n)
{
    char *s = vf_buf("s", n + 1); Node r, o; int right = -1, left = -1, at;
    for (int i = 0; i < n; i++) REQUIRES(s[i] != 0);
    s[n] = 0; gh_src = s; gh_np = 0;
    gh_pn = vf_node(0); gh_prc = nd_bool("ok") ? OK : ERROR; r = gh_pn;
    for (int i = 0; i < n; i++) { if (s[i] == ')') right = i; if (s[i] == '(') left = i; }
    REQUIRES(left <= right || right < 0);        /* unbalanced: not considered */
    at = left + 1;
    for (int i = 0; i < n; i++) if (i == at && i < right && !(s[i] >= '0' && s[i] <= '9')) at++;
    gh_at = at;
    VF_PATCH(asc_to_node, stub_a2n);
    int rc = msg_parse_origin(s, &r);
    if (left < 0 || right < 0) ENSURES("no parenthesis, no address", rc == ERROR && !gh_np);
    else {
        ENSURES("up to the closing parenthesis", gh_np == 1 && gh_len == right - at);
        ENSURES("its address", (rc == OK) == (gh_prc == OK) && (rc != OK || node_eq(&r, &gh_pn)));
    }
    VF_REACH("origin");
}
void h_origin(void) { ENSURES("no line, no address", msg_parse_origin(NULL, &gh_pn) == ERROR); VF_PER("n", 0, NF, origin_n); }
static void msgid_n(int n)
{
    char *s = vf_buf("s", n + 1); Node r; int sp = -1;
    for (int i = 0; i < n; i++) REQUIRES(s[i] != 0);
    s[n] = 0; gh_src = s; gh_np = 0; gh_at = 0;
    gh_pn = vf_node(0); gh_prc = nd_bool("ok") ? OK : ERROR;
    for (int i = 0; i < n; i++) if (sp < 0 && s[i] == ' ') sp = i;
    VF_PATCH(asc_to_node, stub_a2n);
    int rc = msg_parse_msgid(s, &r);
    ENSURES("needs an address and a serial number", sp >= 0 || (rc == ERROR && !gh_np));
    if (sp >= 0) {
        ENSURES("the first word", gh_np == 1 && gh_len == sp);
        ENSURES("its address", (rc == OK) == (gh_prc == OK) && (rc != OK || node_eq(&r, &gh_pn)));
    }
    VF_REACH("msgid");
}
void h_msgid(void) { ENSURES("no MSGID, no address", msg_parse_msgid(NULL, &gh_pn) == ERROR); VF_PER("n", 0, NF, msgid_n); }

/* ---- kludges ---- */
/* a kludge line's value, by an independent reading of the format: ^A name (blank or colon) value */
static int kval(const char *s, const char *name, int l)
{
    int i;
    if (s[0] != '\001') return -1;
    for (i = 0; i < l; i++) { char c = s[1 + i], d = name[i]; if (c >= 'a' && c <= 'z') c -= 32; if (c != d) return -1; }
    if (s[1 + l] != ' ' && s[1 + l] != ':') return -1;
    i = 1 + l;
    if (s[i] == ':') i++;
    for (int j = 0; j < 12; j++) if (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n') i++;
    return i;
}
#ifndef KL
# define KL 6
#endif
static void kget_n(int n)
{
    Textlist l; Textline ln[3]; int hit = -1, at = 0;
    for (int i = 0; i < n; i++) {
        ln[i].line = vf_buf("k", KL + 1);
        ln[i].line[KL] = 0;
        ln[i].next = i + 1 < n ? &ln[i + 1] : NULL; ln[i].prev = i ? &ln[i - 1] : NULL;
        int k = kval(ln[i].line, "PID", 3);
        if (hit < 0 && k >= 0) hit = i, at = k;
    }
    l.first = n ? &ln[0] : NULL; l.last = n ? &ln[n - 1] : NULL; l.n = n;
    Textline *w = &ln[2];
    char *r = kludge_get(&l, "PID", nd_bool("line") ? &w : NULL);
    ENSURES("found exactly if there is one", (r != NULL) == (hit >= 0));
    for (int i = 0; i < n; i++) if (i == hit) ENSURES("the value in the first one", r == ln[i].line + at && (w == &ln[2] || w == &ln[i]));
    VF_REACH("kget");
}
void h_kget(void) { VF_PER("n", 0, 2, kget_n); }

/* INTL, FMPT and TOPT */
static char *gh_v[3]; static Textline gh_kl[3]; static int gh_del[3], gh_has[3], gh_ok[2]; static Node gh_ad[2]; static Textlist *gh_klist;
char *stub_kget(Textlist *tl, char *name, Textline **line)
{
    int i = name[0] == 'I' ? 0 : name[0] == 'F' ? 1 : 2;
    ENSURES("the address kludges", tl == gh_klist && (seq(name, "INTL") || seq(name, "FMPT") || seq(name, "TOPT")));
    if (line) *line = gh_has[i] ? &gh_kl[i] : NULL;
    return gh_has[i] ? gh_v[i] : NULL;
}
void stub_tldel(Textlist *l, Textline *t) { int i = t == &gh_kl[0] ? 0 : t == &gh_kl[1] ? 1 : 2; ENSURES("a kludge found", l == gh_klist && t == &gh_kl[i] && gh_has[i]); gh_del[i]++; }
int stub_a2n2(char *a, Node *n, int w)
{
    ENSURES("an address of INTL", !w && (seq(a, "D") || seq(a, "S")));
    int i = a[0] == 'D' ? 0 : 1;
    *n = gh_ad[i];
    return gh_ok[i] ? OK : ERROR;
}
static int gh_pt[2];
int stub_atoi(const char *s) { ENSURES("a point number", s == gh_v[1] || s == gh_v[2]); return gh_pt[s == gh_v[2]]; }
static void intl_w(int words)
{
    Message m; MsgBody b; char num[2][8]; int fp, tp, del = nd_bool("del");
    static char *form[4] = { "\r", "D\r", "D S\r\n", "D  S \r" };
    memset(&m, 0, sizeof(m));
    m.node_from = vf_node(0); m.node_to = vf_node(0);
    Node f = m.node_from, t = m.node_to;
    gh_klist = &b.kludge;
    for (int i = 0; i < 3; i++) { gh_has[i] = nd_bool("has"); gh_del[i] = 0; }
    for (int i = 0; i < 2; i++) { gh_ok[i] = nd_bool("ok"); gh_ad[i] = vf_node(0); }
    gh_v[0] = form[words];
    fp = gh_pt[0] = nd_range("fp", 0, 32767); tp = gh_pt[1] = nd_range("tp", 0, 32767);
    for (int i = 0; i < 2; i++) { num[i][0] = '1' + i; num[i][1] = '\r'; num[i][2] = 0; gh_v[1 + i] = num[i]; }
    VF_PATCH(atoi, stub_atoi); VF_PATCH(kludge_get, stub_kget); VF_PATCH(tl_delete, stub_tldel); VF_PATCH(asc_to_node, stub_a2n2);
    kludge_pt_intl(&b, &m, del);
    if (gh_has[0] && words >= 1 && gh_ok[0]) t = gh_ad[0];
    if (gh_has[0] && words >= 2 && gh_ok[1]) f = gh_ad[1];
    if (gh_has[1]) f.point = fp;
    if (gh_has[2]) t.point = tp;
    ENSURES("sender: INTL's second address, point of FMPT", node_eq(&m.node_from, &f));
    ENSURES("recipient: INTL's first address, point of TOPT", node_eq(&m.node_to, &t));
    for (int i = 0; i < 3; i++) ENSURES("these kludges are taken out if wanted, once", gh_del[i] == (del && gh_has[i]));
    VF_REACH("intl");
}
void h_intl(void) { VF_PER("words", 0, 3, intl_w); }
#endif
