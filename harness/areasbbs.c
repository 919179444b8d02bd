/* Contracts of AREAS.BBS (src/common/areasbbs.c). */
#ifdef VF_CPROVER
# define VF_OUTCAP 200
#endif
#include "fg.h"
#ifdef VF_CPROVER
/* the line buffer and path arrays scaled down (names and lines here are shorter than 16); the search runs use the real sizes */
# undef BUFFERSIZE
# define BUFFERSIZE 64
# undef MAXPATH
# define MAXPATH 40
# define buffer vf_buffer
extern char buffer[BUFFERSIZE];
#endif
#include "src/common/areasbbs.c"
void stub_log(const char *f, ...) { }
void stub_debug(int l, const char *f, ...) { }
#ifdef VF_CPROVER
int verbose = 0;
char buffer[BUFFERSIZE];
void *xmalloc(int n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void xfree(void *p) { free(p); }
char *strsave(char *s) { char *p = malloc(strlen(s) + 1); __CPROVER_assume(p != NULL); strcpy(p, s); return p; }
#endif

/* ---- one line of AREAS.BBS ---- */
static char *gh_w[12]; static int gh_nw, gh_cur, gh_num[12], gh_ok[12], gh_isn[12]; static Node gh_nd[12];
static char *gh_line; static int gh_nn, gh_zn;
static int widx(const char *p) { for (int i = 0; i < 12; i++) if (i < gh_nw && gh_w[i] == p) return i; return -1; }
char *stub_tok(char *s, const char *d)
{
    CALLER_OBL("the words of this line", (gh_cur == 0) == (s != NULL) && (s == NULL || s == gh_line));
    if (gh_cur >= gh_nw) { gh_cur++; return NULL; }
    return gh_w[gh_cur++];
}
int stub_atoi(const char *s) { int i = widx(s), r = 0; CALLER_OBL("a string", s != NULL); for (int k = 0; k < 12; k++) if (k == i) r = gh_num[k]; return r; }
long stub_atol(const char *s) { return stub_atoi(s); }
int stub_a2n(char *s, Node *n, int x) { int i = widx(s); CALLER_OBL("a string", s != NULL); for (int k = 0; k < 12; k++) if (k == i) { if (gh_ok[k]) { *n = gh_nd[k]; return OK; } } return ERROR; }
static Node gh_old; static int gh_first;
int stub_a2d(char *s, Node *n, Node *old)
{
    int i = -1;
    CALLER_OBL("a string", s != NULL);
    for (int k = 0; k < 12; k++) if (k < gh_nw && (s == gh_w[k] || s == gh_w[k] + 1)) i = k;
    if (gh_first || i < 0 || !gh_isn[i]) ENSURES("the list starts afresh, in our zone", old->zone == gh_zn && old->net == -1 && old->node == -1 && old->point == -1);
    else ENSURES("relative to the node before", node_eq(old, &gh_old));
    for (int k = 0; k < 12; k++) if (k == i && gh_ok[k]) { *n = gh_nd[k]; if (gh_isn[k]) { gh_old = gh_nd[k]; gh_first = 0; } return OK; }
    return ERROR;
}
char *stub_save(char *s) { CALLER_OBL("a string", s != NULL); return s; }
#ifdef VF_CPROVER
int cf_zone(void) { return gh_zn; }
#endif
int stub_zone(void) { return gh_zn; }
/* words of the option with number o; the argument may be missing at the end */
static char *opts[14] = { "-a", "-z", "-l", "-k", "-d", "-s", "-#", "-r", "-p", "-t", "-e", "-n", "-u", "-x" };
static char gh_text[12][16];
static int mode_bool(const char *t, int m, int b)
{
#ifdef VF_CPROVER
    return m >> b & 1;
#else
    return nd_bool(t);
#endif
}
/* m: 1, 2, 4 the first, second, third of the nodes can be read; 8, 16, 32 they are passive; 64 the arguments can be read, 128 the last argument is missing */
static void parse_o(int o1, int o2, int nn, int m)
{
    static char line[2]; AreasBBS e, *p; int k = 0, narg[2], passthru, dirw, ini;
    gh_line = line; gh_cur = gh_nn = 0; gh_first = 1; gh_zn = (int)nd_range("zone", 1, 100);
    for (int i = 0; i < 12; i++) { gh_num[i] = nd_int("num"); gh_ok[i] = mode_bool("ok", m, 6); gh_isn[i] = 0; gh_nd[i].zone = (int)nd_range("z", 1, 32767); gh_nd[i].net = (int)nd_range("net", 0, 65535); gh_nd[i].node = (int)nd_range("node", 0, 65535); gh_nd[i].point = (int)nd_range("point", 0, 65535); gh_nd[i].domain[0] = 0; gh_text[i][0] = 'w'; gh_text[i][1] = 'x'; }
    passthru = mode_bool("pt", m, 3);
    gh_text[0][0] = passthru ? '#' : 'd';
    gh_w[k] = gh_text[0]; k++; gh_w[k] = gh_text[1]; k++;
    ini = 2;
    int oo[2] = { o1, o2 };
    for (int q = 0; q < 2; q++) if (oo[q] >= 0) {
        gh_w[k] = opts[oo[q]]; k++;
        narg[q] = -1;
        if (oo[q] != 6 && oo[q] != 7 && oo[q] != 13) { narg[q] = k; gh_w[k] = gh_text[k]; k++; }
    }
    int pm[3] = { 0, 0, 0 }, n0 = k;
    for (int i = 0; i < nn; i++) { pm[i] = mode_bool("P", m, 3 + i); gh_ok[k] = mode_bool("ok", m, i); gh_text[k][0] = pm[i] ? 'P' : '1'; gh_isn[k] = 1; gh_w[k] = gh_text[k]; k++; }
    gh_nw = k;
    int cutarg = nn == 0 && o1 >= 0 && narg[o2 >= 0 ? 1 : 0] >= 0 && mode_bool("noarg", m, 7);
    if (cutarg) { gh_nw--; narg[o2 >= 0 ? 1 : 0] = -1; }
    VF_PATCH(xstrtok, stub_tok); VF_PATCH(asc_to_node_diff, stub_a2d); VF_PATCH(asc_to_node, stub_a2n); VF_PATCH(strsave, stub_save); VF_PATCH(cf_zone, stub_zone);
#ifndef VF_CPROVER
    for (int i = 2; i < 12; i++) { char c = gh_text[i][0]; sprintf(gh_text[i], "%d", gh_num[i]); if (c != 'w') gh_text[i][0] = c; }
#endif
    p = areasbbs_parse_line(line);
    ENSURES("an entry", p != NULL);
    ENSURES("directory and area", p->dir == gh_text[0] + passthru && p->area == gh_text[1]);
    /* expected */
    e.zone = -1; e.lvl = -1; e.key = e.desc = e.state = NULL; e.time = 0; e.expire_n = e.expire_t = 0; e.uplinks = 1; e.flags = passthru ? AREASBBS_PASSTHRU : 0;
    Node ea; int ea_set = 0, ea_bad = 0, npas = 0, nnod = 0, bad = 0; Node pas[6], nod[3];
    for (int q = 0; q < 2; q++) if (oo[q] >= 0) {
        int a = narg[q], num = 0, ok = 0; char *t = NULL; Node nd = gh_nd[0];
        for (int i = 0; i < 12; i++) if (i == a) { num = gh_num[i]; ok = gh_ok[i]; t = gh_text[i]; nd = gh_nd[i]; }
        if (oo[q] == 0) { if (ok) { ea = nd; ea_set = 1; ea_bad = 0; } else ea_bad = 1; }
        if (oo[q] == 1) e.zone = num;
        if (oo[q] == 2) e.lvl = num;
        if (oo[q] == 3) e.key = t;
        if (oo[q] == 4) e.desc = t;
        if (oo[q] == 5) e.state = t;
        if (oo[q] == 6) e.flags |= AREASBBS_PASSTHRU;
        if (oo[q] == 7) e.flags |= AREASBBS_READONLY;
        if (oo[q] == 8 && ok) pas[npas++] = nd;
        if (oo[q] == 9) e.time = num;
        if (oo[q] == 10) e.expire_n = num;
        if (oo[q] == 11) e.expire_t = num;
        if (oo[q] == 12) e.uplinks = num;
        if (cutarg && q == (o2 >= 0)) { if (oo[q] == 3 || oo[q] == 4 || oo[q] == 5) { char *g = oo[q] == 3 ? p->key : oo[q] == 4 ? p->desc : p->state; ENSURES("missing text is empty", g && g[0] == 0); e.key = p->key; e.desc = p->desc; e.state = p->state; } }
    }
    for (int i = 0; i < nn; i++) if (!bad) {
        if (!gh_ok[n0 + i]) bad = 1;
        else { if (pm[i]) pas[npas++] = gh_nd[n0 + i]; nod[nnod++] = gh_nd[n0 + i]; }
    }
    if (e.zone == -1) e.zone = nnod ? nod[0].zone : 0;
    ENSURES("zone: as given, else that of the first node", p->zone == e.zone);
    ENSURES("level and key", p->lvl == e.lvl && p->key == e.key);
    ENSURES("description and state", p->desc == e.desc && p->state == e.state);
    ENSURES("time and expiry", p->time == e.time && p->expire_n == e.expire_n && p->expire_t == e.expire_t);
    ENSURES("uplinks", p->uplinks == e.uplinks);
    ENSURES("passthru and read-only", p->flags == e.flags);
    if (!ea_bad) ENSURES("own address of the area", ea_set ? node_eq(&p->addr, &ea) : p->addr.zone == -1);
    LNode *l = p->nodes.first;
    for (int i = 0; i < 3; i++) if (i < nnod) { ENSURES("the linked nodes in order", l != NULL && node_eq(&l->node, &nod[i])); l = l->next; }
    ENSURES("no others", l == NULL && p->nodes.size == nnod);
    l = p->passive.first;
    for (int i = 0; i < 6; i++) if (i < npas) { ENSURES("the passive nodes", l != NULL && node_eq(&l->node, &pas[i])); l = l->next; }
    ENSURES("no others passive", l == NULL && p->passive.size == npas);
    VF_REACH("parse");
}
#ifndef PLO
# define PLO 0
# define PHI 7
#endif
#ifndef ALO
# define ALO -1
# define AHI 13
#endif
void h_parse(void)
{
    static const int second[4] = { -1, 12, 8, 7 };      /* none, -u, -p, -r */
    /* number of nodes and mode */
    static const int modes[8][2] = { { 0, 64 }, { 0, 8 | 64 | 128 }, { 0, 0 }, { 1, 1 | 8 | 64 }, { 1, 0 }, { 2, 3 | 64 }, { 2, 3 | 16 | 64 }, { 2, 1 | 8 } };
#ifdef VF_CPROVER
    int a = (int)nd_range("a", ALO, AHI), b = (int)nd_range("b", 0, 3), n = (int)nd_range("mode", 0, 7);
    for (int ca = ALO; ca <= AHI; ca++) for (int cb = 0; cb < 4; cb++) for (int cn = 0; cn < 8; cn++)
        if (a == ca && b == cb && n == cn) { REQUIRES(ca >= 0 || cb == 0); if (ca >= 0 || cb == 0) parse_o(ca, second[cb], modes[cn][0], modes[cn][1]); VF_STOP(); }
#else
    int a = (int)nd_range("a", -1, 13), b = (int)nd_range("b", 0, 3), n = (int)nd_range("nn", 0, 2);
    REQUIRES(a >= 0 || b == 0);
    parse_o(a, second[b], n, 0);
#endif
}
void h_short(void)
{
    static char line[2]; gh_line = line; gh_cur = 0; gh_nw = (int)nd_range("nw", 0, 1); gh_w[0] = "d";
    VF_PATCH(xstrtok, stub_tok);
    ENSURES("a line without directory and area is no entry", areasbbs_parse_line(line) == NULL);
    VF_REACH("short");
}

/* ---- writing ---- */
/* what is printed, as a sequence of characters, numbers and texts that are not looked into */
#ifdef VF_CPROVER
# define NTOK 90
#else
# define NTOK 300
#endif
#define T_NUM 1000000L
#define T_TXT 2000000L
static long gh_t[NTOK], gh_tv[NTOK]; static int gh_tn; static FILE *gh_pf; static const char *gh_known[8];
static void tok(long t, long v) { REQUIRES(gh_tn < NTOK); gh_t[gh_tn] = t; gh_tv[gh_tn] = v; gh_tn++; }
static void tok_s(const char *s)
{
    for (int i = 0; i < 8; i++) if (gh_known[i] && gh_known[i] == s) { tok(T_TXT, i); return; }
    while (*s) tok((unsigned char)*s++, 0);
}
int stub_fputs(const char *s, FILE *fp) { ENSURES("printed to this file", fp == gh_pf); tok_s(s); return 1; }
int stub_fputc(int c, FILE *fp) { ENSURES("printed to this file", fp == gh_pf); tok((unsigned char)c, 0); return c; }
int stub_fprintf(FILE *fp, const char *f, ...)
{
    va_list ap; va_start(ap, f);
#ifndef VF_CPROVER
    if (fp != gh_pf) return vfprintf(fp, f, ap);
#endif
    ENSURES("printed to this file", fp == gh_pf);
    for (; *f; f++) {
        if (*f != '%') { tok((unsigned char)*f, 0); continue; }
        f++;
        if (*f == '%') tok('%', 0);
        else if (*f == 's') tok_s(va_arg(ap, const char *));
        else if (*f == 'c') tok((unsigned char)va_arg(ap, int), 0);
        else if (*f == 'd' || *f == 'u' || *f == 'i') tok(T_NUM, va_arg(ap, int));
        else if (*f == 'l') { f++; tok(T_NUM, va_arg(ap, long)); }
        else ENSURES("a format known here", 0);
    }
    va_end(ap);
    return 1;
}
size_t stub_fwrite(const void *p, size_t n, size_t m, FILE *fp) { ENSURES("printed to this file", fp == gh_pf); for (size_t i = 0; i < n * m; i++) tok(((unsigned char *)p)[i], 0); return m; }
int stub_ferror(FILE *fp) { return 0; }
static AreasBBS gh_e[2]; static int gh_ne;
void stub_psort(LON *l, FILE *fp, int cup) { ENSURES("nodes of the area, uplinks first", l == &gh_e[gh_ne].nodes && cup == gh_e[gh_ne].uplinks); gh_ne++; tok('S', 0); }
int stub_ppas(LON *l, FILE *fp) { ENSURES("passive nodes of the area", l == &gh_e[gh_ne].passive); tok('Q', 0); return 0; }
char *stub_znfp(Node *n) { return n == &gh_e[gh_ne].addr ? "A" : "?"; }
static long ex_t[NTOK], ex_v[NTOK];
static int e_s(int k, const char *s) { while (*s) { ex_t[k] = (unsigned char)*s++; ex_v[k] = 0; k++; } return k; }
static int e_n(int k, long v) { ex_t[k] = T_NUM; ex_v[k] = v; return k + 1; }
static int e_t(int k, int v) { ex_t[k] = T_TXT; ex_v[k] = v; return k + 1; }
static char gh_str[8][3];
/* the options set are those of the mask m */
static const char *descs[4] = { "ab", "\"b", "b\"", "" }, *desce[4] = { "ab", "\\\"b", "b\\\"", "" };
static int pr_area(AreasBBS *p, int i, int m, int k, int dq)
{
    for (int q = 0; q < 4; q++) gh_known[4 * i + q] = gh_str[4 * i + q];
    p->dir = gh_str[4 * i]; p->area = gh_str[4 * i + 1];
    p->flags = (m & 1 ? AREASBBS_PASSTHRU : 0) | (m & 2 ? AREASBBS_READONLY : 0);
    p->zone = m & 4 ? (int)nd_range("z", 0, 32767) : -1; p->addr.zone = m & 8 ? 1 : -1; p->lvl = m & 16 ? (int)nd_range("lvl", 0, 32767) : -1;
    p->key = m & 32 ? gh_str[4 * i + 2] : NULL; p->state = m & 128 ? gh_str[4 * i + 3] : NULL;
    p->desc = m & 64 ? (char *)descs[dq] : NULL;
    p->passive.size = m & 256 ? 2 : 0; p->time = nd_range("time", 0, 2147483647); p->expire_n = m & 512 ? (int)nd_range("en", 1, 9999) : 0; p->expire_t = m & 1024 ? (int)nd_range("et", 1, 9999) : 0;
    p->uplinks = m & 2048 ? (int)nd_range("up", 2, 9999) : 1;
    if (m & 1) k = e_s(k, "#");
    k = e_t(k, 4 * i); k = e_s(k, " "); k = e_t(k, 4 * i + 1); k = e_s(k, " ");
    if (m & 4) { k = e_s(k, "-z "); k = e_n(k, p->zone); k = e_s(k, " "); }
    if (m & 8) k = e_s(k, "-a A ");
    if (m & 16) { k = e_s(k, "-l "); k = e_n(k, p->lvl); k = e_s(k, " "); }
    if (m & 2) k = e_s(k, "-r ");
    if (m & 32) { k = e_s(k, "-k "); k = e_t(k, 4 * i + 2); k = e_s(k, " "); }
    if (m & 256) k = e_s(k, "-p Q ");
    k = e_s(k, "-t "); k = e_n(k, p->time); k = e_s(k, " ");
    if (m & 512) { k = e_s(k, "-e "); k = e_n(k, p->expire_n); k = e_s(k, " "); }
    if (m & 1024) { k = e_s(k, "-n "); k = e_n(k, p->expire_t); k = e_s(k, " "); }
    if (m & 64) { k = e_s(k, "-d \""); k = e_s(k, desce[dq]); k = e_s(k, "\" "); }
    if (m & 128) { k = e_s(k, "-s "); k = e_t(k, 4 * i + 3); k = e_s(k, " "); }
    if (m & 2048) { k = e_s(k, "-u "); k = e_n(k, p->uplinks); k = e_s(k, " "); }
    return e_s(k, "S\n");
}
static void print_m(int m0, int m1, int n, int l1, int dq)
{
    static char dummy; int k = 0;
    gh_pf = (FILE *)&dummy; gh_tn = 0;
    for (int i = 0; i < 8; i++) gh_known[i] = NULL;
    areasbbs_1stline = l1 ? "L" : NULL;
    if (l1) k = e_s(k, "L");
    k = e_s(k, "\n");
    areasbbs_list = n ? &gh_e[0] : NULL; gh_ne = 0;
    gh_e[0].next = n > 1 ? &gh_e[1] : NULL; gh_e[1].next = NULL;
    if (n > 0) k = pr_area(&gh_e[0], 0, m0, k, dq);
    if (n > 1) k = pr_area(&gh_e[1], 1, m1, k, dq ^ 1);
    VF_PATCH(lon_print_sorted, stub_psort); VF_PATCH(lon_print_passive, stub_ppas); VF_PATCH(znfp1, stub_znfp);
    VF_PATCH(fprintf, stub_fprintf); VF_PATCH(fputs, stub_fputs); VF_PATCH(fputc, stub_fputc); VF_PATCH(fwrite, stub_fwrite); VF_PATCH(ferror, stub_ferror);
    int r = areasbbs_print(gh_pf), ok = gh_tn == k;
    gh_pf = NULL;
    for (int i = 0; i < NTOK; i++) if (i < k && i < gh_tn && (gh_t[i] != ex_t[i] || gh_tv[i] != ex_v[i])) ok = 0;
    ENSURES("no error", r == OK);
    ENSURES("first line, then every area with every option that is set", ok);
    VF_REACH("print");
}
#ifdef VF_CPROVER
static void print_i(int i) { static const int masks[8] = { 0xfff, 0x555, 0xaaa, 0x333, 0xccc, 0x0f0, 0xf0f, 0x2b5 }; print_m(masks[i], 0, 1, i & 1, i & 3); }
void h_print(void) { VF_PER("i", PLO, PHI, print_i); }
void h_print2(void) { int n = (int)nd_range("n", 0, 2); if (n == 0) print_m(0, 0, 0, 0, 0); if (n == 2) print_m(64, 97, 2, 1, 2); if (n == 1) print_m(64, 0, 1, 0, 3); }
#else
void h_print(void) { int a = (int)nd_range("m0", 0, 4095), b = (int)nd_range("m1", 0, 4095), n = (int)nd_range("n", 0, 2), l1 = nd_bool("l1"), dq = (int)nd_range("dq", 0, 3); print_m(a, b, n, l1, dq); }
void h_print2(void) { h_print(); }
#endif

/* ---- rewriting the file: the directory as a map from names to contents ----
   contents: 0 no file, 1 the list as it was, 2 the new list complete, 3 part of it, 10.. older lists */
static int gh_norf, gh_fs[7], gh_had, gh_opens, gh_closes, gh_werr, gh_done, gh_last;
static FILE *gh_fp;
static int fno(const char *s)
{
    const char *b = "x/areas.";
    for (int i = 0; i < 8; i++) if (s[i] != b[i]) return -1;
    if (s[8] == 'b' && s[9] == 'b' && s[10] == 's' && s[11] == 0) return 0;
    if (s[8] == 'n' && s[9] == 'e' && s[10] == 'w' && s[11] == 0) return 1;
    if (s[8] == 'o' && s[9] == '0' && s[10] >= '1' && s[10] <= '5' && s[11] == 0) return 2 + s[10] - '1';
    return -1;
}
static void crash_ok(void)
{
    ENSURES("at every step a complete list is on disk", !gh_had || gh_fs[0] == 1 || gh_fs[0] == 2 || (gh_fs[2] == 1 && gh_fs[1] == 2));
    ENSURES("the list in place is never an incomplete one", gh_fs[0] != 3);
}
char *stub_exp(char *d, size_t n, char *s) { CALLER_OBL("the name of AREAS.BBS", s == areasbbs_filename && n <= BUFFERSIZE); strcpy(d, "x/areas.bbs"); return d; }
FILE *stub_fopen(const char *n, const char *m)
{
    ENSURES("the new list is written under its own name", fno(n) == 1 && m[0] == 'w');
    if (nd_bool("openfails")) return NULL;
    gh_fs[1] = 3; gh_opens++; crash_ok();
    return gh_fp;
}
int stub_print(FILE *fp) { ENSURES("written to the new file", fp == gh_fp && gh_opens == 1 && !gh_closes); gh_werr = nd_bool("writeerr"); return gh_werr ? 1 : 0; }
int stub_fclose(FILE *fp)
{
    ENSURES("closed once", fp == gh_fp && ++gh_closes == 1);
    if (nd_bool("closefails")) { gh_werr = 1; return EOF; }
    if (!gh_werr) gh_fs[1] = 2;
    return 0;
}
int stub_unlink(const char *n)
{
    int i = fno(n);
    ENSURES("only the oldest copy, or a new file that failed, is removed", i == 6 || (i == 1 && gh_werr));
    for (int k = 0; k < 7; k++) if (k == i) { if (gh_fs[k] == 0 || nd_bool("unlinkfails")) return -1; gh_fs[k] = 0; }
    crash_ok();
    return 0;
}
int stub_rename(const char *o, const char *n)
{
    int a = fno(o), b = fno(n), v = 0;
    ENSURES("names of the list and its copies", a >= 0 && b >= 0);
    gh_last = 0;
    for (int k = 0; k < 7; k++) if (k == a) v = gh_fs[k];
    if (v == 0 || (!gh_norf && nd_bool("renamefails"))) { gh_last = 1; return -1; }
    for (int k = 0; k < 7; k++) if (k == b) gh_fs[k] = v;
    for (int k = 0; k < 7; k++) if (k == a && a != b) gh_fs[k] = 0;
    crash_ok();
    return 0;
}
void h_rewrite(void)
{
    static char dummy; int oldfs[7], changed = nd_bool("changed"), named = nd_bool("named");
    gh_norf = 0; gh_had = nd_bool("had"); gh_opens = gh_closes = gh_werr = 0; gh_fp = (FILE *)&dummy;
    gh_fs[0] = gh_had ? 1 : 0; gh_fs[1] = nd_bool("oldnew") ? 3 : 0;
    for (int i = 2; i < 7; i++) gh_fs[i] = nd_bool("hist") ? 10 + i : 0;
    for (int i = 0; i < 7; i++) oldfs[i] = gh_fs[i];
    areasbbs_changed_flag = changed; areasbbs_filename = named ? "n" : NULL;
    VF_PATCH(str_expand_name, stub_exp); VF_PATCH(fopen, stub_fopen); VF_PATCH(fclose, stub_fclose); VF_PATCH(areasbbs_print, stub_print); VF_PATCH(unlink, stub_unlink); VF_PATCH(rename, stub_rename);
#ifndef VF_CPROVER
    VF_PATCH(fglog, stub_log);
#endif
    int r = areasbbs_rewrite();
    if (!changed) { ENSURES("nothing to do", r == OK); for (int i = 0; i < 7; i++) ENSURES("nothing touched", gh_fs[i] == oldfs[i]); }
    else {
        ENSURES("success exactly if the new list is in place", (r == OK) == (gh_fs[0] == 2));
        ENSURES("every file opened is closed", gh_opens == gh_closes);
        ENSURES("a list that could not be written changes nothing", !(gh_werr || !gh_opens) || (r == ERROR && gh_fs[0] == oldfs[0]));
        if (r != OK && gh_had) ENSURES("the old list is kept", gh_fs[0] == 1 || gh_fs[2] == 1);
    }
    VF_REACH("rewrite");
}
/* without failures the copies move up by one */
void h_rotate(void)
{
    static char dummy; int oldfs[7];
    gh_had = 1; gh_norf = 1; gh_opens = gh_closes = gh_werr = 0; gh_fp = (FILE *)&dummy;
    gh_fs[0] = 1; gh_fs[1] = 0;
    for (int i = 2; i < 7; i++) gh_fs[i] = nd_bool("hist") ? 10 + i : 0;
    for (int i = 0; i < 7; i++) oldfs[i] = gh_fs[i];
    areasbbs_changed_flag = 1; areasbbs_filename = "n";
    VF_PATCH(str_expand_name, stub_exp); VF_PATCH(fopen, stub_fopen); VF_PATCH(fclose, stub_fclose); VF_PATCH(areasbbs_print, stub_print); VF_PATCH(unlink, stub_unlink); VF_PATCH(rename, stub_rename);
#ifndef VF_CPROVER
    VF_PATCH(fglog, stub_log);
#endif
    int r = areasbbs_rewrite();
    if (r == OK) {
        ENSURES("the old list becomes the first copy", gh_fs[2] == 1 && gh_fs[0] == 2 && gh_fs[1] == 0);
        for (int i = 3; i < 7; i++) ENSURES("older copies move up", oldfs[i - 1] == 0 || gh_fs[i] == oldfs[i - 1]);
    }
    VF_REACH("rotate");
}

/* ---- the list of areas ---- */
static AreasBBS gh_l[4]; static char gh_nm[4][3];
static int lw(int c) { c = (unsigned char)c; return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void chain(const int *idx, int n)
{
    AreasBBS *p = areasbbs_first();
    for (int i = 0; i < 4; i++) if (i < n) { ENSURES("the areas in order", p == &gh_l[idx[i]]); p = p->next; }
    ENSURES("no others, end known", p == NULL && (n == 0 || areasbbs_last == &gh_l[idx[n - 1]]));
}
static int gh_n;
static void list_j(int j)
{
    int idx[5], k = 0, how = nd_bool("one");
    char q[3]; vf_str_in(q, 2);
    areasbbs_list = areasbbs_last = NULL;
    for (int i = 0; i < 4; i++) { gh_l[i].next = NULL; gh_l[i].area = gh_nm[i]; vf_str_in(gh_nm[i], 2); }
    for (int i = 0; i < gh_n; i++) areasbbs_add(&gh_l[i]);
    for (int i = 0; i < gh_n; i++) idx[i] = i;
    chain(idx, gh_n);
    int hit = -1;
    for (int i = 0; i < gh_n; i++) { int m = 1; for (int c = 0; c < 3; c++) { if (lw(q[c]) != lw(gh_nm[i][c])) m = 0; } if (m && hit < 0) hit = i; }
    ENSURES("an area is found by its name in any case, the first one", areasbbs_lookup(q) == (hit < 0 ? NULL : &gh_l[hit]));
    if (j < gh_n) {
        if (how) areasbbs_remove1(&gh_l[j]); else areasbbs_remove(&gh_l[j], j ? &gh_l[j - 1] : NULL);
        for (int i = 0; i < gh_n; i++) if (i != j) idx[k++] = i;
        chain(idx, k);
        gh_l[j].next = NULL;
        areasbbs_add(&gh_l[j]); idx[k++] = j;
        chain(idx, k);
    } else { areasbbs_remove1(NULL); areasbbs_remove1(&gh_l[3]); chain(idx, gh_n); }
    VF_REACH("list");
}
static void list_n(int n) { gh_n = n; VF_PER("j", 0, 3, list_j); }
void h_list(void) { VF_PER("n", 0, 3, list_n); }

/* ---- area states ---- */
static int has(const char *s, int c) { for (int i = 0; i < 12; i++) { if (!s[i]) return 0; if (s[i] == (char)c) return 1; } return 0; }
static void state_n(int n)
{
    char o[4], *s = n < 0 ? NULL : malloc(n + 1), e[14], stold[3]; int k = 0, c = nd_char("new"), give = nd_bool("old");
    REQUIRES(c != 0);
    if (n >= 0) { REQUIRES(s != NULL); for (int i = 0; i < n; i++) { s[i] = nd_char("s"); REQUIRES(s[i] != 0); } s[n] = 0; }
    vf_str_in(stold, 2);
    for (int i = 0; i < n; i++) if (!(give && has(stold, s[i]))) e[k++] = s[i];
    int had = n > 0 && has(s, c);
    for (int i = 0; i < n; i++) if (s[i] == (char)c) ENSURES("state is set", areasbbs_isstate(s, c));
    if (!had) ENSURES("state is not set", !areasbbs_isstate(s, c));
    e[k++] = (char)c; e[k] = 0;
    char *old = s;
    int r = areasbbs_chstate(&s, give ? stold : NULL, c);
    ENSURES("changed unless set already", r == !had && (!had || s == old));
    if (!had) ENSURES("the other states, without the old ones, and the new one", vf_eq(s, e, k + 1));
    VF_REACH("state");
}
void h_state(void) { VF_PER("n", -1, VF_BOUND, state_n); }

/* ---- reading the file ---- */
static int gh_pl; static char gh_c[4]; static AreasBBS gh_pe[4]; static int gh_pok[4];
AreasBBS *stub_parse(char *l)
{
    int i = gh_pl++;
    for (int k = 0; k < 4; k++) if (k == i) ENSURES("every line after the first, without its end", l[0] == gh_c[k] && l[1] == 0);
    ENSURES("no more lines", i < 3);
    for (int k = 0; k < 4; k++) if (k == i) return gh_pok[k] ? &gh_pe[k] : NULL;
    return NULL;
}
static FILE *gh_in; static int gh_noent;
#include <errno.h>
FILE *stub_fexp(char *n, char *m, int ex) { CALLER_OBL("the list", n == areasbbs_filename && !ex); if (gh_in == NULL) errno = gh_noent ? ENOENT : EACCES; return gh_in; }
static void init_n(int n)
{
    static unsigned char d[16]; int k = 0, nl = nd_bool("nl"), crlf = nd_bool("cr"); char c0 = nd_char("c");
    REQUIRES(c0 != 0 && c0 != '\n' && c0 != '\r');
    areasbbs_list = areasbbs_last = NULL; areasbbs_1stline = NULL; gh_pl = 0; areasbbs_changed_flag = 1;
    if (n > 0) {
        d[k++] = c0; if (crlf) d[k++] = '\r'; d[k++] = '\n';
        for (int i = 0; i < n - 1; i++) { gh_c[i] = nd_char("c"); gh_pok[i] = nd_bool("ok"); gh_pe[i].next = NULL; gh_pe[i].dir = gh_pe[i].area = ""; REQUIRES(gh_c[i] != 0 && gh_c[i] != '\r' && gh_c[i] != '\n'); d[k++] = gh_c[i]; if (i < n - 2 || nl) d[k++] = '\n'; }
    }
    gh_in = n >= 0 ? vf_open_in(d, k) : NULL; gh_noent = nd_bool("noent");
    VF_PATCH(fopen_expand_name, stub_fexp); VF_PATCH(areasbbs_parse_line, stub_parse);
    int r = areasbbs_init("a");
    ENSURES("no list is an empty list, an unreadable one an error", r == (n >= 0 || gh_noent ? OK : ERROR));
    ENSURES("unchanged so far", !areasbbs_changed_flag);
    if (n > 0) ENSURES("the first line is kept", areasbbs_1stline[0] == c0 && areasbbs_1stline[1] == 0);
    ENSURES("every line read once", gh_pl == (n > 0 ? n - 1 : 0));
    AreasBBS *p = areasbbs_list;
    for (int i = 0; i < 3; i++) if (i < n - 1 && gh_pok[i]) { ENSURES("every area, in order", p == &gh_pe[i]); p = p->next; }
    ENSURES("no others", p == NULL);
    VF_REACH("init");
}
void h_init(void) { VF_PER("n", -1, 4, init_n); }
