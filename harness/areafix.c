/* Contracts of the AreaFix commands (src/areafix/areafix.c).
   The lists of nodes are their contracts (N01): membership of the asking node per area. */
#include "fg.h"
#ifdef VF_CPROVER
# undef BUFSIZ
# define BUFSIZ 48
#endif
#include "src/areafix/areafix.c"
void stub_log(const char *f, ...) { }
void stub_pr(const char *f, ...) { }
#ifdef VF_CPROVER
int verbose = 0;
char buffer[BUFFERSIZE];
void *xmalloc(int n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void xfree(void *p) { }
#endif

/* ---- the areas ---- */
#define NA 3
static AreasBBS gh_a[NA]; static int gh_n, gh_in[NA], gh_pas[NA], gh_m[NA], gh_rem[NA], gh_same[NA][NA], gh_st[NA], gh_up[NA], gh_rq[NA], gh_wc, gh_changed, gh_bad;
static LNode gh_f[NA]; static Node gh_node; static AreaUplink gh_ul; static Textlist gh_upl; static char gh_name[NA][3], gh_stx[NA][2], gh_key[NA][3];
static int a_of(const LON *l, int *pass) { for (int i = 0; i < NA; i++) { if (l == &gh_a[i].nodes) { *pass = 0; return i; } if (l == &gh_a[i].passive) { *pass = 1; return i; } } return -1; }
int stub_search(LON *l, Node *n)
{
    int pass = 0, i = a_of(l, &pass), r = 0;
    CALLER_OBL("a list of an area", i >= 0);
    if (n == &gh_node) { for (int k = 0; k < NA; k++) if (k == i) r = pass ? gh_pas[k] : gh_in[k]; return r; }
    for (int k = 0; k < NA; k++) for (int j = 0; j < NA; j++) if (k == i && n == &gh_f[j].node) { CALLER_OBL("uplinks among the linked nodes", !pass); r = gh_same[k][j]; }
    return r;
}
void stub_add(LON *l, Node *n)
{
    int pass = 0, i = a_of(l, &pass);
    CALLER_OBL("a list of an area", i >= 0);
    ENSURES("only the asking node is added", n == &gh_node);
    for (int k = 0; k < NA; k++) if (k == i) {
        if (pass) { gh_pas[k] = 1; gh_a[k].passive.size++; }
        else { gh_in[k]++; gh_a[k].nodes.size++; if (!gh_a[k].nodes.first) gh_a[k].nodes.first = &gh_f[k]; }
    }
}
void stub_remove(LON *l, Node *n)
{
    int pass = 0, i = a_of(l, &pass);
    CALLER_OBL("a list of an area", i >= 0);
    ENSURES("only the asking node is removed", n == &gh_node);
    for (int k = 0; k < NA; k++) if (k == i) {
        if (pass) { if (gh_pas[k]) gh_a[k].passive.size--; gh_pas[k] = 0; }
        else if (gh_in[k]) { gh_in[k] = 0; gh_a[k].nodes.size--; if (gh_a[k].nodes.size == 0) gh_a[k].nodes.first = NULL; }
    }
}
AreasBBS *stub_first(void) { return gh_n ? &gh_a[0] : NULL; }
int stub_wild(char *s, char *p, int ic)
{
    int r = 0;
    CALLER_OBL("names compared without case", ic != 0);
    for (int i = 0; i < NA; i++) if (s == gh_a[i].area) r = gh_m[i];
    return r;
}
int stub_iswild(char *s) { for (int i = 0; i < NA; i++) if (s == gh_a[i].area) return 0; return s[0] == '*'; }
void stub_changed(void) { gh_changed = 1; }
void stub_rm1(AreasBBS *p) { for (int i = 0; i < NA; i++) if (p == &gh_a[i]) gh_rem[i] = 1; }
AreaUplink *stub_line(int af, Node *n) { for (int i = 0; i < NA; i++) if (n == &gh_f[i].node) return gh_up[i] ? &gh_ul : NULL; CALLER_OBL("the uplink of an area", 0); return NULL; }
int stub_isst(char *s, char c) { for (int i = 0; i < NA; i++) if (s == gh_stx[i]) return gh_st[i] == c; CALLER_OBL("the state of an area", s == NULL); return 0; }
int stub_chst(char **s, char *o, char c) { for (int i = 0; i < NA; i++) if (s == &gh_a[i].state) { if (gh_st[i] == c) return 0; gh_st[i] = c; return 1; } CALLER_OBL("the state of an area", 0); return 0; }
/* a request to the uplink: the last two parts are the sign and the area */
void stub_req(Textlist *l, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    const char *a = NULL; int sign = 0, k = 0;
    for (int i = 0; i < 24 && f[i]; i++) { if (f[i] == '%') { a = va_arg(ap, char *); k++; if (k == 4) ENSURES("with our password at the uplink", a == gh_ul.password); } if (f[i] == '+' || f[i] == '-') sign = f[i]; }
    va_end(ap);
    ENSURES("a request to the uplink names it, its robot, us, our password and the area", l == &gh_upl && k == 5);
    for (int i = 0; i < NA; i++) if (a == gh_a[i].area) { ENSURES("one request per area", gh_rq[i] == 0); gh_rq[i] = sign; }
}
char *stub_upper(char *s) { return s; }
time_t stub_time(time_t *t) { return 12345; }
short int stub_rules(Node *n, char *a) { return 0; }
int stub_snp(char *d, size_t n, const char *f, ...) { d[0] = 0; return 0; }
char *stub_app(char *d, size_t n, char *s) { return d; }
char *stub_zz(Node *n) { return "-"; }
char *stub_cf(char *s, int f) { return NULL; }
#define PATCH_AREAS VF_PATCH(lon_search, stub_search); VF_PATCH(lon_add, stub_add); VF_PATCH(lon_remove, stub_remove); VF_PATCH(areasbbs_first, stub_first); VF_PATCH(wildmatch, stub_wild); VF_PATCH(is_wildcard, stub_iswild); \
    VF_PATCH(areasbbs_changed, stub_changed); VF_PATCH(areasbbs_remove1, stub_rm1); VF_PATCH(uplinks_line_get, stub_line); VF_PATCH(areasbbs_isstate, stub_isst); VF_PATCH(areasbbs_chstate, stub_chst); VF_PATCH(tl_appendf, stub_req); \
    VF_PATCH(str_upper, stub_upper); VF_PATCH(send_rules, stub_rules); VF_PATCH(znf1, stub_zz); VF_PATCH(znfp1, stub_zz); VF_PATCH(fglog, stub_log)
/* the state before */
static int b_in[NA], b_pas[NA], b_st[NA], b_sz[NA];
static void areas(int n)
{
    static const char states[6] = { 'S', 'U', 'W', 'F', 'P', 0 };
    gh_n = n; gh_changed = 0;
    areafix = nd_bool("areafix"); areafix_printf = stub_pr; fix_name = NULL;
    gh_node = vf_node(1); gh_node.zone = (int)nd_range("nz", 1, 8);
    gh_ul.next = NULL; gh_ul.robotname = "R"; gh_ul.password = "P"; gh_ul.areas = "x"; gh_ul.options = NULL;
    for (int i = 0; i < NA; i++) {
        AreasBBS *p = &gh_a[i];
        gh_name[i][0] = 'A' + i; gh_name[i][1] = 0;
        p->next = i + 1 < n ? &gh_a[i + 1] : NULL; p->area = gh_name[i];
        gh_in[i] = nd_bool("in"); gh_pas[i] = nd_bool("pas"); gh_m[i] = nd_bool("match"); gh_rem[i] = 0; gh_up[i] = nd_bool("uplink"); gh_rq[i] = 0;
        for (int j = 0; j < NA; j++) gh_same[i][j] = i == j ? 1 : nd_bool("same");
        int so = (int)nd_range("st", 0, 5); gh_st[i] = 0; for (int k = 0; k < 6; k++) if (k == so) gh_st[i] = states[k];
        p->state = nd_bool("hasstate") ? gh_stx[i] : NULL; gh_stx[i][0] = (char)gh_st[i]; if (!p->state) gh_st[i] = 0;
        p->nodes.size = gh_in[i] + (int)nd_range("size", 0, 3); p->nodes.first = p->nodes.size ? &gh_f[i] : NULL;
        p->passive.size = gh_pas[i];
        p->lvl = (int)nd_range("lvl", -1, 3); p->zone = (int)nd_range("zone", 0, 8); p->flags = nd_bool("pt") ? AREASBBS_PASSTHRU : 0; p->time = 0;
        gh_key[i][0] = nd_char("k"); gh_key[i][1] = gh_key[i][0] ? nd_char("k") : 0; gh_key[i][2] = 0; p->key = nd_bool("key") ? gh_key[i] : NULL;
        gh_f[i].node = vf_node(1);
        b_in[i] = gh_in[i]; b_pas[i] = gh_pas[i]; b_st[i] = gh_st[i]; b_sz[i] = p->nodes.size;
    }
}
static char gh_akey[3];
static void auth(int ok)
{
    areafix_auth_init();
    authorized = ok; authorized_lvl = (int)nd_range("alvl", -1, 3);
    gh_akey[0] = nd_char("ak"); gh_akey[1] = gh_akey[0] ? nd_char("ak") : 0; gh_akey[2] = 0; authorized_key = gh_akey;
    authorized_lim_G = (int)nd_range("G", -1, 4); authorized_lim_A = (int)nd_range("A", -1, 4);
    lim_g = (int)nd_range("lg", -1, 3);
}
static void e_area(int i, int in, int pas, int rq, int rem)
{
    for (int k = 0; k < NA; k++) if (k == i) {
        ENSURES("linked to the area exactly if it should be, and once", gh_in[k] == in);
        ENSURES("passive exactly if it should be", gh_pas[k] == pas);
        ENSURES("the request to the uplink", gh_rq[k] == rq);
        ENSURES("the area stays in the list unless it is dead", gh_rem[k] == rem);
    }
}
static int common(const char *a, const char *b) { for (int i = 0; i < 3; i++) { if (!a[i]) return 0; for (int j = 0; j < 3; j++) { if (!b[j]) break; if (a[i] == b[j]) return 1; } } return 0; }

/* SUBSCRIBE by mail */
static void sub_n(int n)
{
    char pat[2]; int lg = 0, subs = 0, ch = 0;
    gh_wc = nd_bool("wc");
    areas(n); auth(1);
    PATCH_AREAS;
#ifndef VF_CPROVER
    VF_PATCH(snprintf, stub_snp);
#endif
    pat[0] = gh_wc ? '*' : 'x'; pat[1] = 0;
    for (int i = 0; i < n; i++) if (b_sz[i] > 1 && (b_in[i] || b_pas[i])) lg++;
    int r = cmd_sub(&gh_node, pat, &gh_upl);
    ENSURES("done", r == OK);
    int ei[NA], ep[NA], eq[NA], er[NA], sz[NA];
    for (int i = 0; i < n; i++) { ei[i] = b_in[i]; ep[i] = b_pas[i]; eq[i] = er[i] = 0; sz[i] = b_sz[i]; }
    for (int i = 0; i < n; i++) {
        AreasBBS *p = &gh_a[i];
        if (!gh_m[i] || (subs && !gh_wc)) continue;
        subs++;
        if (p->lvl > authorized_lvl) continue;
        if (p->key && !common(p->key, gh_akey)) continue;
        if (ei[i]) { if (ep[i]) { ep[i] = 0; ch = 1; } continue; }
        if (authorized_lim_G > 0 && authorized_lim_G <= lg) continue;
        if (authorized_lim_A > 0) {
            int la = 0;
            for (int j = 0; j < n; j++) if (sz[j] > 1 && sz[i] > 0 && (ei[j] || ep[j]) && gh_same[j][i]) la++;
            if (authorized_lim_A <= la) continue;
        }
        if (areafix && p->zone != gh_node.zone) {
            if (p->zone == 0) { er[i] = 1; ch = 1; continue; }
            if (p->zone > 6 || gh_node.zone > 6) continue;
        }
        if (sz[i] == 0) { er[i] = 1; ch = 1; continue; }
        ei[i] = 1; ep[i] = 0; ch = 1; sz[i]++; lg++;
        if ((b_st[i] == 'U' || b_st[i] == 'P') && gh_up[i]) eq[i] = '+';
    }
    for (int i = 0; i < n; i++) e_area(i, ei[i], ep[i], eq[i], er[i]);
    ENSURES("the list is rewritten exactly if it changed", gh_changed == ch);
    VF_REACH("sub");
}
#ifndef NMAX
# define NMAX 2
#endif
void h_sub(void) { VF_PER("n", 0, NMAX, sub_n); }

/* UNSUBSCRIBE */
static void unsub_n(int n)
{
    char pat[2]; int ch = 0, w = nd_bool("wc");
    areas(n); auth(1); PATCH_AREAS;
    pat[0] = w ? '*' : 'x'; pat[1] = 0;
    int r = cmd_unsub(&gh_node, pat, &gh_upl);
    ENSURES("done", r == OK);
    for (int i = 0; i < n; i++) {
        int ei = b_in[i], ep = b_pas[i], eq = 0, er = 0;
        if (gh_m[i]) {
            if (b_sz[i] == 0) { er = 1; ch = 1; }
            else if (ei) {
                int pt = (gh_a[i].flags & AREASBBS_PASSTHRU) != 0;
                ei = 0; ep = 0; ch = 1;
                if (b_sz[i] == 2 && pt) { if (gh_up[i]) eq = '-'; else er = 1; }
                if (b_sz[i] == 1 && pt) er = 1;
            }
        }
        e_area(i, ei, ep, eq, er);
    }
    ENSURES("the list is rewritten exactly if it changed", gh_changed == ch);
    VF_REACH("unsub");
}
void h_unsub(void) { VF_PER("n", 0, NMAX, unsub_n); }

/* PASSIVE, ACTIVE */
static void passive_n(int n)
{
    char pat[2]; int ch = 0, stop = 0;
    areas(n); auth(1); PATCH_AREAS;
    pat[0] = nd_bool("all") ? 0 : 'x'; pat[1] = 0;
    int r = cmd_passive(&gh_node, pat, &gh_upl);
    ENSURES("done", r == OK);
    for (int i = 0; i < n; i++) {
        int ei = b_in[i], ep = b_pas[i], eq = 0;
        if (!stop && (gh_m[i] || pat[0] == 0) && ei && !ep && b_sz[i] > 1) {
            if (b_sz[i] == 2 && !gh_up[i]) stop = 1;
            else { if (b_sz[i] == 2) eq = '-'; ei = 0; ep = 1; ch = 1; }
        }
        e_area(i, ei, ep, eq, 0);
    }
    ENSURES("the list is rewritten exactly if it changed", gh_changed == ch);
    VF_REACH("passive");
}
void h_passive(void) { VF_PER("n", 0, NMAX, passive_n); }
static void active_n(int n)
{
    char pat[2]; int ch = 0, stop = 0, self[NA];
    areas(n); auth(1); PATCH_AREAS;
    for (int i = 0; i < n; i++) { self[i] = node_eq(&gh_f[i].node, &gh_node); REQUIRES(b_sz[i] >= 1); }
    pat[0] = nd_bool("all") ? 0 : 'x'; pat[1] = 0;
    int r = cmd_active(&gh_node, pat, &gh_upl);
    ENSURES("done", r == OK);
    for (int i = 0; i < n; i++) {
        int ei = b_in[i], ep = b_pas[i], eq = 0;
        if (!stop && (gh_m[i] || pat[0] == 0) && ep && !ei) {
            if (b_sz[i] == 1 && !self[i] && !gh_up[i]) stop = 1;
            else { if (b_sz[i] == 1 && !self[i]) eq = '+'; ei = 1; ep = 0; ch = 1; }
        }
        e_area(i, ei, ep, eq, 0);
    }
    ENSURES("the list is rewritten exactly if it changed", gh_changed == ch);
    VF_REACH("active");
}
void h_active(void) { VF_PER("n", 0, NMAX, active_n); }

/* DELETE, and every command without authorization */
static void delete_n(int n)
{
    char pat[2]; int ch = 0, may = nd_bool("may");
    areas(n); auth(1); PATCH_AREAS;
    authorized_delete = may;
    pat[0] = 'x'; pat[1] = 0;
    int r = cmd_delete(&gh_node, pat);
    ENSURES("done", r == OK);
    for (int i = 0; i < n; i++) { int er = may && gh_m[i]; if (er) ch = 1; e_area(i, b_in[i], b_pas[i], 0, er); }
    ENSURES("the list is rewritten exactly if it changed", gh_changed == ch);
    VF_REACH("delete");
}
void h_delete(void) { VF_PER("n", 0, NMAX, delete_n); }
static int gh_new;
AreasBBS *stub_new(void) { gh_new++; return &gh_a[0]; }
AreasBBS *stub_lookup(char *s) { return NULL; }
void stub_aadd(AreasBBS *p) { gh_new++; }
static int gh_how;
static void unauth_n(int n)
{
    char pat[4] = "x";
    areas(n); auth(0); PATCH_AREAS; VF_PATCH(areasbbs_new, stub_new); VF_PATCH(areasbbs_add, stub_aadd); VF_PATCH(areasbbs_lookup, stub_lookup);
    gh_new = 0;
    if (gh_how == 0) cmd_sub(&gh_node, pat, &gh_upl);
    if (gh_how == 1) cmd_unsub(&gh_node, pat, &gh_upl);
    if (gh_how == 2) cmd_passive(&gh_node, pat, &gh_upl);
    if (gh_how == 3) cmd_active(&gh_node, pat, &gh_upl);
    if (gh_how == 4) cmd_delete(&gh_node, pat);
    if (gh_how == 5) cmd_new(&gh_node, pat, NULL, FALSE);
    for (int i = 0; i < n; i++) e_area(i, b_in[i], b_pas[i], 0, 0);
    ENSURES("nothing changes without authorization", !gh_changed && gh_new == 0);
    VF_REACH("unauth");
}
static void unauth_h(int h) { gh_how = h; unauth_n(2); }
void h_unauth(void) { VF_PER("how", 0, 5, unauth_h); }

/* ---- who is authorized ---- */
static Passwd gh_pw; static int gh_haspw, gh_eq, gh_tk, gh_ntk, gh_num[6]; static char gh_pwd[2], gh_w[6][4], gh_args[2], gh_sl[2];
Passwd *stub_pwl(const char *c, Node *n) { CALLER_OBL("the password of this node for this program", c == my_context && n == &gh_node); return gh_haspw ? &gh_pw : NULL; }
int stub_ci(const char *a, const char *b) { CALLER_OBL("passwords compared", (a == gh_pwd && b == gh_pw.passwd) || (b == gh_pwd && a == gh_pw.passwd)); return gh_eq ? 0 : 1; }
static char *gh_argc;
char *stub_tok(char *s, const char *d) { CALLER_OBL("the words of the entry", gh_tk ? s == NULL || s == gh_w[3] : s == gh_argc); if (gh_tk >= gh_ntk) { gh_tk++; return NULL; } return gh_w[gh_tk++]; }
int stub_atoi(const char *s) { int r = 0; for (int i = 0; i < 6; i++) if (s == gh_w[i]) r = gh_num[i]; return r; }
char *stub_save(char *s)
{
    if (s != gh_args) return s;
#ifdef VF_CPROVER
    return gh_argc = s;
#else
    return gh_argc = strdup(s);
#endif
}
static int inkey(const char *k, int c) { for (int i = 0; i < 3; i++) { if (!k[i]) return 0; if (k[i] == c) return 1; } return 0; }
static void auth_n(int nw)
{
    int check = nd_bool("check"), given = nd_bool("given");
    gh_node = vf_node(0); gh_haspw = nd_bool("entry"); gh_eq = nd_bool("right"); gh_tk = 0; gh_ntk = nw; gh_argc = NULL;
    gh_pw.passwd = "s"; gh_pw.args = gh_args; gh_pw.next = NULL;
    for (int i = 0; i < 6; i++) { gh_num[i] = nd_int("num"); vf_str_in(gh_w[i], 3); }
    REQUIRES(gh_w[3][0] != '#' && gh_w[3][0] != '/' && gh_w[3][1] != '/' && gh_w[3][2] != '/');
    /* whatever was authorized before */
    areafix_auth_cmd(); authorized_lvl = nd_int("oldlvl"); authorized_key = "$&~%";
#ifndef VF_CPROVER
    for (int i = 0; i < 6; i += i ? 1 : 3) { gh_num[i] &= 63; snprintf(gh_w[i], 4, "%d", gh_num[i]); }
    VF_PATCH(fglog, stub_log);
    VF_PATCH(strcasecmp, stub_ci);
#endif
    if (nw > 4) { gh_w[3][0] = '1'; gh_w[3][1] = '/'; gh_w[3][2] = '2'; gh_w[3][3] = 0; }
    VF_PATCH(passwd_lookup, stub_pwl); VF_PATCH(xstrtok, stub_tok); VF_PATCH(strsave, stub_save);
    int r = areafix_auth_check(&gh_node, given ? gh_pwd : NULL, check);
    int ok = !check || (given && gh_haspw && gh_eq), ent = ok && gh_haspw;
    ENSURES("authorized exactly with the password of the node, or where none is needed", (r != 0) == ok && (authorized != 0) == ok);
    if (ok) ENSURES("the node is the one authorized", node_eq(&authorized_node, &gh_node));
    ENSURES("never as from the command line", !authorized_cmdline);
    ENSURES("level", !ok || authorized_lvl == (ent && nw > 0 ? gh_num[0] : 1));
    if (ok) { if (ent && nw > 1) ENSURES("key", authorized_key == gh_w[1]); else ENSURES("no key", authorized_key[0] == 0); }
    ENSURES("general limit", !ent || authorized_lim_G == (nw > 4 ? gh_num[4] : nw > 3 ? gh_num[3] : -1));
    ENSURES("limit of a group", !ent || (nw > 5 ? authorized_lim_A == gh_num[5] : authorized_lim_A <= 0));
    int k = ent && nw > 1;
    ENSURES("NEW only with $ in the key", (authorized_new != 0) == (k && inkey(gh_w[1], '$')));
    ENSURES("forwarding only with & in the key", (authorized_fwd != 0) == (k && inkey(gh_w[1], '&')));
    ENSURES("DELETE only with ~ in the key", (authorized_delete != 0) == (k && inkey(gh_w[1], '~')));
    ENSURES("LISTALL only with % in the key", (authorized_listall != 0) == (k && inkey(gh_w[1], '%')));
    VF_REACH("auth");
}
void h_auth(void) { VF_PER("nw", 0, 6, auth_n); }

/* PASSWORD */
static int gh_nargs, gh_addrok, gh_authok, gh_calls, gh_zset; static Node gh_new_node;
char *stub_stk(char *s, const char *d) { CALLER_OBL("the arguments", (gh_tk == 0) == (s != NULL)); if (gh_tk >= gh_nargs) { gh_tk++; return NULL; } return gh_w[gh_tk++]; }
int stub_a2n(char *s, Node *n, int x) { CALLER_OBL("the address", s == gh_w[0]); if (gh_addrok) *n = gh_new_node; return gh_addrok ? OK : ERROR; }
int stub_auth(Node *n, char *p, int c)
{
    ENSURES("the password given is checked for the node given", n == &gh_node && node_eq(n, &gh_new_node) && p == gh_w[1] && c && gh_nargs >= 2);
    gh_calls++; areafix_auth_init(); authorized = authorized_new = authorized_fwd = authorized_delete = gh_authok;
    return gh_authok;
}
void stub_setz(int z) { gh_zset = z; }
static void cpw_n(int n)
{
    char arg[2] = "x"; Node old;
    gh_nargs = n; gh_tk = 0; gh_addrok = nd_bool("addr"); gh_authok = nd_bool("auth"); gh_calls = 0; areafix_printf = stub_pr;
    gh_node = vf_node(0); old = gh_node; gh_new_node = vf_node(0); gh_zset = -1;
    areafix_auth_init(); authorized = authorized_new = authorized_fwd = authorized_delete = nd_bool("before");
    VF_PATCH(strtok, stub_stk); VF_PATCH(asc_to_node, stub_a2n); VF_PATCH(areafix_auth_check, stub_auth); VF_PATCH(cf_set_zone, stub_setz); VF_PATCH(fglog, stub_log);
    int r = cmd_passwd(&gh_node, arg);
    int ok = n >= 2 && gh_addrok && gh_authok;
    ENSURES("done", r == OK && gh_calls == (n >= 2 && gh_addrok));
    ENSURES("authorized exactly with address and right password", (authorized != 0) == ok && (authorized_new != 0) == ok && (authorized_fwd != 0) == ok && (authorized_delete != 0) == ok);
    ENSURES("the node changes only to the one named", node_eq(&gh_node, n >= 1 && gh_addrok ? &gh_new_node : &old));
    VF_REACH("cpw");
}
void h_cpw(void) { VF_PER("n", 0, 2, cpw_n); }

/* ---- which command a line is ---- */
static int gh_cmd; static char *gh_arg; static Textlist gh_out;
#define C1(f, c) int f(Node *n) { gh_cmd = c; CALLER_OBL("the node", n == &gh_node); return OK; }
#define C2(f, c) int f(Node *n, char *a) { gh_cmd = c; gh_arg = a; CALLER_OBL("the node", n == &gh_node); return OK; }
#define C3(f, c) int f(Node *n, char *a, Textlist *u) { gh_cmd = c; gh_arg = a; CALLER_OBL("the node", n == &gh_node && u == &gh_upl); return OK; }
C1(s_query, 2) C1(s_unl, 3) C3(s_sub, 4) C3(s_unsub, 5) C1(s_help, 6) C2(s_pw, 7) C1(s_all, 8) C2(s_del, 10) C3(s_pas, 11) C3(s_act, 12)
int s_list(Node *n, int all) { gh_cmd = all ? 1 : 13; CALLER_OBL("the node", n == &gh_node); return OK; }
int s_new(Node *n, char *a, char *d, int inter) { gh_cmd = 9; gh_arg = a; CALLER_OBL("not an internal call", n == &gh_node && !inter); return OK; }
static int gh_plus;
char *s_cf(char *k, int f) { return k[7] == 'S' && gh_plus ? "" : NULL; }       /* AreaFixSubscribeOnlyIfPlus */
static const struct { const char *w; int c; } cmds[] = {
    { "list", 1 }, { "query", 2 }, { "unlinked", 3 }, { "subscribe", 4 }, { "sub", 4 }, { "unsubscribe", 5 }, { "unsub", 5 }, { "help", 6 }, { "passwd", 7 }, { "password", 7 }, { "from", 7 },
    { "listall", 8 }, { "new", 9 }, { "create", 9 }, { "delete", 10 }, { "passive", 11 }, { "pause", 11 }, { "active", 12 }, { "resume", 12 }, { "avail", 13 },
    { "+", 4 }, { "-", 5 }, { "&", 9 }, { "~", 10 }, { "fido.net", 0 }, { "subs", 0 }, { "lis", 0 } };
static void disp_i(int i)
{
    static char line[40]; int k = 0, st; int pc = nd_bool("percent"), sp = (int)nd_range("sp", 0, 2);
    int up = nd_bool("upper"), sep = nd_bool("tab");
    gh_plus = nd_bool("onlyplus"); gh_node = vf_node(0); gh_cmd = -1; gh_arg = NULL; areafix = nd_bool("af");
#ifdef VF_CPROVER
    for (int q = 0; q < 12; q++) if (q == (pc | up << 1) * 3 + sp) { pc = q / 3 & 1; up = q / 6; sp = q % 3; goto known; }
    return;
known:
#endif
    if (pc) line[k++] = '%';
    st = k;
    for (const char *s = cmds[i].w; *s; s++) line[k++] = up && *s >= 'a' && *s <= 'z' ? *s - 32 : *s;
    if (i < 20 || i > 23) { line[k++] = sep ? '\t' : ' '; }
    for (int q = 0; q < sp; q++) line[k++] = ' ';
    int ar = k; line[k++] = 'Q'; line[k] = 0;
    VF_PATCH(cf_get_string, s_cf); VF_PATCH(cmd_list, s_list); VF_PATCH(cmd_query, s_query); VF_PATCH(cmd_unlinked, s_unl); VF_PATCH(cmd_sub, s_sub); VF_PATCH(cmd_unsub, s_unsub); VF_PATCH(cmd_help, s_help);
    VF_PATCH(cmd_passwd, s_pw); VF_PATCH(cmd_listall, s_all); VF_PATCH(cmd_new, s_new); VF_PATCH(cmd_delete, s_del); VF_PATCH(cmd_passive, s_pas); VF_PATCH(cmd_active, s_act); VF_PATCH(areafix_tlprintf, stub_pr);
    areafix_do_cmd(&gh_node, line, &gh_out, &gh_upl);
    int c = cmds[i].c; char *a = line + ar;
    if (c == 0) { if (pc || gh_plus) c = -1; else { c = 4; a = line + st; } }
    ENSURES("the command of the line is carried out, no other", gh_cmd == c);
    if (c == 4 || c == 5 || c == 7 || c >= 9 && c != 13) ENSURES("with its argument", gh_arg == a);
    VF_REACH("disp");
}
#ifndef DLO
# define DLO 0
# define DHI 26
#endif
void h_disp(void) { VF_PER("i", DLO, DHI, disp_i); }

/* ---- a message to AreaFix ---- */
static char gh_l[3][6], *gh_want[3]; static int gh_nw2, gh_done, gh_sent, gh_qd, gh_ld, gh_authd; static Textline gh_tl[3]; static char gh_subj[2];
int s_do(Node *n, char *l, Textlist *o, Textlist *u) { int i = gh_done++; ENSURES("each command once, in order, after the password", gh_authd == 1 && !gh_sent && i < gh_nw2); for (int k = 0; k < 3; k++) if (k == i) ENSURES("the command without leading blanks", l == gh_want[k]); return OK; }
int s_authc(Node *n, char *p, int c) { ENSURES("the first word of the subject is the password", n == &gh_node && p == (gh_nargs ? gh_w[0] : NULL) && c); gh_authd++; return 0; }
void s_send(Textlist *u) { gh_sent++; }
int s_q(Node *n) { ENSURES("after the password", gh_authd == 1); gh_qd++; return OK; }
int s_l(Node *n, int a) { ENSURES("after the password", gh_authd == 1); gh_ld++; return OK; }
static int sp_(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
char *s_strip(char *s) { return s; }
void s_crlf(char *s) { }
static void do_n(int n)
{
    int stop = 0, q = 0, l = 0; Textlist tl;
    gh_node = vf_node(0); gh_nargs = (int)nd_range("nargs", 0, 2); gh_tk = 0; gh_done = gh_sent = gh_qd = gh_ld = gh_authd = gh_nw2 = 0; areafix_printf = stub_pr;
    vf_chars = " -*=20a\t";
    for (int k = 0; k < 4; k++) gh_w[k][0] = gh_w[k][1] = 0;
    int o = (int)nd_range("opt", 0, 2); gh_w[1][0] = '-'; gh_w[1][1] = o == 1 ? 'q' : o == 2 ? 'L' : 'x'; gh_w[1][2] = 0;
    if (gh_nargs > 1) { q = o == 1; l = o == 2; }
    tl.first = n ? &gh_tl[0] : NULL; tl.last = NULL; tl.n = n;
    for (int i = 0; i < n; i++) {
        vf_str_in(gh_l[i], 5); gh_tl[i].line = gh_l[i]; gh_tl[i].next = i + 1 < n ? &gh_tl[i + 1] : NULL; gh_tl[i].prev = NULL;
        char *s = gh_l[i];
        if (stop || (s[0] == ' ' && s[1] == '*' && s[2] == ' ')) continue;
        if (s[0] == '-' && s[1] == '-') { stop = 1; continue; }
        int b = 0;
        for (int c = 0; c < 5; c++) if (b == c && sp_(s[c])) b++;
        for (int c = 0; c < 6; c++) if (c == b && s[c]) gh_want[gh_nw2++] = s + c;
    }
    VF_PATCH(strtok, stub_stk); VF_PATCH(areafix_auth_check, s_authc); VF_PATCH(areafix_do_cmd, s_do); VF_PATCH(send_request, s_send); VF_PATCH(cmd_query, s_q); VF_PATCH(cmd_list, s_l); VF_PATCH(strip_space, s_strip); VF_PATCH(strip_crlf, s_crlf);
    areafix_do(&gh_node, gh_subj, &tl, &gh_out);
    ENSURES("every command up to the signature", gh_done == gh_nw2);
    ENSURES("options of the subject", gh_qd == q && gh_ld == l);
    ENSURES("the requests are sent once, at the end", gh_sent == 1 && gh_authd == 1);
    VF_REACH("do");
}
void h_do(void) { VF_PER("n", 0, 2, do_n); }

static int same(const char *a, const char *b) { for (int i = 0; i < 24; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
#ifdef VF_CPROVER
static char sr_slot[48][24]; static int sr_ns;
char *sr_save(const char *s) { int k = sr_ns++; for (int i = 0; i < 24; i++) { sr_slot[k][i] = s[i]; if (!s[i]) break; } return sr_slot[k]; }
static Textline sr_tls[16]; static int sr_nt;
void sr_append(Textlist *l, char *s) { Textline *p = &sr_tls[sr_nt++]; p->line = sr_save(s); p->next = NULL; tl_add(l, p); }
void sr_clear(Textlist *l) { l->first = l->last = NULL; l->n = 0; }
#else
# define sr_ns gh_tk
# define sr_nt gh_tk
#endif

/* ---- requests to uplinks ---- */
static const char *const sr_addr[3] = { "2:5/11", "2:5/1", "2:5/1.2" };
static const char *const sr_line[9] = { "2:5/11,R0,F0,P0,+A0", "2:5/1,R1,F1,+1,+A0", "2:5/1.2,R2,F2,-2,+A0", "2:5/11,R0,F0,P0,-A1", "2:5/1,R1,F1,+1,-A1", "2:5/1.2,R2,F2,-2,-A1", "2:5/11,R0,F0,P0,+A2", "2:5/1,R1,F1,+1,+A2", "2:5/1.2,R2,F2,-2,+A2" };
static const char *const sr_cmd[3] = { "+A0", "-A1", "+A2" };
static int sr_n, sr_k[3], sr_msgs, sr_cur, sr_done[3], sr_left; static Textline sr_tl[3]; static char sr_buf[3][24]; static Node sr_best, sr_self;
int sr_a2n(char *s, Node *n, int w) { for (int i = 0; i < 3; i++) if (same(s, sr_addr[i])) { n->zone = 2; n->net = 5; n->node = i; n->point = 0; return OK; } CALLER_OBL("the address of the uplink", 0); return ERROR; }
void sr_setbest(int z, int n, int f) { sr_best.node = f; }
Node sr_naddr_s(void) { Node r; r = sr_best; r.zone = 9; return r; }
void sr_appendf(Textlist *l, char *f, ...) { va_list ap; va_start(ap, f); ENSURES("the first command", same(f, "\r\n%s")); tl_append(l, va_arg(ap, char *)); va_end(ap); }
int sr_netmail(Message *m, Textlist *t, char *pr, char *o, char *te)
{
    int k = m->node_to.node; Textline *p = t->first;
    ENSURES("to an uplink of the list, from our address for it", m->node_to.zone == 2 && m->node_to.net == 5 && k >= 0 && k < 3 && m->node_from.zone == 9 && m->node_from.node == k);
    ENSURES("netmail to the robot of the uplink, from ours, with our password there", m->area == NULL && m->name_to[0] == 'R' && m->name_to[1] == '0' + k && m->name_from[0] == 'F' && m->name_from[1] == '0' + k && m->subject[0] == "P+-"[k] && m->subject[1] == '0' + k && !m->name_to[2] && !m->name_from[2] && !m->subject[2]);
    for (int i = 0; i < sr_n; i++) if (sr_k[i] == k) {
        ENSURES("each request is in the message, in order", p != NULL && same(p->line, sr_cmd[i]));
        if (!p) return OK;
        ENSURES("and is sent once", !sr_done[i]);
        sr_done[i] = 1; sr_left--; p = p->next;
    }
    ENSURES("no other request is in the message", p == NULL);
    sr_msgs++;
    return OK;
}
char *sr_outpkt(void) { return "o"; }
void sr_outdir(char *a, char *b) { }
char *sr_afname(void) { return "AreaFix"; }
static void send_i(int c)
{
    Textlist l; int first[3], nf = 0;
    sr_n = c == 0 ? 0 : c < 4 ? 1 : c < 13 ? 2 : 3;
    int v = c == 0 ? 0 : c < 4 ? c - 1 : c < 13 ? c - 4 : c - 13;
    for (int i = 0; i < 3; i++) { sr_k[i] = v % 3; v /= 3; first[i] = 0; sr_done[i] = 0; }
    sr_msgs = 0; sr_left = sr_n; sr_ns = 0; sr_nt = 0;
    l.first = sr_n ? &sr_tl[0] : NULL; l.last = sr_n ? &sr_tl[sr_n - 1] : NULL; l.n = sr_n;
    for (int i = 0; i < sr_n; i++) {
        for (int j = 0; j < 24; j++) { sr_buf[i][j] = sr_line[i * 3 + sr_k[i]][j]; if (!sr_buf[i][j]) break; }
        sr_tl[i].line = sr_buf[i]; sr_tl[i].next = i + 1 < sr_n ? &sr_tl[i + 1] : NULL; sr_tl[i].prev = i ? &sr_tl[i - 1] : NULL;
        if (!first[sr_k[i]]) nf++;
        first[sr_k[i]] = 1;
    }
    VF_PATCH(asc_to_node, sr_a2n); VF_PATCH(cf_set_best, sr_setbest); VF_PATCH(cf_n_addr, sr_naddr_s); VF_PATCH(tl_appendf, sr_appendf); VF_PATCH(outpkt_netmail, sr_netmail);
    VF_PATCH(cf_p_outpkt, sr_outpkt); VF_PATCH(pkt_outdir, sr_outdir); VF_PATCH(areafix_name, sr_afname); VF_PATCH(fglog, stub_log);
    send_request(&l);
    ENSURES("one message per uplink, and every request is in one", sr_msgs == nf && sr_left == 0);
    VF_REACH("send");
}
#ifndef CLO
# define CLO 0
# define CHI 39
#endif
void h_send(void) { VF_PER("c", CLO, CHI, send_i); }

/* ---- NEW ---- */
static const char *const nw_o[12] = { "", "-#", "-p", "-r", "-l", "-k", "-d", "-z", "-a", "-s", "-e", "-n" };
static const char *const nw_v[12] = { "", "", "", "", "4", "KK", "DD", "7", "2:5/1", "U", "30", "31" };
static AreasBBS nw_a; static char nw_line[2], *nw_list; static char *nw_tok[8]; static int nw_nt, nw_i, nw_inlist, nw_exists, nw_forb, nw_char, nw_prl, nw_cmd, nw_subs, nw_added, nw_nn, nw_ran; static Node nw_nodes[4], nw_s[2]; static char nw_name[3], nw_cf[10];
char *nw_xtok(char *s, const char *d)
{
    if (s == nw_line) { nw_i = 0; nw_inlist = 0; }
    else if (s) { ENSURES("the configured list is not damaged", s != nw_cf && same(s, "n0 n1")); nw_i = 0; nw_inlist = 1; }
    if (nw_inlist) return nw_i < 2 ? (nw_i++ ? "n1" : "n0") : NULL;
    if (nw_i >= nw_nt) { nw_i = 99; return NULL; }
    CALLER_OBL("no word after the end", nw_i < 8);
    return nw_tok[nw_i++];
}
AreasBBS *nw_lookup(char *s) { return nw_exists ? &gh_a[0] : NULL; }
int nw_forbidden(char *s) { return nw_forb; }
char *nw_get(char *k, int f)
{
    if (same(k, "ForbiddenChar")) return nw_char == 1 ? "!Y" : nw_char ? "!?" : NULL;
    if (same(k, "IgnorePRLKey")) return nw_prl ? "" : NULL;
    if (same(k, "AutoCreateCmd")) return nw_cmd ? "cmd" : NULL;
    if (k[19] == 'o' || !f) return NULL;                 /* AutoCreateSubscribeFileechoNodes; only one line */
    if (k[10] == 'S') return nw_subs ? nw_cf : NULL;
    return NULL;
}
AreasBBS *nw_new(void) { return &nw_a; }
void nw_add(AreasBBS *p) { ENSURES("the new area", p == &nw_a); nw_added++; }
void nw_lon(LON *l, Node *n) { ENSURES("nodes of the new area", l == &nw_a.nodes); if (nw_nn < 4) nw_nodes[nw_nn] = *n; nw_nn++; }
int nw_run(char *s) { nw_ran++; return nd_bool("rc"); }
static int nw_good[2];
int nw_diff(char *s, Node *n, Node *o) { int k = s[1] - '0', r = nw_good[k]; if (r) *n = nw_s[k]; return r ? OK : ERROR; }
int nw_asc(char *s, Node *n, int w) { CALLER_OBL("-a", same(s, "2:5/1")); n->zone = 2; n->net = 5; n->node = 1; n->point = 0; return OK; }
int nw_atoi(const char *s) { return s[0] == '4' ? 4 : s[0] == '7' ? 7 : s[1] == '0' ? 30 : 31; }
#ifdef VF_CPROVER
int cf_zone(void) { return 2; }
#endif
static int n_is(const char *t, const char *want) { return want ? t && same(t, want) : t == NULL; }
static void new_o(int c)
{
    int o = c < 4 ? 0 : c < 7 ? c - 3 : c < 23 ? 4 + (c - 7) / 2 : 4, miss = c < 7 ? 0 : (c - 7) % 2;
    int inter = nd_bool("inter"), dw = nd_bool("dwnl"), ok0 = 1;
    if (c >= 23) inter = c >= 25;
    areafix_auth_init();
    areafix = TRUE; areafix_printf = stub_pr; create_log_file = NULL; fix_name = NULL;
    authorized = nd_bool("auth"); authorized_new = nd_bool("anew"); authorized_fwd = nd_bool("afwd"); authorized_cmdline = nd_bool("cmdline");
    nw_exists = nd_bool("exists"); nw_forb = nd_bool("forb"); nw_char = c < 3 ? c : 0; nw_prl = c >= 23 ? 1 : o == 4 ? 0 : nd_bool("prl"); nw_cmd = nd_bool("cmd"); nw_subs = nd_bool("subs");
    nw_added = nw_nn = nw_ran = gh_changed = 0; nw_i = 0; nw_inlist = 0; sr_ns = 0;
    gh_node = vf_node(0); nw_s[0] = gh_node; nw_s[0].net = 1; nw_s[1] = gh_node; nw_s[1].net = 2;
    nw_name[0] = 'X'; nw_name[1] = 'Y'; nw_name[2] = 0;
    nw_cf[0] = 'n'; nw_cf[1] = '0'; nw_cf[2] = ' '; nw_cf[3] = 'n'; nw_cf[4] = '1'; nw_cf[5] = 0;
    nw_line[0] = 'x'; nw_line[1] = 0; nw_good[0] = nd_bool("good0"); nw_good[1] = nd_bool("good1");
    nw_nt = 0;
    if (c != 3) {
        nw_tok[nw_nt++] = nw_name;
        if (o) { nw_tok[nw_nt++] = (char *)nw_o[o]; if (o > 3) { if (!miss) { nw_tok[nw_nt++] = (char *)nw_v[o]; nw_tok[nw_nt++] = "-r"; } } else nw_tok[nw_nt++] = "-r"; }
    } else ok0 = 0;
    memset(&nw_a, 0, sizeof nw_a); nw_a.addr.zone = nw_a.addr.net = nw_a.addr.node = nw_a.addr.point = -1;
    VF_PATCH(xstrtok, nw_xtok); VF_PATCH(areasbbs_lookup, nw_lookup); VF_PATCH(areafix_check_forbidden_area, nw_forbidden); VF_PATCH(cf_get_string, nw_get); VF_PATCH(areasbbs_new, nw_new); VF_PATCH(areasbbs_add, nw_add);
    VF_PATCH(lon_add, nw_lon); VF_PATCH(run_system, nw_run); VF_PATCH(asc_to_node_diff, nw_diff); VF_PATCH(asc_to_node, nw_asc); VF_PATCH(areasbbs_changed, stub_changed); VF_PATCH(str_upper, stub_upper); VF_PATCH(fglog, stub_log); VF_PATCH(znf1, stub_zz); VF_PATCH(znfp1, stub_zz);
    int may = authorized && (authorized_new || (authorized_fwd && inter));
    int made = may && ok0 && !nw_exists && nw_char != 1 && (authorized_cmdline || !nw_forb);
    int r = cmd_new(&gh_node, nw_line, dw ? "d" : NULL, inter);
    ENSURES("an area is created exactly if the node may do that and the area does not exist and is not forbidden", nw_added == made);
    if (made) {
        int opt = !nw_prl || inter, has = o < 4 || !miss;
        ENSURES("done", r == OK);
        ENSURES("the area named", same(nw_a.area, "XY"));
        ENSURES("zone", nw_a.zone == (o == 7 && has ? 7 : gh_node.zone));
        ENSURES("flags", nw_a.flags == (((o == 1 || o == 2) && opt && (!dw || inter) ? AREASBBS_PASSTHRU : 0) | (o != 0 && (o == 3 || has) && opt ? AREASBBS_READONLY : 0)));
        ENSURES("level", nw_a.lvl == (o == 4 && has && opt ? 4 : 0));
        ENSURES("key, description, state, directory", n_is(nw_a.key, o == 5 && has ? "KK" : NULL) && n_is(nw_a.desc, o == 6 && has ? "DD" : NULL) && n_is(nw_a.state, o == 9 && has ? "U" : "S") && n_is(nw_a.dir, "-"));
        ENSURES("our address in the area", o == 8 && has ? nw_a.addr.zone == 2 && nw_a.addr.net == 5 && nw_a.addr.node == 1 : nw_a.addr.zone == -1);
        ENSURES("expiry", nw_a.expire_n == (o == 10 && has ? 30 : 0) && nw_a.expire_t == (o == 11 && has ? 31 : 0));
        ENSURES("the asking node is linked first", nw_nn >= 1 && node_eq(&nw_nodes[0], &gh_node));
        ENSURES("then the nodes of AutoCreateSubscribeNodes", nw_nn == 1 + (nw_subs ? nw_good[0] + nw_good[1] : 0));
        if (nw_subs) for (int k = 0; k < 2; k++) if (nw_good[k]) ENSURES("each of these nodes", node_eq(&nw_nodes[k == 0 ? 1 : 1 + nw_good[0]], &nw_s[k]));
        ENSURES("the list is rewritten, or the script run", nw_ran == (nw_cmd != 0) && (gh_changed != 0) == (nw_cmd == 0));
        ENSURES("the configuration is unchanged", same(nw_cf, "n0 n1"));
    } else ENSURES("nothing is done otherwise", nw_nn == 0 && nw_ran == 0 && !gh_changed);
    VF_REACH("new");
}
#ifndef OLO
# define OLO 0
# define OHI 26
#endif
void h_new(void) { VF_PER("o", OLO, OHI, new_o); }
