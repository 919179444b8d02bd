/* Contracts of the FTN address functions (node.c, parsenode.c, address.c, routing.c). */
#include "vf.h"
#if VF_UNBOUNDED
# define VFC_PARSENODE 1
static size_t gh_L;
static const char *gh_s;
#endif
#include "fg.h"
#include "src/common/parsenode.c"
#include "src/common/node.c"
#ifdef VF_ADDR
# include "src/common/address.c"
#endif

static int gh_zone;
#ifndef VF_ADDR
int cf_defzone(void) { return gh_zone; }
int cf_zone(void) { return gh_zone; }
#endif
#ifdef VF_CPROVER
int verbose = 0;
#endif

#if defined(VF_TOKEN) && defined(VF_CPROVER)
/* contract of znfp_get_number (units number, numeral): at a numeral, reads all of it */
int stub_get_number(char **ps)
{
    char *s = *ps;
    int v;
    if (*s == '*') { v = WILDCARD; s++; }
    else if ((s[0] == 'a' || s[0] == 'A') && strnieq(s, "all", 3)) { v = WILDCARD; s += 3; }
    else if (*s < '0' || *s > '9') return ERROR;
    else {
        v = vf_tokval(*s++ - '0');
        CALLER_OBL("numeral ends at a non-digit", !(*s >= '0' && *s <= '9'));
    }
    *ps = s;
    return v;
}
#endif
#if defined(VF_ANYNUM) && defined(VF_CPROVER)
/* the same contract for an arbitrary string: at position i there is either no number
 * (gs_end[i] == i) or the number gs_val[i], which ends at gs_end[i] */
static char *gs_s;
static int gs_n, gs_end[VF_BOUND + 2], gs_val[VF_BOUND + 2];
static void gs_init(char *s)
{
    gs_s = s;
    for (int i = VF_BOUND; i >= 0; i--) {
        gs_end[i] = i; gs_val[i] = ERROR;
        if (s[i] == '*') { gs_end[i] = i + 1; gs_val[i] = WILDCARD; }
        else if (i + 2 < VF_BOUND && (s[i] | 32) == 'a' && (s[i + 1] | 32) == 'l' && (s[i + 2] | 32) == 'l') { gs_end[i] = i + 3; gs_val[i] = WILDCARD; }
        else if (s[i] >= '0' && s[i] <= '9') {
            int e = i < VF_BOUND && s[i + 1] >= '0' && s[i + 1] <= '9' ? gs_end[i + 1] : i + 1;
            if (nondet_vf_bool()) { gs_end[i] = e > i ? e : i + 1; gs_val[i] = nondet_vf_int(); __CPROVER_assume(gs_val[i] >= 0); }
        }
    }
}
static int gs_get(int *i) { int v = gs_val[*i]; *i = gs_end[*i]; return v; }
int stub_get_number(char **ps)
{
    int i = *ps - gs_s;
    CALLER_OBL("inside the string", i >= 0 && i <= VF_BOUND);
    int v = gs_get(&i);
    *ps = gs_s + i;
    return v;
}
#define sp_num(s, i) gs_get(i)
#else
#define gs_init(s)
/* specification of a number at position *i: decimal digits, '*' or "all"; too large ones are errors */
static int sp_num(const char *s, int *i)     /* -1 error */
{
    if (s[*i] == '*') { ++*i; return WILDCARD; }
    if ((s[*i] | 32) == 'a' && (s[*i + 1] | 32) == 'l' && (s[*i + 2] | 32) == 'l') { *i += 3; return WILDCARD; }
    if (s[*i] < '0' || s[*i] > '9') return -1;
    long v = 0;
    int k = *i;
    while (s[k] >= '0' && s[k] <= '9') { if (v > 200000000) return -1; v = v * 10 + s[k++] - '0'; }
    *i = k;
    return (int)v;
}
#endif
/* contract of znfp_parse_partial: any outcome, the same for the same string */
#if defined(VF_ANYPARSE) && defined(VF_CPROVER)
static Node gp_node; static int gp_rc;
static void gp_init(void)
{
    gp_rc = nondet_vf_bool() ? OK : ERROR;
    gp_node.zone = nondet_vf_int(); gp_node.net = nondet_vf_int(); gp_node.node = nondet_vf_int(); gp_node.point = nondet_vf_int();
    gp_node.domain[0] = 0;
    __CPROVER_assume(gp_node.zone >= -2 && gp_node.net >= -2 && gp_node.node >= -2 && gp_node.point >= -2);
}
int stub_parse_partial(char *asc, Node *node)
{
    if (gp_rc == OK && node) *node = gp_node;
    return gp_rc;
}
#else
#define gp_init()
#endif
/* a field: 0..65535, or one of the special values allowed by mask (1 EMPTY, 2 WILDCARD) */
static int fld(int mask)
{
    if ((mask & 1) && nd_bool("empty")) return EMPTY;
    if ((mask & 2) && nd_bool("wild")) return WILDCARD;
    return vf_num("f", 0, 65535);
}
static Node fnode(int mask)
{
    Node n;
    n.zone = fld(mask); n.net = fld(mask); n.node = fld(mask); n.point = fld(mask & 2);
    n.flags = 0;
    for (int i = 0; i < MAX_DOMAIN; i++) n.domain[i] = 0;
    return n;
}
static int same(const Node *a, const Node *b)
{
    return a->zone == b->zone && a->net == b->net && a->node == b->node && a->point == b->point;
}

/* ---- print, then parse: every address incl. wildcards and partial ones ---- */
void h_roundtrip(void)
{
    Node n = fnode(3), m;
    REQUIRES(n.zone == EMPTY || n.net != EMPTY);
    REQUIRES(n.net == EMPTY || n.node != EMPTY);
    char buf[LEN_ZNFP];
    char *r = str_znfp_print(buf, sizeof buf, &n, TRUE, TRUE, TRUE);
    ENSURES("prints into the buffer", r == buf);
    m.zone = 77;
    int rc = znfp_parse_partial(buf, &m);
    ENSURES("what is printed parses", rc == OK);
    ENSURES("to the same address", same(&m, &n) && m.domain[0] == 0);
    VF_REACH("rt");
}
/* with a domain */
void h_roundtrip_dom(void)
{
    Node n = fnode(0), m;
    int l = (int)nd_range("l", 0, VF_BOUND);
    for (int i = 0; i < VF_BOUND; i++)
        if (i < l) { n.domain[i] = nd_char("d"); REQUIRES(n.domain[i] != 0); }
    char buf[LEN_ZNFP];
    str_znfp_print(buf, sizeof buf, &n, TRUE, TRUE, TRUE);
    int rc = znfp_parse_partial(buf, &m);
    ENSURES("what is printed parses", rc == OK);
    ENSURES("to the same address", same(&m, &n));
    ENSURES("and domain", vf_eq(m.domain, n.domain, l) && m.domain[l] == 0);
    VF_REACH("rtd");
}
/* exact text */
void h_text(void)
{
    Node n = fnode(0);
    static char e[64];
    int k = 0, which = (int)nd_range("which", 0, 3);
    if (which != 3) { k = ex_num(e, k, n.zone); e[k++] = ':'; }
    k = ex_num(e, k, n.net); e[k++] = '/'; k = ex_num(e, k, n.node);
    if (which == 0 || (which == 1 && n.point)) { e[k++] = '.'; k = ex_num(e, k, n.point); }
    e[k] = 0;
    char *r, buf[LEN_ZNFP];
    if (which == 0) r = nd_bool("b") ? znfp1(&n) : znfp2(&n);
    else if (which == 1) r = str_znfp_print(buf, sizeof buf, &n, FALSE, FALSE, TRUE);
    else if (which == 2) { n.point = 0; r = nd_bool("b") ? znf1(&n) : znf2(&n); }
    else r = nf1(&n);
    for (int i = 0; i < 28; i++)
        if (i <= k) ENSURES("text Z:N/F.P, Z:N/F or N/F", r[i] == e[i]);
    VF_REACH("text");
}
/* ---- parsing an arbitrary string ---- */
static int ci(const char *s, const char *w)
{
    int i = 0;
    for (; w[i]; i++) if ((s[i] | 32) != w[i]) return 0;
    return s[i] == 0;
}
void h_parse(void)
{
    char *s = vf_str("s", VF_BOUND);
    gs_init(s); gp_init();
    Node n, e;
    int i = 0, bad = 0, v = -1, w;
    e.zone = e.net = e.node = e.point = EMPTY;
    if (ci(s, "all") || ci(s, "world") || (s[0] == '*' && !s[1]))
        e.zone = e.net = e.node = e.point = WILDCARD;
    else {
        if (!s[0]) bad = 1;
        else if (s[0] != '.') { v = sp_num(s, &i); if (v == -1) bad = 1; }
        if (!bad && s[i] == ':') { i++; e.zone = v; v = sp_num(s, &i); if (v == -1) bad = 1; e.net = v; v = -1; }
        if (!bad && s[i] == '/') { i++; if (v != -1) e.net = v; v = sp_num(s, &i); if (v == -1) bad = 1; e.node = v; v = -1; }
        if (!bad && s[i] == '.') { i++; if (v != -1) e.node = v; v = sp_num(s, &i); if (v == -1) bad = 1; e.point = v; v = -1; }
        if (v != -1) e.node = v;
        if (!bad && s[i] && s[i] != '@') bad = 1;
    }
    int rc = znfp_parse_partial(s, &n);
    ENSURES("accepted iff of the form [[Z:]N/]F[.P][@domain], all, world, *", (rc == OK) == !bad && (rc == OK || rc == ERROR));
    if (rc == OK) {
        ENSURES("fields", same(&n, &e));
        VF_REACH("ok");
    } else
        VF_REACH("err");
}
void h_asc(void)
{
    char *s = vf_str("s", VF_BOUND);
    gs_init(s); gp_init();
    Node n, p;
    gh_zone = (int)nd_range("zone", 1, 4095);
    int pf = nd_bool("pf");
    int rp = znfp_parse_partial(s, &p), rc = asc_to_node(s, &n, pf);
    int wild = p.zone == WILDCARD || p.net == WILDCARD || p.node == WILDCARD || p.point == WILDCARD;
    ENSURES("accepted iff a full address without wildcards", (rc == OK) == (rp == OK && !wild && p.net != EMPTY && p.node != EMPTY));
    if (rc == OK) {
        ENSURES("fields, defaults", n.zone == (p.zone == EMPTY ? gh_zone : p.zone) && n.net == p.net && n.node == p.node
                && n.point == (p.point == EMPTY && !pf ? 0 : p.point));
        VF_REACH("ok");
    }
    VF_REACH("asc");
}
/* ---- abbreviated notation ---- */
void h_diff(void)
{
    Node old = fnode(0), n = fnode(0), m;
    char *t = node_to_asc_diff(&n, &old);
    if (same(&n, &old) && n.point == 0) {
        ENSURES("nothing for a repeated node", t[0] == 0);
        VF_REACH("same");
        return;
    }
    int rc = asc_to_node_diff(t, &m, &old);
    ENSURES("abbreviation parses", rc == OK);
    ENSURES("to the address it stands for", same(&m, &n));
    VF_REACH("diff");
}
/* shortest form: leaves out what it shares with the address before */
void h_diff_text(void)
{
    Node old = fnode(0), n = fnode(0);
    REQUIRES(!same(&n, &old));
    static char e[64];
    int k = 0, z = n.zone != old.zone, t = z || n.net != old.net, f = t || n.node != old.node;
    if (z) { k = ex_num(e, k, n.zone); e[k++] = ':'; }
    if (t) { k = ex_num(e, k, n.net); e[k++] = '/'; }
    if (f || n.point == 0) k = ex_num(e, k, n.node);
    if (n.point) { e[k++] = '.'; k = ex_num(e, k, n.point); }
    e[k] = 0;
    char *r = node_to_asc_diff(&n, &old);
    for (int i = 0; i < 28; i++)
        if (i <= k) ENSURES("shortest notation", r[i] == e[i]);
    VF_REACH("text");
}
void h_parse_diff(void)
{
    char *s = vf_str("s", VF_BOUND);
    gs_init(s); gp_init();
    Node old = fnode(1), p, n;
    int rp = znfp_parse_partial(s, &p), rc = znfp_parse_diff(s, &n, &old);
    ENSURES("accepted alike", rc == rp);
    if (rc == OK) {
        int net = p.zone == EMPTY && p.net == EMPTY;
        ENSURES("missing parts from the address before",
                n.zone == (p.zone == EMPTY ? old.zone : p.zone) && n.net == (net ? old.net : p.net)
                && n.node == (net && p.node == EMPTY ? old.node : p.node) && n.point == p.point);
        VF_REACH("ok");
    }
    Node q;
    int ra = asc_to_node_diff(s, &q, &old);
    int wild = rc == OK && (n.zone == WILDCARD || n.net == WILDCARD || n.node == WILDCARD || n.point == WILDCARD);
    int inc = rc == OK && (n.zone == EMPTY || n.net == EMPTY || n.node == EMPTY);
    ENSURES("full address required", (ra == OK) == (rc == OK && !wild && !inc));
    if (ra == OK) ENSURES("fields", q.zone == n.zone && q.net == n.net && q.node == n.node
                          && q.point == (n.point == EMPTY ? 0 : n.point));
    VF_REACH("pd");
}
/* ---- order, equality, patterns: loop free ---- */
static Node anynode(void)
{
    Node n;
    n.zone = nd_int("z"); n.net = nd_int("n"); n.node = nd_int("f"); n.point = nd_int("p");
    n.flags = nd_int("fl");
    n.domain[0] = nd_char("d"); n.domain[1] = 0;
    return n;
}
void h_cmp(void)
{
    Node a = anynode(), b = anynode(), c = anynode(), a0 = a, b0 = b;
    int ab = node_cmp(&a, &b), ba = node_cmp(&b, &a), bc = node_cmp(&b, &c), ac = node_cmp(&a, &c);
    ENSURES("equal iff all four fields agree", node_eq(&a, &b) == same(&a, &b) && (ab == 0) == same(&a, &b));
    ENSURES("antisymmetric", ab == -ba && ab >= -1 && ab <= 1);
    ENSURES("transitive", !(ab <= 0 && bc <= 0) || ac <= 0);
    ENSURES("zone, net, node, point in that order", ab == (a.zone != b.zone ? (a.zone < b.zone ? -1 : 1)
            : a.net != b.net ? (a.net < b.net ? -1 : 1) : a.node != b.node ? (a.node < b.node ? -1 : 1)
            : a.point != b.point ? (a.point < b.point ? -1 : 1) : 0));
    ENSURES("without point", node_np_eq(&a, &b) == (a.zone == b.zone && a.net == b.net && a.node == b.node));
    ENSURES("arguments unchanged", same(&a, &a0) && same(&b, &b0));
    VF_REACH("cmp");
}
void h_match(void)
{
    Node a = anynode(), p = anynode();
#define M1(f) (p.f == EMPTY || p.f == WILDCARD || p.f == a.f)
    ENSURES("pattern match: field by field, wildcard or empty matches all",
            !!node_match(&a, &p) == (M1(zone) && M1(net) && M1(node) && M1(point)));
#define M2(f) (p.f == WILDCARD || p.f == a.f)
    ENSURES("node wildcard compare", !!wild_compare_node(&p, &a) == (M2(zone) && M2(net) && M2(node)));
    Node c;
    node_clear(&c);
    ENSURES("cleared", c.zone == 0 && c.net == 0 && c.node == 0 && c.point == 0 && c.domain[0] == 0);
    node_invalid(&c);
    ENSURES("invalid", c.zone == -1 && c.net == -1 && c.node == -1 && c.point == -1 && c.domain[0] == 0);
    VF_REACH("match");
}
/* ---- p.f.n.z notation ---- */
void h_pfnz(void)
{
    Node n = fnode(0), m;
    gh_zone = 99;
    char *t = node_to_pfnz(&n);
    char buf[64];
    strcpy(buf, t);
    ENSURES("p.f.n.z parses", pfnz_to_node(buf, &m) == OK);
    ENSURES("to the same address", same(&m, &n));
    VF_REACH("pfnz");
}
void h_pfnz_text(void)
{
    Node n = fnode(0);
    static char e[64];
    int k = 0;
    if (n.point) { e[k++] = 'p'; k = ex_num(e, k, n.point); e[k++] = '.'; }
    e[k++] = 'f'; k = ex_num(e, k, n.node); e[k++] = '.'; e[k++] = 'n'; k = ex_num(e, k, n.net);
    e[k++] = '.'; e[k++] = 'z'; k = ex_num(e, k, n.zone); e[k] = 0;
    char *r = node_to_pfnz(&n);
    for (int i = 0; i < 32; i++)
        if (i <= k) ENSURES("text pP.fF.nN.zZ", r[i] == e[i]);
    VF_REACH("pfnz text");
}
void h_pfnz_parse(void)
{
    char *s = vf_str("s", VF_BOUND);
    gs_init(s); gp_init();
    Node e, n;
    int i = 0, bad = 0;
    e.zone = e.net = e.node = e.point = -1;
    gh_zone = (int)nd_range("zone", 1, 4095);
    while (s[i] && !bad) {
        int c = s[i] | 32, v;
        if (!((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z')) || !(c == 'p' || c == 'f' || c == 'n' || c == 'z')) { bad = 1; break; }
        i++;
        v = sp_num(s, &i);
        if (v < 0 || (s[i] && s[i] != '.')) { bad = 1; break; }
        if (s[i]) i++;
        if (c == 'p') e.point = v; else if (c == 'f') e.node = v; else if (c == 'n') e.net = v; else e.zone = v;
    }
    if (e.net == -1 || e.node == -1) bad = 1;
    if (e.zone == -1) e.zone = gh_zone;
    if (e.point == -1) e.point = 0;
    int rc = pfnz_to_node(s, &n);
    ENSURES("accepted iff p.f.n.z with node and net", (rc == OK) == !bad && (rc == OK || rc == ERROR));
    if (rc == OK) { ENSURES("fields", same(&n, &e)); VF_REACH("ok"); }
    VF_REACH("pp");
}
/* a numeral: printed in decimal, read back to the same value and to its end */
void h_numeral(void)
{
    int v = vf_num("v", 0, 65535), wild = nd_bool("wild");
    static char e[16], b[16];
    int k = ex_num(e, 0, v);
    e[k] = 0;
    char *r = znfp_put_number(v, wild);
    for (int i = 0; i < 6; i++)
        if (i <= k) ENSURES("decimal", r[i] == e[i]);
    for (int i = 0; i < 6; i++) b[i] = r[i];
    char c = nd_char("after");
    REQUIRES(!(c >= '0' && c <= '9'));
    b[k] = c; b[k + 1] = 0;
    char *p = b;
    ENSURES("reads back", znfp_get_number(&p) == v && p == b + k);
    r = znfp_put_number(WILDCARD, TRUE);
    ENSURES("wildcard", r[0] == '*' && r[1] == 0);
    p = r;
    ENSURES("reads back", znfp_get_number(&p) == WILDCARD && p == r + 1);
    VF_REACH("numeral");
}
/* ---- numbers of any length ---- */
#if VF_UNBOUNDED
void h_number(void)
{
    gh_L = nondet_vf_size();
    REQUIRES(gh_L < 1000000);
    char *s = malloc(gh_L + 1), *p = s;
    __CPROVER_assume(s != NULL);
    s[gh_L] = 0;
    gh_s = s;
    int v = znfp_get_number(&p);
    ENSURES("a number, a wildcard, or an error", v >= 0 || v == WILDCARD || v == ERROR);
    ENSURES("pointer stays in the string", __CPROVER_same_object(p, s) && __CPROVER_POINTER_OFFSET(p) <= gh_L);
    ENSURES("an error consumes nothing", v != ERROR || p == s);
    ENSURES("a number is read to its last digit", !(v >= 0) || !(*p >= '0' && *p <= '9'));
    VF_REACH("number");
}
#else
void h_number(void)
{
    char *s = vf_str("s", 4 * VF_BOUND), *p = s;
    int v = znfp_get_number(&p);
    ENSURES("a number, a wildcard, or an error", v >= 0 || v == WILDCARD || v == ERROR);
    ENSURES("pointer stays in the string", p >= s && p <= s + strlen(s));
    ENSURES("an error consumes nothing", v != ERROR || p == s);
    ENSURES("a number is read to its last digit", !(v >= 0) || !(*p >= '0' && *p <= '9'));
    VF_REACH("number");
}
#endif
