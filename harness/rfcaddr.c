/* Contracts of the RFC address functions (src/common/rfcaddr.c, address.c, hosts.c, tmps.c). */
#ifndef NLO
# define NLO 0
#endif
#include "fg.h"
#include "src/common/rfcaddr.c"
#include "src/common/address.c"
#include "src/common/hosts.c"
void stub_log(const char *f, ...) { }
void stub_debug(int l, const char *f, ...) { }
#ifdef VF_CPROVER
int verbose = 0;
char buffer[BUFFERSIZE];
void *xmalloc(int n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void xfree(void *p) { free(p); }
#endif
#define NS VF_BOUND
static int low(int c) { c = (unsigned char)c; return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int sp(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
/* d holds exactly s[a..b) cut to lim - 1 characters */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
static int is_part(const char *d, const char *s, int a, int b, int lim)
{
    int ok = 1, l = b - a;
    if (l > lim - 1) l = lim - 1;
    if (l < 0) l = 0;
    for (int k = 0; k <= NS; k++) if (k <= l) { char c = 0; for (int i = 0; i < NS; i++) if (i == a + k && k < l) c = s[i]; if (d[k] != c) ok = 0; }
    return ok;
}

/* ---- parsing an RFC address ---- */
/* form 0: no name; 1: name <address>; 2: address (name); i and j: the brackets */
static void from_rfc_post(RFCAddr *r, const char *s, int n, int form, int i0, int j0, int sk)
{
    int na, nb, a, b;           /* name, address */
    if (form == 1) { na = sk < i0 ? sk : i0; nb = i0; a = i0 + 1; b = j0; }
    else if (form == 2) { na = i0 + 1; nb = j0; a = sk < i0 ? sk : i0; b = i0; }
    else { na = nb = 0; a = sk; b = n; }
    if (nb - na > MAXUSERNAME - 1) nb = na + MAXUSERNAME - 1;
    if (b - a > MAXINETADDR - 1) b = a + MAXINETADDR - 1;
    /* the name without "..." and spaces around it (other uses of quotes and tabs: not considered) */
    int odd = 0, nq = 0;
    for (int i = 0; i < n; i++) if (i >= na && i < nb) { if (s[i] == '"') nq++; if (s[i] == '\t' || s[i] == '\r' || s[i] == '\n') odd = 1; }
    if (nq) {
        if (!(nq == 2 && nb - na >= 2 && s[na] == '"')) odd = 1;
        int e = nb;
        for (int i = n - 1; i >= 0; i--) if (i == e - 1 && i > na && s[i] == ' ') e--;
        if (nq && !(e > na && s[e - 1] == '"')) odd = 1;
        na++; nb = e - 1;
    }
    for (int i = 0; i < n; i++) if (na == i && i < nb && s[i] == ' ') na++;
    for (int i = n - 1; i >= 0; i--) if (i == nb - 1 && i >= na && s[i] == ' ') nb--;
    ENSURES("the real name, without quotes and surrounding spaces", odd || is_part(r->real, s, na, nb, MAXUSERNAME));
    /* the address */
    for (int i = 0; i < n; i++) if (a == i && i < b && sp(s[i])) a++;
    for (int i = n - 1; i >= 0; i--) if (i == b - 1 && i >= a && sp(s[i])) b--;
    int at = -1, ex = -1, pc = -1;
    for (int i = 0; i < n; i++) if (i >= a && i < b) { if (s[i] == '@') at = i; if (s[i] == '!' && ex < 0) ex = i; if (s[i] == '%') pc = i; }
    if (at >= 0) ENSURES("user@domain, by the last @", is_part(r->user, s, a, at, MAXUSERNAME) && is_part(r->addr, s, at + 1, b, MAXINETADDR));
    else if (ex >= 0) ENSURES("host!user, by the first !", is_part(r->user, s, ex + 1, b, MAXUSERNAME) && is_part(r->addr, s, a, ex, MAXINETADDR));
    else if (pc >= 0) ENSURES("user%domain, by the last %", is_part(r->user, s, a, pc, MAXUSERNAME) && is_part(r->addr, s, pc + 1, b, MAXINETADDR));
    else ENSURES("just a user", is_part(r->user, s, a, b, MAXUSERNAME) && r->addr[0] == 0);
}
#pragma CPROVER check pop
static void from_rfc_f(int n, int form, int i0, int j0)
{
    static char s[NS + 1];
    for (int i = 0; i < n; i++) {
        s[i] = nd_char("c"); REQUIRES(s[i] != 0);
        if (form && i == i0) s[i] = form == 1 ? '<' : '(';
        else if (form && i == j0) s[i] = form == 1 ? '>' : ')';
        else if (form == 1) REQUIRES(!(i < i0 && s[i] == '<') && !(i > j0 && s[i] == '>'));
        else if (form == 2) REQUIRES(!(i < i0 && s[i] == '(') && !(i > j0 && s[i] == ')'));
    }
    s[n] = 0;
    int lt = -1, gt = -1, lp = -1, rp = -1, sk = 0;
    for (int i = 0; i < n; i++) { if (sk == i && sp(s[i])) sk++; if (lt < 0 && s[i] == '<') lt = i; if (lp < 0 && s[i] == '(') lp = i; }
    for (int i = 0; i < n; i++) { if (lt >= 0 && i > lt && s[i] == '>') gt = i; if (lp >= 0 && i > lp && s[i] == ')') rp = i; }
    int isa = lt >= 0 && gt >= 0, isb = lp >= 0 && rp >= 0;
    if (form == 0) REQUIRES(!isa && !isb);
    if (form == 2) REQUIRES(!isa);
    RFCAddr r = rfcaddr_from_rfc(s);
    from_rfc_post(&r, s, n, form, i0, j0, sk);
    VF_REACH("from_rfc");
}
void h_from_rfc(void)
{
    int n = (int)nd_range("n", NLO, NS), f = (int)nd_range("form", 0, 2), i = (int)nd_range("i", 0, NS), j = (int)nd_range("j", 0, NS);
    REQUIRES(f ? i < j && j < n : i == 0 && j == 0);
    for (int cn = NLO; cn <= NS; cn++) if (n == cn) {
        if (f == 0) { from_rfc_f(cn, 0, 0, 0); VF_STOP(); }
        for (int cf = 1; cf < 3; cf++) for (int ci = 0; ci < cn; ci++) for (int cj = ci + 1; cj < cn; cj++)
            if (f == cf && i == ci && j == cj) { from_rfc_f(cn, cf, ci, cj); VF_STOP(); }
    }
}

/* ---- the address of an FTN user ---- */
static Node *gh_node; static int gh_nft;
char *stub_f2i(char *buf, size_t len, Node *n, int force) { ENSURES("address of the node", n == gh_node && !force && len == MAXINETADDR); gh_nft++; strcpy(buf, "I.J"); return buf; }
static int inset(const char *set, int c) { for (int i = 0; i < 16; i++) { if (!set[i]) return 0; if (set[i] == (char)c) return 1; } return 0; }
static RFCAddr gh_r; static int gh_dots, gh_fb, gh_n8, gh_q;
static char gh_s[NS + 1];
static void mk_ftn(int n)
{
    Node nd = vf_node(-1); gh_node = &nd;
    gh_n8 = gh_q = gh_nft = 0;
    for (int i = 0; i < n; i++) { gh_s[i] = nd_char("c"); REQUIRES(gh_s[i] != 0); if (gh_s[i] & 0x80) gh_n8 = 1; if (inset("()<>@,;:\\\"[]", gh_s[i])) gh_q = 1; }
    gh_s[n] = 0;
    gh_dots = nd_bool("dots"); gh_fb = nd_bool("fb");
    dot_names = gh_dots; fallback_username = gh_fb ? "fb" : NULL;
    VF_PATCH(str_ftn_to_inet, stub_f2i);
    gh_r = rfcaddr_from_ftn(gh_s, &nd);
    if (nd.zone == -1) ENSURES("no address: an invalid domain", !strcmp(gh_r.addr, FTN_INVALID_DOMAIN) && !gh_nft);
    else ENSURES("the node's domain", !strcmp(gh_r.addr, "I.J") && gh_nft == 1);
}
static void from_ftn_n(int n)
{
    char u[2 * NS + 3]; int k = 0;
    mk_ftn(n);
    if (gh_n8 && gh_fb) ENSURES("8 bit name: the fallback user", !strcmp(gh_r.user, "fb"));
    else {
        if (gh_q) u[k++] = '"';
        for (int i = 0; i < n; i++) {
            int c = (unsigned char)gh_s[i];
            if (c < ' ') c = '_';
            if (c == '"' || c == '\\') continue;
            u[k++] = c == ' ' ? (gh_dots ? '.' : '_') : c;
        }
        if (gh_q) u[k++] = '"';
        u[k] = 0;
        int ok = 1;
        if (k < MAXUSERNAME - 1) for (int i = 0; i < 2 * NS + 3; i++) if (i <= k && gh_r.user[i] != u[i]) ok = 0;
        ENSURES("the name as one word, quoted where it must be, without quotes and backslashes", ok);
    }
    int ok = 1, len = 0, e;
    char real[NS + 1];
    for (int i = 0; i < n; i++) if (gh_s[i] != '<' && gh_s[i] != '>') real[len++] = gh_s[i];
    e = len;
    for (int i = n - 1; i >= 0; i--) if (i == e - 1 && real[i] == ' ') e--;
    for (int i = 0; i < n; i++) if (i < e && i < MAXUSERNAME - 1 && gh_r.real[i] != real[i]) ok = 0;
    ENSURES("the real name without <> and trailing spaces", ok && (e >= MAXUSERNAME || gh_r.real[e] == 0));
    VF_REACH("from_ftn");
}
void h_from_ftn(void) { VF_PER("n", NLO, NS, from_ftn_n); }

/* ---- as text (the form that from_rfc above takes apart) ---- */
static char *gh_e; static int gh_nf; static TmpS gh_tmp;
char *stub_sprintf(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    gh_e = malloc(64); REQUIRES(gh_e != NULL); gh_nf++;
    vsnprintf(gh_e, 64, fmt, ap); va_end(ap);
    return gh_e;
}
void h_to_asc(void)
{
    RFCAddr r; char e[40]; int k = 0, m = (int)nd_range("mode", 0, 2), real = nd_bool("real");
    vf_str_in(r.user, 3); vf_str_in(r.addr, 3); vf_str_in(r.real, 3);
    rfcaddr_mode(m);
    VF_PATCH(s_printf, stub_sprintf);
    char *t = s_rfcaddr_to_asc(&r, real);
    int nm = real && r.real[0] && m < 2;
    if (nm && m == 1) { k = ex_str(e, k, r.real); k = ex_str(e, k, " <"); }
    k = ex_str(e, k, r.user);
    if (r.addr[0]) { e[k++] = '@'; k = ex_str(e, k, r.addr); }
    if (nm) k = m == 1 ? ex_str(e, k, ">") : ex_str(e, k, " (");
    if (nm && m == 0) { k = ex_str(e, k, r.real); e[k++] = ')'; }
    e[k] = 0;
    ENSURES("user@domain with the real name in the configured form", vf_eq(t, e, k + 1));
    VF_REACH("to_asc");
}

/* ---- domain of a node ---- */
static Host gh_h; static int gh_have;
Host *stub_hosts(Node *n, char *name) { ENSURES("the node is looked up", n == gh_node && name == NULL); return gh_have ? &gh_h : NULL; }
char *stub_pfnz(Node *n) { ENSURES("this node", n == gh_node); return "P"; }
char *stub_zdom(int z) { ENSURES("domain of its zone", z == gh_node->zone); return ".Z"; }
char *stub_hdom(void) { return ".H"; }
void h_f2i(void)
{
    char out[MAXINETADDR], e[32]; int force = nd_bool("force"), k = 0;
    Node n; node_clear(&n);
    n.zone = (int)nd_range("z", 0, 65535); n.point = vf_num("point", 0, 32767); gh_node = &n;
    gh_have = nd_bool("have"); gh_h.flags = nd_bool("pt") ? HOST_POINT : nd_bool("dn") ? HOST_DOWN : 0;
    int hp = nd_bool("hp"); gh_h.node = n; gh_h.node.point = hp ? n.point : 0;
    gh_h.name = nd_bool("name") ? "host.d" : NULL;
    VF_PATCH(hosts_lookup, stub_hosts); VF_PATCH(node_to_pfnz, stub_pfnz); VF_PATCH(cf_zones_inet_domain, stub_zdom); VF_PATCH(cf_hostsdomain, stub_hdom);
    char *r = str_ftn_to_inet(out, sizeof(out), &n, force);
    if (!gh_have) k = ex_str(e, 0, "P.Z");
    else if (!gh_h.name) k = ex_str(e, 0, "P.H");
    else {
        if ((force || (gh_h.flags & HOST_POINT)) && n.point > 0 && !gh_h.node.point) { e[k++] = 'p'; k = ex_num(e, k, n.point); e[k++] = '.'; }
        k = ex_str(e, k, "host.d");
    }
    e[k] = 0;
    ENSURES("registered name, with its point where wanted; else p.f.n.z with the domain", r == out && vf_eq(out, e, k + 1));
    VF_REACH("f2i");
}

/* ---- node of an Internet address ---- */
static char gh_a[NS + 1]; static int gh_n, gh_off, gh_stage, gh_hhit, gh_np, gh_phit, gh_nsuf, gh_zi;
static int gh_sl[8]; static Node gh_hn, gh_pn;
static const char *gh_suf[7] = { "", ".h", ".h.d", ".d", ".e", ".y", "z" };
static int ends(const char *s, const char *suf)     /* length without suf, or -1 */
{
    int l = (int)strlen(suf);
    if (gh_n <= l) return -1;
    for (int i = 0; i < 4; i++) if (i < l && low(s[gh_n - l + i]) != low(suf[i])) return -1;
    return gh_n - l;
}
Host *stub_hosts2(Node *n, char *name)
{
    int st = gh_stage++, l = gh_n - gh_off, ok = 1;
    static const char *add[3] = { "", ".d", ".e" };
    ENSURES("names looked up: as given, in our domain, in the hosts' domain", n == NULL && st < 3);
    for (int i = 0; i < NS; i++) if (i < l && name[i] != gh_a[gh_off + i]) ok = 0;
    ENSURES("without the point, with the domain", ok && !strcmp(name + l, add[st < 3 ? st : 0]));
    gh_h.node = gh_hn;
    return st == gh_hhit ? &gh_h : NULL;
}
int stub_pfnz2(char *s, Node *n)
{
    int k = gh_np++, ok = 1, e = -1;
    for (int i = 0; i < 7; i++) if (i == k) e = gh_sl[i];
    ENSURES("only addresses in our domains are tried, in order", e >= 0);
    for (int i = 0; i < NS; i++) if (i < e && s[i] != gh_a[i]) ok = 0;
    ENSURES("the part before the domain", ok && s[e] == 0);
    *n = gh_pn;
    return k == gh_phit ? OK : ERROR;
}
char *stub_dom(void) { return ".d"; }
char *stub_host(void) { return "h"; }
char *stub_fqdn(void) { return "h.d"; }
char *stub_edom(void) { return ".e"; }
char *stub_trav(int first) { if (first) gh_zi = 0; return gh_zi < 2 ? (char *)gh_suf[5 + gh_zi++] : NULL; }
static void i2f_n(int n)
{
    gh_n = n; gh_off = gh_stage = gh_np = gh_nsuf = 0;
    for (int i = 0; i < n; i++) { gh_a[i] = nd_char("c"); REQUIRES(gh_a[i] != 0); }
    gh_a[n] = 0;
    int pt = -1;
    if (n && (gh_a[0] == 'p' || gh_a[0] == 'P')) {
        int d = 1, v = 0;
        for (int i = 1; i < n; i++) if (d == i && gh_a[i] >= '0' && gh_a[i] <= '9') { d++; v = v * 10 + (gh_a[i] - '0'); REQUIRES(d < 9); }
        if (d < n && gh_a[d] == '.') { pt = v; gh_off = d + 1; }
    }
    for (int i = 0; i < 7; i++) gh_sl[i] = -1;
    for (int i = 0; i < 7; i++) { int e = ends(gh_a, gh_suf[i]); if (e > 0) { for (int j = 0; j < 7; j++) if (j == gh_nsuf) gh_sl[j] = e; gh_nsuf++; } }
    gh_hhit = (int)nd_range("hhit", 0, 3); gh_phit = (int)nd_range("phit", 0, 7);
    gh_hn = vf_node(0); gh_pn = vf_node(0);
    VF_PATCH(hosts_lookup, stub_hosts2); VF_PATCH(pfnz_to_node, stub_pfnz2); VF_PATCH(cf_domainname, stub_dom); VF_PATCH(cf_hostname, stub_host); VF_PATCH(cf_fqdn, stub_fqdn); VF_PATCH(cf_hostsdomain, stub_edom); VF_PATCH(cf_zones_trav, stub_trav);
    Node *r = inet_to_ftn(gh_a);
    if (gh_hhit < 3) {
        if (!gh_hn.point && pt >= 0) gh_hn.point = pt;
        ENSURES("a registered name gives its node, with the point in front", r && node_eq(r, &gh_hn) && gh_stage == gh_hhit + 1 && !gh_np);
    } else if (gh_phit < gh_nsuf) ENSURES("p.f.n.z in one of our domains", r && node_eq(r, &gh_pn) && gh_np == gh_phit + 1);
    else ENSURES("anything else is no FTN address", r == NULL && gh_np == gh_nsuf);
    VF_REACH("i2f");
}
void h_i2f(void) { VF_PER("n", NLO, NS, i2f_n); }

/* ---- local addresses ---- */
static char *gh_given, gh_ad[NS + 1];
RFCAddr stub_fr(char *s) { RFCAddr r; ENSURES("this address", s == gh_given); r.user[0] = r.real[0] = 0; for (int i = 0; i <= NS; i++) r.addr[i] = gh_ad[i]; return r; }
char *stub_toasc(RFCAddr *r, int f) { return "-"; }
static void local_n(int n)
{
    for (int i = 0; i <= NS; i++) gh_ad[i] = 0;
    for (int i = 0; i < n; i++) { gh_ad[i] = nd_char("c"); REQUIRES(gh_ad[i] != 0); }
    gh_given = "x"; gh_n = n;
    VF_PATCH(rfcaddr_from_rfc, stub_fr); VF_PATCH(s_rfcaddr_to_asc, stub_toasc); VF_PATCH(cf_domainname, stub_dom); VF_PATCH(cf_fqdn, stub_fqdn); VF_PATCH(debug, stub_debug);
    int fq = n == 3 && low(gh_ad[0]) == 'h' && gh_ad[1] == '.' && low(gh_ad[2]) == 'd';
    ENSURES("local: no domain or our own", !!addr_is_local(gh_given) == (n == 0 || fq));
    int dm = n == 0 || (n == 1 && low(gh_ad[0]) == 'd') || (n >= 2 && gh_ad[n - 2] == '.' && low(gh_ad[n - 1]) == 'd');
    ENSURES("in the domain: no domain, the domain or below it", !!addr_is_domain(gh_given) == dm);
    ENSURES("no address is not local", !addr_is_local(NULL));
    VF_REACH("local");
}
void h_local(void) { VF_PER("n", 0, NS, local_n); }

/* ---- HOSTS ---- */
static void hosts_n(int n)
{
    static Host l[4]; static char nm[4][3]; char q[3]; Node x = vf_node(0); int byn = nd_bool("byname"), hit = -1;
    vf_str_in(q, 2);
    for (int i = 0; i < n; i++) {
        l[i].node = vf_node(0); vf_str_in(nm[i], 2); l[i].name = nd_bool("hn") ? nm[i] : NULL; l[i].next = i + 1 < n ? &l[i + 1] : NULL;
        int m;
        if (byn) { m = l[i].name != NULL; for (int j = 0; j < 3; j++) if (low(q[j]) != low(nm[i][j])) m = 0; }
        else m = x.zone == l[i].node.zone && x.net == l[i].node.net && x.node == l[i].node.node && (l[i].node.point == 0 || l[i].node.point == x.point);
        if (m && hit < 0) hit = i;
    }
    host_list = n ? l : NULL;
    Host *r = hosts_lookup(byn ? NULL : &x, byn ? q : NULL);
    ENSURES("found exactly if registered", (r != NULL) == (hit >= 0));
    for (int i = 0; i < 4; i++) if (i == hit) ENSURES("the first entry for the node, point or its boss, or name in any case", r == &l[i]);
    VF_REACH("hosts");
}
void h_hosts(void) { VF_PER("n", 0, 3, hosts_n); }
