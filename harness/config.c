/* Contracts of the configuration (src/common/config.c). */
#include "fg.h"
#include "src/common/config.c"
void stub_log(const char *f, ...) { }
void stub_debug(int l, const char *f, ...) { }
char *stub_z(Node *n) { return "-"; }
#ifdef VF_CPROVER
int verbose = 0;
char buffer[BUFFERSIZE];
void *xmalloc(int n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void xfree(void *p) { free(p); }
#endif
#ifndef NA
# define NA MAXADDRESS
#endif
static void addrs(int n)
{
    scf_naddr = scf_ia = n;
    for (int i = 0; i < MAXADDRESS; i++)
        if (i < n) { scf_addr[i].addr = vf_node(0); scf_addr[i].zone = scf_addr[i].addr.zone; scf_addr[i].uplink = vf_node(0); scf_addr[i].gateaddr = vf_node(0); }
}
static void patch(void) { VF_PATCH(fglog, stub_log); VF_PATCH(debug, stub_debug); VF_PATCH(znfp1, stub_z); VF_PATCH(znfp2, stub_z); }
/* index the specification chooses: same node, else same net, else same zone, else the first */
static int best(int z, int n, int f, int cnt)
{
    for (int l = 0; l < 3; l++)
        for (int i = 0; i < MAXADDRESS; i++)
            if (i < cnt && scf_addr[i].addr.zone == z && (l > 1 || scf_addr[i].addr.net == n) && (l > 0 || scf_addr[i].addr.node == f)) return i;
    return -1;
}
void h_best(void)
{
    int n = (int)nd_range("n", 0, MAXADDRESS), ix = -7, wi = nd_bool("idx"), wu = nd_bool("uplink");
    Node d = vf_node(-1), aka, up;
    addrs(n); patch();
    node_invalid(&aka); up = aka;
    int rc = cf_get_best(&d, &aka, wu ? &up : NULL, wi ? &ix : NULL), e = best(d.zone, d.net, d.node, n);
    if (n == 0) ENSURES("no address configured", rc == -1);
    else {
        ENSURES("closest of our addresses: node, net, zone", rc == (e < 0));
        if (e < 0) e = 0;
        for (int i = 0; i < MAXADDRESS; i++)
            if (i == e) {
                ENSURES("that address, else the first one", node_eq(&aka, &scf_addr[i].addr));
                ENSURES("its uplink", !wu || node_eq(&up, &scf_addr[i].uplink));
                ENSURES("its index", ix == (wi ? i : -7));
            }
    }
    VF_REACH("best");
}
/* the current address */
void h_curr(void)
{
    int n = (int)nd_range("n", 1, MAXADDRESS), how = (int)nd_range("how", 0, 1);
    Node d = vf_node(0), e, x;
    addrs(n); patch();
    scf_c_addr = vf_node(-1); scf_c_uplink = vf_node(-1); scf_zone = 9999; scf_index = 77;
    int b = best(d.zone, -1, -1, n);
    if (how) cf_set_curr(&d); else cf_set_zone(d.zone);
    ENSURES("current zone", cf_zone() == d.zone);
    if (b < 0) b = 0;
    for (int i = 0; i < MAXADDRESS; i++)
        if (i == b) {
            e = how ? d : scf_addr[i].addr;
            ENSURES("our address for the zone, else the first one, or the one given", (x = cf_n_addr(), node_eq(&x, &e)) && node_eq(cf_addr(), &e));
            ENSURES("the zone's uplink", (x = cf_n_uplink(), node_eq(&x, &scf_addr[i].uplink)));
            ENSURES("the main address is the first one", node_eq(cf_main_addr(), &scf_addr[0].addr));
        }
    ENSURES("default zone is the first address'", cf_defzone() == scf_addr[0].addr.zone);
    VF_REACH("curr");
}
/* zones */
static char zt[3][MAXADDRESS][2];
void h_zones(void)
{
    int n = (int)nd_range("n", 0, MAXADDRESS), z = (int)nd_range("z", 1, 65535), e = -1, d = -1, k = (int)nd_range("k", -1, MAXADDRESS + 1);
    scf_nzones = n; patch();
    for (int i = 0; i < MAXADDRESS; i++)
        if (i < n) { scf_zones[i].zone = (int)nd_range("zone", 0, 65535); scf_zones[i].inet_domain = zt[0][i]; scf_zones[i].ftn_domain = zt[1][i]; scf_zones[i].out = zt[2][i]; }
    for (int i = MAXADDRESS - 1; i >= 0; i--)
        if (i < n) { if (scf_zones[i].zone == z) e = i; if (scf_zones[i].zone == 0) d = i; }
    char *inet = cf_zones_inet_domain(z), *ftn = cf_zones_ftn_domain(z), *out = cf_zones_out(z);
    ENSURES("a zone is known exactly if configured", cf_zones_check(z) == (e >= 0));
    int w = e >= 0 ? e : d;
    if (w < 0) ENSURES("no zone, no default: fixed domains", !strcmp(inet, FTN_INVALID_DOMAIN) && !strcmp(ftn, "fidonet"));
    else for (int i = 0; i < MAXADDRESS; i++) if (i == w) ENSURES("domains of the zone, else of the default zone", inet == zt[0][i] && ftn == zt[1][i]);
    if (e < 0) ENSURES("no outbound for an unknown zone", out == NULL);
    else for (int i = 0; i < MAXADDRESS; i++) if (i == e) ENSURES("outbound of the zone", out == zt[2][i]);
    if (k >= 0) {
        out = cf_out_get((short)k);
        if (k >= n) ENSURES("no more outbounds", out == NULL);
        else for (int i = 0; i < MAXADDRESS; i++) if (i == k) ENSURES("outbound by number", out == zt[2][i]);
    }
    VF_REACH("zones");
}
/* walking all addresses and domains */
void h_trav(void)
{
    int n = (int)nd_range("n", 0, MAXADDRESS), nz = (int)nd_range("nz", 0, MAXADDRESS), ok = 1;
    addrs(n); patch();
    scf_nzones = nz;
    for (int i = 0; i < MAXADDRESS; i++) if (i < nz) scf_zones[i].inet_domain = zt[0][i];
    for (int i = 0; i <= MAXADDRESS; i++) if (i <= n) { Node *p = cf_addr_trav(i == 0); if (p != (i < n ? &scf_addr[i].addr : NULL)) ok = 0; }
    ENSURES("every address once, in order", ok);
    for (int i = 0; i <= MAXADDRESS; i++) if (i <= nz) { char *p = cf_zones_trav(i == 0); if (p != (i < nz ? zt[0][i] : NULL)) ok = 0; }
    ENSURES("every domain once, in order", ok);
    VF_REACH("trav");
}
/* gateway programs */
void h_gate(void)
{
    int n = (int)nd_range("n", 0, MAXADDRESS), ig = (int)nd_range("ig", 0, MAXADDRESS), ir = (int)nd_range("ir", 0, MAXADDRESS), k = (int)nd_range("k", 0, MAXADDRESS - 1);
    for (int i = 0; i < MAXADDRESS; i++) { scf_addr[i].addr = vf_node(0); scf_addr[i].uplink = vf_node(0); scf_addr[i].gateaddr = vf_node(0); scf_addr[i].zone = scf_addr[i].addr.zone; }
    scf_naddr = scf_ia = n; scf_ig = ig; scf_ir = ir; patch();
    struct st_addr o = scf_addr[0];
    for (int i = 0; i < MAXADDRESS; i++) if (i == k) o = scf_addr[i];
    cf_i_am_a_gateway_prog();
    struct st_addr r = scf_addr[0];
    for (int i = 0; i < MAXADDRESS; i++) if (i == k) r = scf_addr[i];
    if (ig) ENSURES("with GateAddress: it is ours, Address becomes the uplink", k < ig ? node_eq(&r.addr, &o.gateaddr) && node_eq(&r.uplink, &o.addr) : node_eq(&r.addr, &o.addr) && node_eq(&r.uplink, &o.uplink));
    else if (ir) ENSURES("with Uplink: as configured", node_eq(&r.addr, &o.addr) && node_eq(&r.uplink, &o.uplink));
    else ENSURES("neither: we are our own uplink", node_eq(&r.addr, &o.addr) && node_eq(&r.uplink, k < n ? &o.addr : &o.uplink));
    VF_REACH("gate");
}

/* ---- one line of the configuration ---- */
static const char *kws[] = { "include", "HOSTNAME", "domain", "HostsDomain", "Address", "uplink", "GateAddress", "Zone", "DosDrive", "gateway", "Other" };
enum { KI, KH, KD, KHD, KA, KU, KG, KZ, KDD, KGW, KO, NKW };
static int gh_kw, gh_nt, gh_t, gh_aok, gh_inc;
static char *gh_tok[6];
static Node gh_a;
char *stub_tok(char *s, const char *d)
{
    int i = gh_t++;
    CALLER_OBL("words in order", (i == 0) == (s != NULL));
    return i < gh_nt ? gh_tok[i] : NULL;
}
int stub_a2n(char *s, Node *n, int w)
{
    ENSURES("the address is the word after the keyword, without wildcards", s == gh_tok[1] && !w);
    if (!gh_aok) { node_invalid(n); return ERROR; }
    *n = gh_a;
    return OK;
}
void stub_inc(char *n) { ENSURES("the file named", n == gh_tok[1] && gh_kw == KI); gh_inc++; }
static char *gh_sv[4]; static int gh_nsv;
char *stub_save(char *s) { if (gh_nsv < 4) gh_sv[gh_nsv] = s; gh_nsv++; return s; }
static void line_k(int kw);
#ifndef KW_LO
# define KW_LO 0
# define KW_HI (NKW - 1)
#endif
static int gh_maxn;
static int gh_fill;
static void do_line_f(int f);
static void do_line_n(int n) { gh_maxn = n; VF_PER("fill", 0, KW_HI < KZ || KW_LO > KZ ? 2 : 11, do_line_f); }
static void do_line_f(int f) { gh_fill = f; VF_PER("kw", KW_LO, KW_HI, line_k); }
static void line_k(int kw)
{
    static char t1[4], t2[4], t3[4], t4[4]; static cflist prev;
    char *t[4] = { t1, t2, t3, t4 };
    gh_kw = kw; gh_nt = gh_maxn; gh_t = gh_inc = gh_nsv = 0; gh_aok = nd_bool("aok"); gh_a = vf_node(0);
    gh_tok[0] = (char *)kws[kw];
    for (int i = 0; i < 4; i++) { vf_str_in(t[i], 3); REQUIRES(t[i][0]); gh_tok[1 + i] = t[i]; }
    /* the lists: empty, room for one more, full */
    int fill = gh_fill % 3, zn = gh_fill / 3;
    scf_ia = scf_ir = scf_ig = scf_nzones = fill == 0 ? 0 : fill == 1 ? MAXADDRESS - 1 : MAXADDRESS;
    scf_ndos = fill == 0 ? 0 : fill == 1 ? MAXDOSDRIVE - 1 : MAXDOSDRIVE;
    if (fill) scf_ir--, scf_ig--;
    int ia = scf_ia, ir = scf_ir, ig = scf_ig, nz = scf_nzones, ndd = scf_ndos;
    Node gw = vf_node(0); scf_gateway = gw;
    strcpy(scf_hostname, "h"); strcpy(scf_domainname, ".d"); strcpy(scf_hostsdomain, ".e");
    prev.next = NULL; prev.key = "x"; prev.string = "y";
    int have = nd_bool("have");
    scf_list_first = scf_list_last = have ? &prev : NULL;
    if (kw == KZ) gh_tok[1] = zn == 0 ? "0" : zn == 1 ? "2" : zn == 2 ? "65" : "Default";
    VF_PATCH(xstrtok, stub_tok); VF_PATCH(asc_to_node, stub_a2n); VF_PATCH(cf_read_config_file, stub_inc); VF_PATCH(strsave, stub_save); patch();
    cf_do_line("");
    int n = gh_nt, ok1 = n >= 2, ok = ok1 && gh_aok;
    ENSURES("another file is read exactly on include", gh_inc == (kw == KI && ok1));
    /* addresses: appended to their own list, the others unchanged */
    ENSURES("Address appended", scf_ia == ia + (kw == KA && ok && ia < MAXADDRESS));
    ENSURES("Uplink appended", scf_ir == ir + (kw == KU && ok && ir < MAXADDRESS));
    ENSURES("GateAddress appended", scf_ig == ig + (kw == KG && ok && ig < MAXADDRESS));
    if (scf_ia > ia) ENSURES("the address", node_eq(&scf_addr[ia].addr, &gh_a) && scf_addr[ia].zone == gh_a.zone);
    if (scf_ir > ir) ENSURES("the uplink", node_eq(&scf_addr[ir].uplink, &gh_a));
    if (scf_ig > ig) ENSURES("the gateaddress", node_eq(&scf_addr[ig].gateaddr, &gh_a));
    ENSURES("gateway", node_eq(&scf_gateway, kw == KGW && ok ? &gh_a : &gw));
    int zok = kw == KZ && n >= 5 && zn != 0 && nz < MAXADDRESS;
    ENSURES("zone appended", scf_nzones == nz + zok);
    if (zok) ENSURES("zone, domains and outbound", scf_zones[nz].zone == (zn == 1 ? 2 : zn == 2 ? 65 : 0) && scf_zones[nz].inet_domain == t2 && scf_zones[nz].ftn_domain == t3 && scf_zones[nz].out == t4);
    int dok = kw == KDD && n >= 3 && ndd < MAXDOSDRIVE;
    ENSURES("DOS drive appended", scf_ndos == ndd + dok);
    if (dok) ENSURES("drive and path", scf_dos[ndd].drive == t1 && scf_dos[ndd].path == t2);
    char e[8];
    strcpy(e, "h"); if (kw == KH && ok1) strcpy(e, t1);
    ENSURES("hostname", !strcmp(scf_hostname, e));
    int dot = t1[0] == '.';
    strcpy(e, ".d"); if (kw == KD && ok1) { e[0] = '.'; strcpy(e + !dot, t1); }
    ENSURES("domain, with its dot", !strcmp(scf_domainname, e));
    if (!(kw == KD && ok1)) { strcpy(e, ".e"); if (kw == KHD && ok1) { e[0] = '.'; strcpy(e + !dot, t1); } }
    ENSURES("hosts' domain, by default the domain", !strcmp(scf_hostsdomain, e));
    if (kw == KO) {
        cflist *l = have ? prev.next : scf_list_first;
        int b = 0;
        for (int i = 0; i < 3; i++) if (b == i && (t1[i] == ' ' || t1[i] == '\t')) b++;
        ENSURES("other lines are kept, in order", l && l == scf_list_last && !l->next && l->key == kws[KO] && (!have || scf_list_first == &prev));
        ENSURES("with their value", l && (ok1 ? l->string == t1 + b : l->string[0] == 0));
    } else ENSURES("no other line recorded", scf_list_first == (have ? &prev : NULL) && (!have || !prev.next));
    VF_REACH("line");
}
void h_line(void) { VF_PER("nt", 1, KW_HI < KZ || KW_LO > KZ ? 3 : 5, do_line_n); }


/* values of a keyword, one after the other */
static char gh_key[4][2], gh_q[2]; static int gh_keq[4];
int stub_ci(const char *a, const char *b)
{
    int r = 0, f = 0;
    for (int i = 0; i < 4; i++) if (a == gh_key[i] || b == gh_key[i]) { r = gh_keq[i]; f = a == gh_q || b == gh_q; }
    ENSURES("the keyword against a line's, whatever the case", f);
    return !r;
}
static void get_n(int n)
{
    cflist l[4]; static char *v[4] = { "a", "b", "c", "" };
    int m[4], j = 0;
    for (int i = 0; i < n; i++) { gh_keq[i] = nd_bool("eq"); l[i].key = gh_key[i]; l[i].string = v[i]; l[i].next = i + 1 < n ? &l[i + 1] : NULL; if (gh_keq[i]) m[j++] = i; }
    VF_PATCH(strcasecmp, stub_ci);
    scf_list_first = n ? &l[0] : NULL; scf_list_last = n ? &l[n - 1] : NULL; patch();
    ENSURES("the list", config_first() == scf_list_first);
    for (int i = 0; i <= n; i++) {
        if (i > j) break;
        char *r = cf_get_string(gh_q, i == 0);
        if (i == j) ENSURES("no more values", r == NULL);
        else for (int x = 0; x < 4; x++) if (m[i] == x) ENSURES("every value of the keyword in order, whatever the case", r == v[x]);
    }
    VF_REACH("get");
}
void h_get(void) { VF_PER("n", 0, 3, get_n); }
