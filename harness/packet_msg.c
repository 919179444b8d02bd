/* Contracts of the packed-message functions (src/common/packet.c). */
#include "vf.h"
#if VF_UNBOUNDED
# define VFC_PACKET_STR 1
#endif
#include "fg.h"
#include <time.h>
#ifdef VF_STRC
# include "vf_strcontract.h"
#endif

#if VF_UNBOUNDED
static char *gh_s;              /* the string written */
static size_t gh_off, gh_len;   /* input consumed, output produced by the specification */
static int gh_c;                /* byte `wit' of the specified output */
static size_t gh_N, gh_K, gh_L; /* destination size, witness index, stream length */
static char *gh_buf;
#endif

static time_t gh_now, gh_date;
static char *gh_tz;
static char gh_datestr[MSG_MAXDATE];
static int gh_ndate;
static time_t vf_time(time_t *t) { (void)t; return gh_now; }
#define time(x) vf_time(x)
static int gh_nstr;

#include "src/common/packet.c"
#undef time

/* contract of date_tz: some string of 19 characters */
char *date_tz(char *fmt, time_t *t, char *tz)
{
    gh_date = *t; gh_tz = tz; gh_ndate++;
    CALLER_OBL("FTS-0001 date format", !strcmp(fmt, "%d %b %y  %H:%M:%S"));
    for (int i = 0; i < MSG_MAXDATE - 1; i++) {
        gh_datestr[i] = nd_char("date");
        REQUIRES(gh_datestr[i] != 0);
    }
    gh_datestr[MSG_MAXDATE - 1] = 0;
#ifdef VF_STRC
    vf_reg_copy(gh_datestr, MSG_MAXDATE - 1, gh_datestr);
#endif
    return gh_datestr;
}
/* contract of parsedate: a function of the text it is given */
static char gh_parsed[64];
static time_t gh_pret;
time_t parsedate(char *p, TIMEINFO *t)
{
    CALLER_OBL("date text is terminated", p[MSG_MAXDATE] == 0);
    for (int i = 0; i <= MSG_MAXDATE; i++) gh_parsed[i] = p[i];
    return gh_pret;
}
#ifdef VF_CPROVER
int verbose = 0;
#endif
static int gh_nz;
void vf_reset(void) { gh_ndate = gh_nstr = gh_nz = 0; }

/* a string in buf[cap], any length < cap */
static int mk_str(char *buf, int cap)
{
    int l = (int)nd_range("len", 0, cap - 1);
    for (int i = 0; i < cap; i++) {
        buf[i] = nd_char("c");
        if (i < l) REQUIRES(buf[i] != 0);
    }
    buf[l] = 0;
    return l;
}
#ifndef MSGCAP
# define MSGCAP (VF_CBMC && !VF_UNBOUNDED ? 74 : NAMEBUFSIZE)
#endif
#define W(o) (b[o] | b[(o) + 1] << 8)
static int cut(int l, int lim) { return l < lim ? l : lim - 1; }

/* fixed part and strings of the packed message header */
static char t_to[NAMEBUFSIZE], t_from[NAMEBUFSIZE], t_subj[SUBJBUFSIZE];
void h_msg_put(void)
{
    static Message m;
    m.node_from = vf_node(0);
    m.node_to = vf_node(0);
    m.attr = (int)nd_range("attr", 0, 65535);
    m.cost = (int)nd_range("cost", 0, 65535);
    m.date = nd_long("when");
    gh_now = nd_long("now");
    REQUIRES(gh_now != -1 && gh_now < 1L << 60);
    m.tz = NULL;
#if VF_UNBOUNDED && defined(VF_STRC)
    static Message nd;
    int lt = nondet_vf_int(), lf = nondet_vf_int(), ls = nondet_vf_int();
    REQUIRES(lt >= 0 && lt < NAMEBUFSIZE && lf >= 0 && lf < NAMEBUFSIZE && ls >= 0 && ls < SUBJBUFSIZE);
    __CPROVER_havoc_object(m.name_to);      /* the whole message ... */
    m.node_from = vf_node(0); m.node_to = vf_node(0);
    m.attr = (int)nd_range("attr", 0, 65535); m.cost = (int)nd_range("cost", 0, 65535);
    m.date = nd_long("when"); m.tz = NULL;
    nd = m;
    vf_reg_copy(m.name_to, lt, nd.name_to); vf_reg_copy(m.name_from, lf, nd.name_from);
    vf_reg_copy(m.subject, ls, nd.subject);
    vf_cand[0] = m.name_to + MSG_MAXNAME - 1; vf_cand[1] = m.name_from + MSG_MAXNAME - 1;
    vf_cand[2] = m.subject + MSG_MAXSUBJ - 1;
    __CPROVER_array_copy(t_to, nd.name_to); __CPROVER_array_copy(t_from, nd.name_from);
    __CPROVER_array_copy(t_subj, nd.subject);
    m.area = NULL;
#else
    int lt = mk_str(m.name_to, MSGCAP), lf = mk_str(m.name_from, MSGCAP), ls = mk_str(m.subject, MSGCAP);
    m.area = NULL;
    for (int i = 0; i < MSGCAP; i++) { t_to[i] = m.name_to[i]; t_from[i] = m.name_from[i]; t_subj[i] = m.subject[i]; }
#endif
    FILE *fp = vf_open_out();
    size_t k; int c;
    int r = pkt_put_msg_hdr(fp, &m, FALSE);
    size_t len = vf_out_witness(fp, &k, &c);
    lt = cut(lt, MSG_MAXNAME); lf = cut(lf, MSG_MAXNAME); ls = cut(ls, MSG_MAXSUBJ);
    ENSURES("no error reported", r == 0);
    ENSURES("length", len == (size_t)(14 + MSG_MAXDATE + lt + 1 + lf + 1 + ls + 1));
    ENSURES("date of the message, or the current time", gh_ndate == 1 && gh_tz == m.tz
            && (m.date != -1 ? gh_date == m.date : gh_date == gh_now || gh_date == gh_now + 2));
    if (k < len) {
        int w[7] = { 2, m.node_from.node, m.node_to.node, m.node_from.net, m.node_to.net, m.attr, m.cost };
        size_t o1 = 14 + MSG_MAXDATE, o2 = o1 + lt + 1, o3 = o2 + lf + 1;
        int e;
        if (k < 14) e = k & 1 ? w[k / 2] >> 8 & 255 : w[k / 2] & 255;
        else if (k < o1) e = gh_datestr[k - 14];
        else if (k < o2) e = k - o1 == (size_t)lt ? 0 : t_to[k - o1];
        else if (k < o3) e = k - o2 == (size_t)lf ? 0 : t_from[k - o2];
        else e = k - o3 == (size_t)ls ? 0 : t_subj[k - o3];
        ENSURES("every byte of the header as laid down", c == (e & 255));
    }
    VF_REACH("put");
}

/* reading: fixed part, and strings cut to the buffers / rejected over the limits */
#if defined(VF_STUB_GETSTR) && defined(VF_CPROVER)
/* contract of pkt_get_string (proved by unit get_string): stores a terminated string of
 * fewer than nbytes characters, returns the number of bytes read */
static struct { char *buf; size_t n, rc; } gh_call[4];
size_t stub_get_string(FILE *fp, char *buf, size_t nbytes)
{
    CALLER_OBL("buffer writable", nbytes > 0 && __CPROVER_w_ok(buf, nbytes));
    size_t rc = nondet_vf_size();
    gh_call[gh_nstr < 3 ? gh_nstr : 3].buf = buf;
    gh_call[gh_nstr < 3 ? gh_nstr : 3].n = nbytes;
    gh_call[gh_nstr < 3 ? gh_nstr : 3].rc = rc;
    gh_nstr++;
    buf[rc < nbytes ? rc : nbytes - 1] = 0;
    return rc;
}
void h_msg_get(void)
{
    unsigned char b[12 + MSG_MAXDATE];
    for (int i = 0; i < (int)sizeof b; i++) b[i] = nd_u8("b");
    FILE *fp = vf_open_in(b, sizeof b);
    Message m;
    gh_pret = nd_long("pret");
    _Bool strict = nd_bool("strict");
    int r = pkt_get_msg_hdr(fp, &m, strict);
    int o1 = gh_nstr > 0 && gh_call[0].rc > MSG_MAXNAME, o2 = gh_nstr > 1 && gh_call[1].rc > MSG_MAXNAME,
        o3 = gh_nstr > 2 && gh_call[2].rc > MSG_MAXSUBJ;
    ENSURES("rejected iff strict and a field over its limit", (r != 0) == (strict && (o1 || o2 || o3)));
    ENSURES("date text passed on unchanged", vf_eq(gh_parsed, (char *)b + 12, MSG_MAXDATE) && m.date == gh_pret);
    ENSURES("addresses", m.node_from.node == W(0) && m.node_to.node == W(2) && m.node_from.net == W(4)
            && m.node_to.net == W(6) && m.node_orig.net == W(4) && m.node_orig.node == W(0));
    ENSURES("attributes and cost", m.attr == W(8) && m.cost == W(10));
    if (r == 0) {
        ENSURES("strings in order, each in its own buffer", gh_nstr == 3
                && gh_call[0].buf == m.name_to && gh_call[0].n == sizeof m.name_to
                && gh_call[1].buf == m.name_from && gh_call[1].n == sizeof m.name_from
                && gh_call[2].buf == m.subject && gh_call[2].n == sizeof m.subject);
        ENSURES("no area", m.area == NULL);
        VF_REACH("accepted");
    } else
        VF_REACH("rejected");
}
#else
/* the same with the real string reader: one byte string, cut in three */
void h_msg_get(void)
{
    enum { H = 12 + MSG_MAXDATE, N = H + 3 * (MSG_MAXSUBJ + 2 > 76 ? MSG_MAXSUBJ + 2 : 76) };
    static unsigned char b[N];
    for (int i = 0; i < H; i++) b[i] = nd_u8("b");
    int l[3], p = H, lim[3] = { MSG_MAXNAME, MSG_MAXNAME, MSG_MAXSUBJ }, o[3];
    for (int j = 0; j < 3; j++) {
        l[j] = (int)nd_range("len", 0, lim[j] + 3);
        o[j] = p;
        for (int i = 0; i < lim[j] + 3; i++)
            if (i < l[j]) { b[p] = nd_u8("c"); REQUIRES(b[p] != 0); p++; }
        b[p++] = 0;
    }
    FILE *fp = vf_open_in(b, p);
    Message m;
    gh_pret = nd_long("pret");
    _Bool strict = nd_bool("strict");
    int r = pkt_get_msg_hdr(fp, &m, strict);
    int over = l[0] + 1 > lim[0] || l[1] + 1 > lim[1] || l[2] + 1 > lim[2];
    ENSURES("rejected iff strict and a field over its limit", (r != 0) == (strict && over));
    ENSURES("date text passed on unchanged", vf_eq(gh_parsed, (char *)b + 12, MSG_MAXDATE) && m.date == gh_pret);
    ENSURES("addresses", m.node_from.node == W(0) && m.node_to.node == W(2) && m.node_from.net == W(4)
            && m.node_to.net == W(6) && m.node_orig.net == W(4) && m.node_orig.node == W(0));
    ENSURES("attributes and cost", m.attr == W(8) && m.cost == W(10));
    if (r == 0) {
        ENSURES("strings", !strcmp(m.name_to, (char *)b + o[0]) && !strcmp(m.name_from, (char *)b + o[1])
                && !strcmp(m.subject, (char *)b + o[2]) && m.area == NULL);
        VF_REACH("accepted");
    } else
        VF_REACH("rejected");
}
#endif

/* kludge lines: AREA for echomail, INTL/FMPT/TOPT for netmail */
/* contract of znf1/znf2 (A01): the text of the address, which must be the one without point */
static Node gh_n1, gh_n2;
static char gh_z1[8], gh_z2[8];
static int gh_nz;
#ifdef VF_STUB_ZNF
static char *zn(char *b, Node *n)
{
    CALLER_OBL("INTL has no point and no domain", n->point == 0 && n->domain[0] == 0);
    for (int i = 0; i < 7; i++) { b[i] = nd_char("z"); REQUIRES(b[i] != 0); }
    b[7] = 0;
    gh_nz++;
    return b;
}
char *znf1(Node *n) { gh_n1 = *n; return zn(gh_z1, n); }
char *znf2(Node *n) { gh_n2 = *n; return zn(gh_z2, n); }
#endif
void h_msg_kludge(void)
{
    static Message m;
    m.node_from = vf_node(0);
    m.node_to = vf_node(0);
    m.date = 1; m.tz = NULL; m.attr = 0; m.cost = 0; m.area = NULL;
    m.name_to[0] = m.name_from[0] = m.subject[0] = 0;
    char area[9];
#ifdef NETMAIL
    int la = -1, n = 0;
#else
    int la = (int)nd_range("la", 0, 8), n = 0;
#endif
    static char e[128];
    for (int i = 0; i < 8; i++) { area[i] = nd_char("a"); REQUIRES(area[i] != 0); }
    if (la >= 0) {
        area[la] = 0;
        m.area = area;
        n = ex_str(e, n, "AREA:");
        for (int i = 0; i < la; i++) e[n++] = area[i];
        e[n++] = '\r';
    }
    FILE *fp = vf_open_out();
    pkt_put_msg_hdr(fp, &m, TRUE);
    size_t k; int c;
    size_t len = vf_out_witness(fp, &k, &c);
    if (la < 0) {
        ENSURES("INTL: destination, then origin", gh_nz == 2 && gh_n1.zone == m.node_to.zone && gh_n1.net == m.node_to.net
                && gh_n1.node == m.node_to.node && gh_n2.zone == m.node_from.zone
                && gh_n2.net == m.node_from.net && gh_n2.node == m.node_from.node);
        n = ex_str(e, n, "\001INTL "); n = ex_str(e, n, gh_z1); e[n++] = ' ';
        n = ex_str(e, n, gh_z2); e[n++] = '\r';
        if (m.node_from.point) { n = ex_str(e, n, "\001FMPT "); n = ex_num(e, n, m.node_from.point); e[n++] = '\r'; }
        if (m.node_to.point) { n = ex_str(e, n, "\001TOPT "); n = ex_num(e, n, m.node_to.point); e[n++] = '\r'; }
    }
    size_t base = 14 + MSG_MAXDATE + 3;
    ENSURES("length of the kludge lines", len == base + n);
    if (k >= base && k < len && k < base + n)
        ENSURES("kludge lines", c == (unsigned char)e[k - base]);
    VF_REACH("kludge");
}

#if VF_UNBOUNDED
/* ---- strings and lines of any length ---- */
void h_put_line(void)
{
    size_t l = nondet_vf_size();
    REQUIRES(l < 1000000);
    gh_s = malloc(l + 1);
    __CPROVER_assume(gh_s != NULL);
    gh_s[l] = 0;
    gh_L = l;
    FILE *fp = vf_open_out();
    pkt_put_line(fp, gh_s);
    size_t k; int c;
    size_t len = vf_out_witness(fp, &k, &c);
    ENSURES("the whole string was written", gh_off == l);
    ENSURES("length", len == gh_len);
    ENSURES("line ends normalised, everything else unchanged", !(k < len) || c == gh_c);
    VF_REACH("line");
}
void h_get_string(void)
{
    gh_N = nondet_vf_size(); gh_L = nondet_vf_size(); gh_K = nondet_vf_size();
    REQUIRES(gh_N >= 1 && gh_N < 1000000 && gh_L < 1000000);
    char *data = malloc(gh_L + 1);
    gh_buf = malloc(gh_N);
    __CPROVER_assume(data != NULL && gh_buf != NULL);
    FILE *fp = vf_open_in((unsigned char *)data, gh_L);
    size_t rc = pkt_get_string(fp, gh_buf, gh_N);
    size_t n = vf_files[0].eof ? rc : rc - 1;       /* characters before the NUL / EOF */
    ENSURES("stops at the NUL or at the end of the stream", n <= gh_L && (n == gh_L ? vf_files[0].eof : data[n] == 0)
            && vf_in_pos(fp) == rc);
    ENSURES("no NUL was skipped", !(gh_K < n) || data[gh_K] != 0);
    ENSURES("terminated within the buffer", gh_buf[n < gh_N - 1 ? n : gh_N - 1] == 0);
    ENSURES("as many characters as fit", !(gh_K < n && gh_K < gh_N - 1) || gh_buf[gh_K] == data[gh_K]);
    VF_REACH("string");
}
#else
void h_put_line(void)
{
    char *s = vf_str("s", VF_BOUND);
    static unsigned char e[4 * VF_BOUND + 4];
    int n = 0;
    for (int i = 0; s[i]; i++)
        if (s[i] != '\n') e[n++] = s[i];
        else if (i == 0 || s[i - 1] != '\r') e[n++] = '\r';
    FILE *fp = vf_open_out();
    pkt_put_line(fp, s);
    size_t k; int c;
    size_t len = vf_out_witness(fp, &k, &c);
    ENSURES("length", len == (size_t)n);
    if (k < len && k < (size_t)n)
        ENSURES("line ends normalised, everything else unchanged", c == e[k]);
    VF_REACH("line");
}
void h_get_string(void)
{
    unsigned char b[VF_BOUND + 1];
    for (int i = 0; i < VF_BOUND; i++) b[i] = nd_u8("b");
    int len = (int)nd_range("len", 0, VF_BOUND), N = (int)nd_range("n", 1, VF_BOUND + 1), n = 0;
    char *buf = vf_buf("buf", N);
    FILE *fp = vf_open_in(b, len);
    size_t rc = pkt_get_string(fp, buf, N);
    while (n < len && b[n]) n++;
    ENSURES("bytes read", rc == (size_t)(n < len ? n + 1 : n) && vf_in_pos(fp) == rc);
    ENSURES("terminated within the buffer", buf[n < N - 1 ? n : N - 1] == 0);
    for (int i = 0; i < n && i < N - 1; i++)
        ENSURES("as many characters as fit", buf[i] == (char)b[i]);
    VF_REACH("string");
}
#endif
