/* Contracts of the packet header functions (src/common/packet.c). */
#include "fg.h"
#include <time.h>

static struct tm gh_tm[3];      /* what the time functions were given / returned */
static int gh_ntm, gh_nmk;
static struct tm gh_mk;
static time_t gh_mkret;

/* contract of localtime: some broken-down time with fields in range */
static struct tm *vf_localtime(const time_t *t)
{
    struct tm *r = &gh_tm[gh_ntm < 2 ? gh_ntm++ : 2];
    r->tm_year = (int)nd_range("tm_year", 0, 199);
    r->tm_mon = (int)nd_range("tm_mon", 0, 11);
    r->tm_mday = (int)nd_range("tm_mday", 1, 31);
    r->tm_hour = (int)nd_range("tm_hour", 0, 23);
    r->tm_min = (int)nd_range("tm_min", 0, 59);
    r->tm_sec = (int)nd_range("tm_sec", 0, 59);
    return r;
}
/* contract of mktime: a function of the broken-down time it is given */
static time_t vf_mktime(struct tm *t)
{
    gh_mk = *t;
    gh_nmk++;
    return gh_mkret;
}
#define localtime vf_localtime
#define mktime vf_mktime
#include "src/common/packet.c"
#undef localtime
#undef mktime

#ifdef VF_CPROVER
int verbose = 0;
int no_debug = 0;
void GetTimeInfo(TIMEINFO *t) { t->time = nondet_vf_long(); }
int cf_defzone(void) { return 242; }
void node_clear(Node *n) { n->zone = n->net = n->node = n->point = 0; n->domain[0] = 0; n->flags = 0; }
int version_minor(void) { return 7; }
int version_major(void) { return 5; }
#endif

void vf_reset(void) { gh_ntm = gh_nmk = 0; }

static Packet mk_packet(void)
{
    Packet p;
    p.from = vf_node(0);
    p.to = vf_node(0);
    p.time = 0;
    p.baud = (int)nd_range("baud", 0, 65535);
    p.version = (int)nd_range("version", 0, 65535);
    p.product_l = nd_u8("pl"); p.product_h = nd_u8("ph");
    p.rev_min = nd_u8("rmin"); p.rev_maj = nd_u8("rmaj");
    int l = (int)nd_range("pwlen", 0, PKT_MAXPASSWD);
    for (int i = 0; i <= PKT_MAXPASSWD; i++) {
        p.passwd[i] = nd_char("pw");
        if (i < l) REQUIRES(p.passwd[i] != 0);
        else if (i == l) p.passwd[i] = 0;
    }
    p.capword = (int)nd_range("capword", 0, 65535);
    for (int i = 0; i < 4; i++) p.psd[i] = nd_char("psd");
    return p;
}
#define W(o) (b[o] | b[(o) + 1] << 8)

static void check_layout(const unsigned char *b, const Packet *p, const struct tm *t)
{
    ENSURES("orig node at 0", W(0) == p->from.node);
    ENSURES("dest node at 2", W(2) == p->to.node);
    ENSURES("year at 4", W(4) == t->tm_year + 1900);
    ENSURES("month at 6", W(6) == t->tm_mon);
    ENSURES("day at 8", W(8) == t->tm_mday);
    ENSURES("hour at 10", W(10) == t->tm_hour);
    ENSURES("minute at 12", W(12) == t->tm_min);
    ENSURES("second at 14", W(14) == t->tm_sec);
    ENSURES("baud at 16", W(16) == p->baud);
    ENSURES("version at 18", W(18) == p->version);
    ENSURES("orig net at 20", W(20) == p->from.net);
    ENSURES("dest net at 22", W(22) == p->to.net);
    ENSURES("product low at 24", b[24] == p->product_l);
    ENSURES("revision major at 25", b[25] == p->rev_maj);
    int end = 0;
    for (int i = 0; i < PKT_MAXPASSWD; i++) {
        if (p->passwd[i] == 0) end = 1;
        ENSURES("password at 26, NUL padded", b[26 + i] == (end ? 0 : (unsigned char)p->passwd[i]));
    }
    ENSURES("orig zone at 34", W(34) == p->from.zone);
    ENSURES("dest zone at 36", W(36) == p->to.zone);
    ENSURES("spare at 38", W(38) == 0);
    ENSURES("byte-swapped capability word at 40", (b[40] << 8 | b[41]) == p->capword);
    ENSURES("product high at 42", b[42] == p->product_h);
    ENSURES("revision minor at 43", b[43] == p->rev_min);
    ENSURES("capability word at 44", W(44) == p->capword);
    ENSURES("orig zone at 46", W(46) == p->from.zone);
    ENSURES("dest zone at 48", W(48) == p->to.zone);
    ENSURES("orig point at 50", W(50) == p->from.point);
    ENSURES("dest point at 52", W(52) == p->to.point);
    for (int i = 0; i < 4; i++)
        ENSURES("product data at 54", b[54 + i] == (unsigned char)p->psd[i]);
}

void h_hdr_layout(void)
{
    Packet p = mk_packet(), q = p;
    FILE *fp = vf_open_out();
    int r = pkt_put_hdr_raw(fp, &p);
    size_t len;
    unsigned char *b = vf_out_data(fp, &len);
    ENSURES("header is 58 bytes", len == 58);
    ENSURES("no error reported", r == 0);
    if (len == 58) check_layout(b, &q, &gh_tm[0]);
    VF_REACH("layout");
}
/* the header written for a new packet is always type 2+ */
void h_hdr_put(void)
{
    Packet p = mk_packet(), q = p;
    FILE *fp = vf_open_out();
    int r = pkt_put_hdr(fp, &p);
    size_t len;
    unsigned char *b = vf_out_data(fp, &len);
    ENSURES("header is 58 bytes", len == 58 && r == 0);
    q.version = 2; q.capword = 1; q.baud = 0; q.product_l = 0xfe; q.product_h = 0;
    q.rev_min = version_minor(); q.rev_maj = version_major();
    q.psd[0] = 'X'; q.psd[1] = 'P'; q.psd[2] = 'K'; q.psd[3] = 'T';
    if (len == 58) check_layout(b, &q, &gh_tm[0]);
    VF_REACH("put");
}
/* any 58 bytes (or fewer) read as FTS-0001 / FSC-0039 / FSC-0048 say */
void h_hdr_read(void)
{
    unsigned char b[58];
    for (int i = 0; i < 58; i++) b[i] = nd_u8("b");
    int len = (int)nd_range("len", 0, 58);
    gh_mkret = nd_long("mkret");
    FILE *fp = vf_open_in(b, len);
    Packet p;
    int r = pkt_get_hdr(fp, &p);
    if (len < 58) {
        ENSURES("short header is an error", r == ERROR);
        VF_REACH("short");
        return;
    }
    int dateok = W(4) >= 1900 && W(4) <= 2099 && W(6) <= 11 && W(8) <= 31 && W(10) <= 23
        && W(12) <= 59 && W(14) <= 59;
    ENSURES("accepted iff date valid and version 2", (r == OK) == (dateok && W(18) == 2));
    ENSURES("error reported as error", r == OK || r == ERROR);
    if (r != OK) { VF_REACH("bad"); return; }
    ENSURES("date", gh_nmk == 1 && p.time == gh_mkret && gh_mk.tm_year == W(4) - 1900 && gh_mk.tm_mon == W(6)
            && gh_mk.tm_mday == (W(8) ? W(8) : gh_tm[0].tm_mday) && gh_mk.tm_hour == W(10)
            && gh_mk.tm_min == W(12) && gh_mk.tm_sec == W(14) && gh_mk.tm_isdst == -1);
    int cw = W(44), cwok = cw != 0 && cw == (b[40] << 8 | b[41]);
    ENSURES("capability word", p.capword == (cwok ? cw : 0));
    ENSURES("baud", p.baud == W(16));
    ENSURES("version", p.version == 2);
    ENSURES("nodes", p.from.node == W(0) && p.to.node == W(2));
    ENSURES("dest net", p.to.net == W(22));
    ENSURES("product and revision", p.product_l == b[24] && p.product_h == b[42]
            && p.rev_maj == b[25] && p.rev_min == b[43]);
    for (int i = 0; i < 8; i++)
        ENSURES("password", p.passwd[i] == (char)b[26 + i]);
    ENSURES("password terminated", p.passwd[8] == 0);
    int dz = cf_defzone();
    ENSURES("orig zone", p.from.zone == (cwok && W(46) ? W(46) : W(34) ? W(34) : dz));
    ENSURES("dest zone", p.to.zone == (cwok && W(48) ? W(48) : W(36) ? W(36) : dz));
    ENSURES("points", p.from.point == (cwok ? W(50) : 0) && p.to.point == (cwok ? W(52) : 0));
    ENSURES("orig net, FSC-0048 point packets", p.from.net ==
            (W(20) != 0xffff ? W(20) : p.from.point != 0 ? W(38) : W(22)));
    VF_REACH("read");
}
/* what is written is what is read back */
void h_hdr_rt(void)
{
    Packet p = mk_packet(), q, o = p;
    REQUIRES(p.from.net != 0xffff && p.from.zone != 0 && p.to.zone != 0);
    FILE *fp = vf_open_out();
    pkt_put_hdr(fp, &p);
    size_t len;
    unsigned char *b = vf_out_data(fp, &len);
    unsigned char c[58];
    ENSURES("58 bytes", len == 58);
    if (len != 58) return;
    for (int i = 0; i < 58; i++) c[i] = b[i];
    FILE *in = vf_open_in(c, 58);
    gh_mkret = nd_long("mkret");
    int r = pkt_get_hdr(in, &q);
    ENSURES("read back without error", r == OK);
    ENSURES("addresses survive", q.from.zone == o.from.zone && q.from.net == o.from.net
            && q.from.node == o.from.node && q.from.point == o.from.point
            && q.to.zone == o.to.zone && q.to.net == o.to.net
            && q.to.node == o.to.node && q.to.point == o.to.point);
    int end = 0;
    for (int i = 0; i < 8; i++) {
        if (o.passwd[i] == 0) end = 1;
        ENSURES("password survives", q.passwd[i] == (end ? 0 : o.passwd[i]));
    }
    ENSURES("date survives", q.time == gh_mkret && gh_mk.tm_year == gh_tm[0].tm_year && gh_mk.tm_mon == gh_tm[0].tm_mon
            && gh_mk.tm_mday == gh_tm[0].tm_mday && gh_mk.tm_hour == gh_tm[0].tm_hour
            && gh_mk.tm_min == gh_tm[0].tm_min && gh_mk.tm_sec == gh_tm[0].tm_sec);
    VF_REACH("rt");
}
void h_int16(void)
{
    int v = nd_int("v");
    FILE *fp = vf_open_out();
    pkt_put_int16(fp, v);
    size_t len;
    unsigned char *b = vf_out_data(fp, &len), c[2];
    ENSURES("two bytes, low first", len == 2 && b[0] == (v & 255) && b[1] == (v >> 8 & 255));
    c[0] = b[0]; c[1] = b[1];
    ENSURES("read back modulo 2^16", pkt_get_int16(vf_open_in(c, 2)) == (v & 0xffff));
    int k = (int)nd_range("k", 0, 1);
    ENSURES("end of file is an error", pkt_get_int16(vf_open_in(c, k)) == ERROR);
    VF_REACH("int16");
}
