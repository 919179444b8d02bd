/* Contracts of the netmail and packet functions of ftntoss (toss/ftntoss.c). */
#include "tosslib.h"

void stub_log(const char *f, ...) { }
void stub_debug(int l, const char *f, ...) { }
char *stub_z(Node *n) { return "-"; }
static int same_node(Node *a, Node *b) { return node_eq(a, b); }
/* a pattern part: a number, empty or a wildcard */
static int part(const char *n) { return (int)nd_range("pat", -2, 65535); }
static Node pat(void)
{
    Node n;
    node_clear(&n);
    n.zone = part("z"); n.net = part("n"); n.node = part("f"); n.point = part("p");
    return n;
}
static int pm(int v, int p) { return p < 0 || v == p; }
static int pmatch(Node *n, Node *p) { return pm(n->zone, p->zone) && pm(n->net, p->net) && pm(n->node, p->node) && pm(n->point, p->point); }
static Node subst(Node n, Node *p)
{
    if (p->zone >= 0) n.zone = p->zone;
    if (p->net >= 0) n.net = p->net;
    if (p->node >= 0) n.node = p->node;
    if (p->point >= 0) n.point = p->point;
    return n;
}

/* ---- name patterns (contract of wildmatch, W01): any outcome, one per rule and name ---- */
static Message *gh_msg, gh_m;
static char *gh_pat[3] = { "0", "1", "2" };
static int gh_hit[3][2];
int stub_wild(const char *text, const char *p, int ign)
{
    int i = p[0] - '0', w = text == gh_msg->name_to;
    CALLER_OBL("name against the rule's pattern, ignoring case", ign && i >= 0 && i < 3 && (w || text == gh_msg->name_from));
    for (int j = 0; j < 3; j++) if (i == j) return gh_hit[j][w];
    return 0;
}
static void mkmsg(void)
{
    memset(&gh_m, 0, sizeof(gh_m));
    gh_msg = &gh_m;
    gh_m.node_from = an(); gh_m.node_to = an();
    strcpy(gh_m.name_from, "F"); strcpy(gh_m.name_to, "T");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) gh_hit[i][j] = nd_bool("match");
    VF_PATCH(wildmatch, stub_wild);
}

/* first rule that applies: 1 by sender, 2 by recipient */
static void rewrite_n(int n)
{
    static Rewrite R[3];
    mkmsg();
    Node f = gh_m.node_from, t = gh_m.node_to, e = f;
    for (int i = 0; i < n; i++) {
        int k = (int)nd_range("type", 0, 2);
        R[i].type = k == 0 ? CMD_REWRITE : k == 1 ? CMD_REWRITE_FROM : CMD_REWRITE_TO;
        R[i].from = pat(); R[i].to = pat(); R[i].name = gh_pat[i]; R[i].next = i + 1 < n ? &R[i + 1] : NULL;
    }
    rewrite_first = n ? R : NULL;
    int done = 0;
    for (int i = 0; i < n; i++)
        if (!done) {
            int byf = pmatch(&f, &R[i].from) && (R[i].type == CMD_REWRITE || (R[i].type == CMD_REWRITE_FROM && gh_hit[i][0]));
            int byt = pmatch(&t, &R[i].from) && (R[i].type == CMD_REWRITE || (R[i].type == CMD_REWRITE_TO && gh_hit[i][1]));
            if (byf || byt) { e = subst(f, &R[i].to); done = 1; }
        }
    do_rewrite(&gh_m);
    ENSURES("sender rewritten by the first rule that applies", same_node(&gh_m.node_from, &e));
    ENSURES("recipient unchanged", same_node(&gh_m.node_to, &t));
    VF_REACH("rewrite");
}
void h_rewrite(void) { VF_PER("n", 0, 3, rewrite_n); }

static void remap_n(int n)
{
    static Remap R[3];
    mkmsg();
    Node f = gh_m.node_from, t = gh_m.node_to, e = t;
    for (int i = 0; i < n; i++) {
        R[i].type = nd_bool("type") ? CMD_REMAP_FROM : CMD_REMAP_TO;
        R[i].from = pat(); R[i].to = pat(); R[i].name = gh_pat[i]; R[i].next = i + 1 < n ? &R[i + 1] : NULL;
    }
    remap_first = n ? R : NULL;
    int done = 0;
    for (int i = 0; i < n; i++)
        if (!done && (R[i].type == CMD_REMAP_FROM ? pmatch(&f, &R[i].from) && gh_hit[i][0] : pmatch(&t, &R[i].from) && gh_hit[i][1])) {
            e = subst(t, &R[i].to); done = 1;
        }
    int rc = do_remap(&gh_m);
    ENSURES("recipient remapped by the first rule that applies", same_node(&gh_m.node_to, &e));
    ENSURES("sender unchanged", same_node(&gh_m.node_from, &f));
    ENSURES("killed only if remapped to 0:0/0.0", !!rc == (done && e.zone == 0 && e.net == 0 && e.node == 0 && e.point == 0));
    VF_REACH("remap");
}
void h_remap(void) { VF_PER("n", 0, 3, remap_n); }

/* a message is empty if it has nothing but kludges and empty lines */
static void empty_n(int n)
{
    MsgBody b; Textline L[2]; int e = 1;
    memset(&b, 0, sizeof(b));
    for (int i = 0; i < n; i++) {
        L[i].line = vf_str("line", 2);
        tl_add(&b.body, &L[i]);
        if (L[i].line[0] && L[i].line[0] != '\r') e = 0;
    }
    if (nd_bool("tear")) { b.tear = "---\r"; e = 0; }
    if (nd_bool("orig")) { b.origin = " * Origin"; e = 0; }
    if (nd_bool("rfc")) { b.rfc.n = 1; e = 0; }
    if (nd_bool("seen")) { b.seenby.n = 1; e = 0; }
    b.kludge.n = nd_bool("kludge"); b.via.n = nd_bool("via");
    ENSURES("empty", !!check_empty(&b) == e);
    VF_REACH("empty");
}
void h_empty(void) { VF_PER("n", 0, 2, empty_n); }

/* ---- do_netmail against the contracts above ---- */
static int gh_kill, gh_empty, gh_rew, gh_rem, gh_open, gh_hdr, gh_bodyw, gh_fails, gh_via, gh_ping, gh_flavok;
static Node gh_new_from, gh_new_to;
static char gh_file;
static MsgBody *gh_body;
static char *gh_mid;
void stub_rewrite(Message *m) { ENSURES("this message is rewritten, once, before it is remapped", m == gh_msg && !gh_rew && !gh_rem); m->node_from = gh_new_from; gh_rew = 1; }
int stub_remap(Message *m) { ENSURES("this message is remapped once", m == gh_msg && !gh_rem && gh_rew); m->node_to = gh_new_to; gh_rem = 1; return gh_kill; }
int stub_empty(MsgBody *b) { return gh_empty; }
char *stub_kget(Textlist *tl, char *name, Textline **line) { return gh_mid; }
void stub_pingr(Message *m, MsgBody *b) { ENSURES("ping reply to the original sender", m == gh_msg && !gh_rew && !gh_open); gh_ping++; }
void stub_via(Textlist *l, Node *g) { ENSURES("one Via line, with our address", l == &gh_body->via && node_eq(g, &gh_addr) && !gh_bodyw); gh_via++; }
static int gh_local;
int stub_local(Node *n, char only3d) { ENSURES("local address of the recipient as sent", node_eq(n, &gh_msg->node_to) && !gh_rem); return gh_local; }
FILE *outpkt_open(Node *from, Node *to, int grade, int type, int flav, int bad)
{
    ENSURES("after rewrite and remap", gh_rew && gh_rem && !gh_open);
    ENSURES("packet from us to the new recipient", node_eq(from, &gh_addr) && node_eq(to, &gh_new_to) && !bad);
    ENSURES("our address is the one for that recipient", gh_nbest == 1 && gh_best_for.zone == to->zone && gh_best_for.net == to->net && gh_best_for.node == to->node);
    ENSURES("netmail packet with the flavour of the message", grade == g_flag && type == 'n' && flav == gh_flavok);
    if (gh_fails == 1) return NULL;
    gh_open = 1;
    return (FILE *)&gh_file;
}
int pkt_put_msg_hdr(FILE *fp, Message *m, int net)
{
    ENSURES("header of this message, as netmail", fp == (FILE *)&gh_file && m == gh_msg && net && !gh_hdr && node_eq(&m->node_from, &gh_new_from) && node_eq(&m->node_to, &gh_new_to));
    if (gh_fails == 2) return ERROR;
    gh_hdr = 1;
    return OK;
}
int msg_put_msgbody(FILE *fp, MsgBody *b)
{
    ENSURES("body after the header", fp == (FILE *)&gh_file && b == gh_body && gh_hdr && !gh_bodyw);
    if (gh_fails == 3) return ERROR;
    gh_bodyw = 1;
    return OK;
}
void h_netmail(void)
{
    MsgBody b; Packet pkt;
    VF_PATCH(do_rewrite, stub_rewrite); VF_PATCH(do_remap, stub_remap); VF_PATCH(check_empty, stub_empty);
    VF_PATCH(kludge_get, stub_kget); VF_PATCH(add_via, stub_via); VF_PATCH(is_local_addr, stub_local); VF_PATCH(ping_generate_reply, stub_pingr);
    memset(&b, 0, sizeof(b)); memset(&pkt, 0, sizeof(pkt));
    gh_body = &b; gh_msg = &gh_m; memset(&gh_m, 0, sizeof(gh_m));
    gh_addr = an(); gh_m.node_from = an(); gh_m.node_to = an();
    int nm = (int)nd_range("name", 0, 2);
    strcpy(gh_m.name_to, nm == 0 ? "T" : nm == 1 ? "Ping" : "pinG2");
    gh_new_from = an(); gh_new_to = an();
    gh_m.attr = (int)nd_range("attr", 0, 65535);
    gh_kill = nd_bool("kill"); gh_empty = nd_bool("empty"); gh_local = nd_bool("local");
    kill_empty = nd_bool("ke"); s_flag = nd_bool("s"); support_ping = nd_bool("sp"); log_netmail = nd_bool("log");
    g_flag = nd_bool("g") ? 'n' : 'x';
    gh_mid = nd_bool("mid") ? "1:2/3 4" : NULL;
    gh_fails = (int)nd_range("fail", 0, 3);
    int attr = gh_m.attr, fwd = nd_bool("fwd");
    gh_flavok = s_flag ? 'n' : (attr & MSG_CRASH) ? 'c' : (attr & MSG_HOLD) ? 'h' : 'n';
    int rc = do_netmail(&pkt, &gh_m, &b, fwd);
    int isping = nm == 1, killed = !isping && kill_empty && gh_empty && gh_local;
    ENSURES("ping answered", gh_ping == (isping && support_ping));
    if (killed || gh_kill) ENSURES("empty mail to us and mail remapped to 0:0/0.0 is not passed on", rc == OK && !gh_open);
    else {
        ENSURES("result", rc == (gh_fails ? ERROR : OK));
        ENSURES("passed on complete", gh_fails || (gh_open && gh_hdr && gh_bodyw && gh_via == 1));
        ENSURES("failure is remembered", !gh_fails || severe_error == ERROR);
    }
    VF_REACH("netmail");
}

/* ---- unpack: every message of the packet is dispatched ---- */
#define NM 2
static int gh_nmsg, gh_h, gh_type0, gh_hdrbad, gh_bodybad, gh_nn, gh_ne, gh_phase;
static int gh_isecho[NM], gh_spy[NM], gh_spyby[NM], gh_orgok[NM], gh_midok[NM], gh_nrc, gh_eof;
static Node gh_kfrom[NM], gh_kto[NM], gh_hfrom[NM], gh_hto[NM], gh_oo[NM], gh_om[NM];
static Packet gh_pkt; static Spy gh_spyrec[NM];
static FILE *gh_fp = (FILE *)&gh_file;
static int gh_tries;
long stub_int16(FILE *fp) { CALLER_OBL("packet file", fp == gh_fp); return gh_type0; }
int stub_feof(FILE *fp) { return gh_eof; }
void stub_printf(char *d, size_t n, const char *f, ...) { CALLER_OBL("format of a forwarded message", n == MSG_MAXSUBJ && !strncmp(f, "[FWD]", 5)); strcpy(d, "[FWD]"); }
int stub_xfeof(FILE *fp) { return gh_h >= gh_nmsg; }
int stub_gethdr(FILE *fp, Message *m, bool strict_)
{
    CALLER_OBL("messages remain", fp == gh_fp && gh_h < gh_nmsg && gh_phase == 0);
    ENSURES("addresses start from the packet's", node_eq(&m->node_from, &gh_pkt.from) && node_eq(&m->node_to, &gh_pkt.to));
    int i = gh_h++;
    if (gh_hdrbad == i) return ERROR;
    m->node_from = gh_hfrom[i]; m->node_to = gh_hto[i];
    strcpy(m->subject, "S");
    gh_phase = 1;
    return OK;
}
short stub_getbody(FILE *fp, MsgBody *b, Node *f, Node *t)
{
    CALLER_OBL("body after its header", fp == gh_fp && gh_phase == 1);
    if (gh_bodybad == gh_h - 1) return ERROR;
    b->area = gh_isecho[gh_h - 1] ? "AREA:X\r" : NULL;
    b->origin = "O";
    gh_phase = 2;
    return OK;
}
void stub_ptintl(MsgBody *b, Message *m, short del)
{
    ENSURES("netmail address kludges are taken out, points of the packet do not count", gh_phase == 2 && del && m->node_from.point == 0 && m->node_to.point == 0);
    m->node_from = gh_kfrom[gh_h - 1]; m->node_to = gh_kto[gh_h - 1];
}
Spy *stub_spy(Node *n)
{
    int i = gh_h - 1;
    if (gh_spy[i] && node_eq(n, gh_spyby[i] ? &gh_kto[i] : &gh_kfrom[i])) return &gh_spyrec[i];
    return NULL;
}
int stub_origin(char *s, Node *n) { if (gh_orgok[gh_h - 1]) { *n = gh_oo[gh_h - 1]; return OK; } return ERROR; }
int stub_msgid(char *s, Node *n) { if (gh_midok[gh_h - 1]) { *n = gh_om[gh_h - 1]; return OK; } return ERROR; }
char *stub_kget2(Textlist *tl, char *name, Textline **line) { return "x"; }
int stub_netmail(Packet *p, Message *m, MsgBody *b, int fwd)
{
    int i = gh_h - 1;
    ENSURES("netmail only", p == &gh_pkt && !gh_isecho[i]);
    if (gh_phase == 2) {
        ENSURES("from and to of the message itself", !fwd && node_eq(&m->node_from, &gh_kfrom[i]) && node_eq(&m->node_to, &gh_kto[i]));
        gh_phase = 3;
    } else {
        ENSURES("forwarded copy for a spied node", gh_phase == 3 && fwd && gh_spy[i] && node_eq(&m->node_to, &gh_spyrec[i].forward_node) && !strncmp(m->subject, "[FWD]", 5));
        gh_phase = 4;
    }
    if (gh_nrc == gh_nn++) return ERROR;
    if (!gh_spy[i] || gh_phase == 4) gh_phase = 0;
    return OK;
}
int stub_echomail(Packet *p, Message *m, MsgBody *b)
{
    int i = gh_h - 1; Node inv; node_invalid(&inv);
    ENSURES("echomail only", p == &gh_pkt && gh_isecho[i] && gh_phase == 2);
    ENSURES("from and to of the packet", node_eq(&m->node_from, &p->from) && node_eq(&m->node_to, &p->to));
    ENSURES("origin address from Origin line, else MSGID, else none", node_eq(&m->node_orig, gh_orgok[i] ? &gh_oo[i] : gh_midok[i] ? &gh_om[i] : &inv));
    gh_phase = 0;
    if (gh_nrc == gh_nn++) return ERROR;
    return OK;
}
static int gh_closed;
void outpkt_close(void) { ENSURES("only between messages", gh_phase == 0 || gh_spy[0]); gh_closed++; }
static void unpack_n(int n)
{
    gh_nmsg = n; gh_h = gh_nn = gh_phase = gh_closed = 0;
    gh_pkt.from = an(); gh_pkt.to = an();
    for (int i = 0; i < n; i++) {
        gh_isecho[i] = nd_bool("echo"); gh_spy[i] = gh_isecho[i] ? 0 : nd_bool("spy"); gh_spyby[i] = nd_bool("by"); gh_orgok[i] = nd_bool("orgok"); gh_midok[i] = nd_bool("midok");
        gh_kfrom[i] = an(); gh_kto[i] = an(); gh_hfrom[i] = an(); gh_hto[i] = an(); gh_oo[i] = an(); gh_om[i] = an();
        gh_spyrec[i].forward_node = an();
    }
    gh_type0 = nd_bool("type") ? MSG_TYPE : nd_bool("t2") ? ERROR : 0;
    gh_eof = nd_bool("eof");
    gh_hdrbad = (int)nd_range("hb", -1, NM); gh_bodybad = (int)nd_range("bb", -1, NM); gh_nrc = (int)nd_range("nrc", -1, 2 * NM);
    signal_exit = nd_bool("sig"); maxmsg = (int)nd_range("max", 0, 3); x_flag = 0; msg_count = 0;
    VF_PATCH(pkt_get_int16, stub_int16); VF_PATCH(xfeof, stub_xfeof); VF_PATCH(pkt_get_msg_hdr, stub_gethdr); VF_PATCH(pkt_get_body_parse, stub_getbody);
    VF_PATCH(kludge_pt_intl, stub_ptintl); VF_PATCH(spyes_lookup, stub_spy); VF_PATCH(msg_parse_origin, stub_origin); VF_PATCH(msg_parse_msgid, stub_msgid);
    VF_PATCH(debug, stub_debug); VF_PATCH(fglog, stub_log); VF_PATCH(znfp1, stub_z); VF_PATCH(znfp2, stub_z); VF_PATCH(znfp3, stub_z);
    VF_PATCH(kludge_get, stub_kget2); VF_PATCH(do_netmail, stub_netmail); VF_PATCH(do_echomail, stub_echomail); VF_PATCH(feof, stub_feof); VF_PATCH(str_printf, stub_printf);
    int rc = unpack(gh_fp, &gh_pkt);
    /* calls of do_netmail/do_echomail the good messages need, and whether one of them failed */
    int need = 0, bad = 0, sig = 0;
    if (gh_type0 == MSG_TYPE)
        for (int i = 0; i < n; i++)
            if (!bad && !sig) {
                if (gh_hdrbad == i || gh_bodybad == i) bad = 1;
                else {
                    for (int j = 0; j < 1 + gh_spy[i]; j++) if (!bad) { if (gh_nrc == need) bad = 1; need++; }
                    if (!bad && signal_exit) sig = 1;
                }
            }
    ENSURES("every message is processed, once", gh_nn == need);
    ENSURES("an unreadable packet or a failure is reported, so that the packet is kept", (rc == OK) == (!bad && !sig && !(gh_type0 == ERROR && !gh_eof)));
    ENSURES("output closed on a signal", !sig || gh_closed);
    VF_REACH("unpack");
}
#ifdef UNPACK_N
void h_unpack(void) { VF_PER("n", UNPACK_N, UNPACK_N, unpack_n); }
#else
void h_unpack(void) { VF_PER("n", 0, NM, unpack_n); }
#endif

/* ---- unpack_file: what happens to the packet file ---- */
static int gh_fopen_ok, gh_hdr_ok, gh_unp, gh_unl_ok, gh_ren, gh_unl, gh_opened, gh_closedf, gh_unpacked;
static char *gh_name = "/q/1.pkt";
FILE *stub_fopen(const char *n, const char *m)
{
    ENSURES("opened for reading", !strcmp(n, gh_name) && m[0] == 'r' && !strchr(m, '+'));
    if (!gh_fopen_ok) return NULL;
    gh_opened++;
    return gh_fp;
}
int stub_fclose(FILE *fp) { ENSURES("the packet, once", fp == gh_fp && gh_opened && !gh_closedf); gh_closedf++; return 0; }
int stub_getpkt(FILE *fp, Packet *p) { ENSURES("header of this packet", fp == gh_fp); memset(p, 0, sizeof(*p)); return gh_hdr_ok ? OK : ERROR; }
int stub_unpack(FILE *fp, Packet *p) { ENSURES("after its header, once", fp == gh_fp && gh_hdr_ok && !gh_closedf && !gh_unpacked); gh_unpacked++; if (gh_unp) severe_error = ERROR; return gh_unp ? ERROR : OK; }
int stub_unlink(const char *n) { ENSURES("removed only when everything in it was processed", !strcmp(n, gh_name) && gh_unpacked == 1 && !gh_unp); gh_unl++; return gh_unl_ok ? 0 : -1; }
void stub_rename_bad(char *n) { ENSURES("kept as bad", !strcmp(n, gh_name) && !gh_ren); gh_ren++; }
long stub_size(char *n) { return 99; }

void stub_time(TIMEINFO *t) { t->time = 1000; }
void h_unpack_file(void)
{
    gh_fopen_ok = nd_bool("fo"); gh_hdr_ok = nd_bool("ho"); gh_unp = nd_bool("un"); gh_unl_ok = nd_bool("ul"); severe_error = OK;
    VF_PATCH(pkt_get_hdr, stub_getpkt); VF_PATCH(unpack, stub_unpack); VF_PATCH(rename_bad, stub_rename_bad); VF_PATCH(check_size, stub_size);
    VF_PATCH(fopen, stub_fopen); VF_PATCH(fclose, stub_fclose); VF_PATCH(unlink, stub_unlink); VF_PATCH(GetTimeInfo, stub_time);
    VF_PATCH(fglog, stub_log);
    int rc = unpack_file(gh_name);
    int good = gh_fopen_ok && gh_hdr_ok && !gh_unp;
    ENSURES("a packet that could not be processed is kept under another name", !!gh_ren == (!good || !gh_unl_ok));
    ENSURES("a processed packet is removed", gh_unl == good);
    ENSURES("no file is left open", gh_closedf == gh_opened);
    ENSURES("failures while processing are reported", rc == ((good ? gh_unl_ok : !(gh_fopen_ok && gh_hdr_ok)) ? OK : ERROR));
    VF_REACH("unpack_file");
}
#ifndef VF_CPROVER
extern int vf_small;
void vf_reset(void)
{
    vf_small = 1;
    gh_rew = gh_rem = gh_open = gh_hdr = gh_bodyw = gh_via = gh_ping = gh_nbest = 0; severe_error = OK;
    gh_ren = gh_unl = gh_opened = gh_closedf = gh_unpacked = 0; signal_exit = 0; must_exit = 0;
}
#endif
