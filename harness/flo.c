/* Contracts of the outbound: names, BSY files, FLO files (src/common/binkley.c, src/common/flo.c) and of
   working off FLO files (src/util/ftnflo.c).  System calls and stdio are contracts over ghost files. */
#include "fg.h"
#include <errno.h>
#include <fcntl.h>
#ifdef VF_CPROVER
int verbose = 0;
char buffer[BUFFERSIZE];
#endif
void stub_log(const char *f, ...) { }
void stub_debug(int l, const char *f, ...) { }
static int same(const char *a, const char *b) { for (int i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
static int gh_bad;
static int fails(void) { int r = nd_bool("fail"); if (r) gh_bad = 1; return r; }
/* decimal numbers: a mark and four digits stand for them in the proof */
static int num(char *d, int k, int v)
{
    if (!VF_CBMC) return ex_num(d, k, v);
    d[k++] = 'N';
    for (int s = 12; s >= 0; s -= 4) { int x = v >> s & 15; d[k++] = x < 10 ? '0' + x : 'a' + x - 10; }
    return k;
}
/* the system calls of all units */
static FILE *k_fopen(const char *n, const char *m);
static int k_fclose(FILE *f), k_stat(const char *n, struct stat *st), k_fstat(int fd, struct stat *st), k_access(const char *n, int m), k_unlink(const char *n), k_fileno(FILE *f), k_ferror(FILE *f);
static int k_chmod(const char *n, int m), k_mkdir(const char *n, int m), k_fseek(FILE *f, long o, int w), k_open(const char *n, int fl, ...), k_close(int fd), k_printf(const char *f, ...);
static int k_fprintf(FILE *f, const char *fmt, ...);
static long k_ftell(FILE *f);
static char *k_fgets(char *b, int n, FILE *f);
static size_t k_fwrite(const void *p, size_t s, size_t n, FILE *f);
#define fopen k_fopen
#define fclose k_fclose
#define stat(n, b) k_stat(n, b)
#define fstat k_fstat
#define access k_access
#define unlink k_unlink
#undef fileno
#define fileno k_fileno
#undef ferror
#define ferror k_ferror
#define chmod k_chmod
#define mkdir k_mkdir
#define fseek k_fseek
#define open k_open
#define close k_close
#define printf k_printf
#define fprintf k_fprintf
#define ftell k_ftell
#define fgets k_fgets
#define fwrite k_fwrite
#ifdef VF_CPROVER
/* paths of the units are short */
# undef MAXPATH
# define MAXPATH 56
/* %s, %d and %04x of numbers below 65536 */
static void vf_fmtn(char *b, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int k = 0;
    for (int i = 0; i < 40; i++) {
        if (!f[i]) break;
        CALLER_OBL("fits", k + 6 < (int)n);
        if (f[i] != '%') { b[k++] = f[i]; continue; }
        i++;
        if (f[i] == 's') { char *s = va_arg(ap, char *); for (int j = 0; j < 12; j++) { if (!s[j]) break; b[k++] = s[j]; } }
        else if (f[i] == 'd') { int v = va_arg(ap, int); CALLER_OBL("five digits are enough", v >= 0 && v <= 65535); k = num(b, k, v); }
        else {
            CALLER_OBL("a known format", f[i] == '0' && f[i + 1] == '4' && f[i + 2] == 'x');
            int v = va_arg(ap, int); i += 2;
            CALLER_OBL("four digits are enough", v >= 0 && v <= 65535);
            for (int d = 12; d >= 0; d -= 4) { int x = v >> d & 15; b[k++] = x < 10 ? '0' + x : 'a' + x - 10; }
        }
    }
    b[k] = 0;
    va_end(ap);
}
# ifdef VF_DOFLO
void st_strprintf(char *b, size_t n, const char *f, ...);
#  define str_printf st_strprintf
# else
#  define str_printf vf_fmtn
# endif
#endif
#ifdef VF_DOFLO
# define main gh_main
# ifdef VF_CPROVER
static char gh_buffer[16];
#  define buffer gh_buffer
# endif
# include "src/util/ftnflo.c"
# undef main
static Node gh_node;
#else
#include "src/common/flo.c"
#include "src/common/binkley.c"
static Node gh_node;
#endif

#ifndef VF_DOFLO
/* ---- configuration ---- */
static int gh_aso, gh_hasout, gh_hasbase;
char *st_get_string(char *n, int f) { return gh_aso && same(n, "AmigaStyleOutbound") ? "" : NULL; }
char *st_zones_out(int z) { CALLER_OBL("zone of the address, 0 for Amiga style", z == (gh_aso ? 0 : gh_node.zone)); return gh_hasout ? "ou" : NULL; }
char *st_btbase(void) { return gh_hasbase ? "/b" : NULL; }
static void env_conf(void)
{
    gh_aso = nd_bool("aso"); gh_hasout = nd_bool("out"); gh_hasbase = nd_bool("base");
    gh_node = vf_node(0);
    VF_PATCH(cf_get_string, st_get_string); VF_PATCH(cf_zones_out, st_zones_out); VF_PATCH(cf_p_btbasedir, st_btbase);
}
static int hex4(char *d, int k, int v) { for (int s = 12; s >= 0; s -= 4) { int x = v >> s & 15; d[k++] = x < 10 ? '0' + x : 'a' + x - 10; } return k; }
static int base_name(char *d)
{
    int k = ex_str(d, 0, "/b/ou/");
    if (gh_aso) { k = num(d, k, gh_node.zone); d[k++] = '.'; k = num(d, k, gh_node.net); d[k++] = '.'; k = num(d, k, gh_node.node); d[k++] = '.'; k = num(d, k, gh_node.point); }
    else { k = hex4(d, k, gh_node.net); k = hex4(d, k, gh_node.node); if (gh_node.point > 0) { k = ex_str(d, k, ".pnt/0000"); k = hex4(d, k, gh_node.point); } }
    d[k++] = '.'; d[k] = 0;
    return k;
}
static char gh_exp[64];
void h_outname(void)
{
    env_conf();
#ifdef ASO
    gh_aso = ASO;
#endif
    char *s = bink_out_name(&gh_node);
    if (!gh_hasout || !gh_hasbase) { ENSURES("no name without an outbound", s == NULL); return; }
    base_name(gh_exp);
    ENSURES("the name of the node in the outbound of its zone", s && same(s, gh_exp));
    VF_REACH("outname");
}

/* ---- names of existing or new files ---- */
static char gh_base[8];
static int gh_nobase;
char *st_outname(Node *n) { CALLER_OBL("node", n == &gh_node); return gh_nobase ? NULL : gh_base; }
static const char *gh_ext[] = { "", "hlo", "flo", "dlo", "clo", "", "hut", "out", "dut", "cut", "bsy" };
static const char *gh_flav[] = { "", "Hold", "Normal", "Direct", "Crash" };
static int gh_exist[12];
static int ext_of(const char *n)
{
    char e[12]; int r = -1;
    for (int i = 1; i < 11; i++) { if (i == 5) continue; int k = ex_str(e, 0, "Ba."); k = ex_str(e, k, gh_ext[i]); e[k] = 0; if (same(n, e)) r = i; }
    CALLER_OBL("a file of this node", r >= 0);
    return r;
}
static char gh_fl[8];
static void flav(int k)
{
    int v = (int)nd_range("spell", 0, 3), out = (int)nd_range("which", 0, 1);
    const char *s = v == 0 ? gh_flav[k] : v == 1 ? gh_flav[k] : v == 2 ? gh_ext[k + 5 * out] : gh_flav[k];
    int j = 0;
    for (int i = 0; i < 7; i++) { if (!s[i]) break; gh_fl[j++] = nd_bool("up") ? toupper(s[i]) : tolower(s[i]); if (v == 1) break; }
    gh_fl[j] = 0;
}
static int gh_out;
static void find_n(int n)
{
    ex_str(gh_base, 0, "Ba."); gh_nobase = nd_bool("nobase");
    for (int i = 0; i < 12; i++) gh_exist[i] = nd_bool("exist");
    int none = n == 0, bad = n == 5;
    if (!none && !bad) flav(n);
    if (bad) { gh_fl[0] = 'x'; gh_fl[1] = 0; }
    VF_PATCH(bink_out_name, st_outname);
    VF_PATCH(debug, stub_debug);
    char *s = gh_out ? bink_find_out(&gh_node, none ? NULL : gh_fl) : bink_find_flo(&gh_node, none ? NULL : gh_fl);
    if (gh_nobase) { ENSURES("none without an outbound", s == NULL); return; }
    int o = gh_out ? 5 : 0, e = 0;
    for (int i = 4; i >= 1; i--) if (gh_exist[i + o]) e = i;
    if (e) { ENSURES("an existing file of the node is used", s && ext_of(s) == e + o); return; }
    if (none) { ENSURES("none where none exists", s == NULL); return; }
    if (bad) { ENSURES("none for an unknown flavor", s == NULL); return; }
    /* an extension of the other kind of file is no flavor */
    ENSURES("a new file of the flavor", s ? ext_of(s) == n + o : same(gh_fl, gh_fl) && gh_fl[2] && !gh_fl[3]);
    VF_REACH("find");
}
static void find_o(int o) { gh_out = o; VF_PER("flav", 0, 5, find_n); }
void h_find(void) { VF_PER("out", 0, 1, find_o); }

/* ---- BSY file ---- */
static int gh_mk, gh_lk, gh_ul, gh_mkr, gh_lkr, gh_wait, gh_sub;
int st_mkdir(Node *n) { CALLER_OBL("node", n == &gh_node); gh_mk++; return gh_mkr = nd_bool("mkdir") ? OK : ERROR; }
int st_lock(char *n, int w) { CALLER_OBL("the BSY file", ext_of(n) == 10 && w == gh_wait); CALLER_OBL("directory exists", gh_mk && gh_mkr == OK); gh_lk++; return gh_lkr = nd_bool("lock") ? OK : ERROR; }
static void bsy_n(int n)
{
    ex_str(gh_base, 0, "Ba."); gh_nobase = nd_bool("nobase");
    gh_mk = gh_lk = gh_ul = 0; gh_bad = 0; gh_wait = (int)nd_range("wait", 0, 1);
    gh_sub = 1;
    VF_PATCH(bink_out_name, st_outname); VF_PATCH(bink_mkdir, st_mkdir); VF_PATCH(lock_lockfile, st_lock); VF_PATCH(debug, stub_debug);
    if (n == 0) {
        int r = bink_bsy_create(&gh_node, gh_wait);
        ENSURES("a node is busy by us only if its BSY file was locked", r == (!gh_nobase && gh_mkr == OK && gh_lk == 1 && gh_lkr == OK ? OK : ERROR));
        ENSURES("nothing is deleted", gh_ul == 0 && gh_lk <= 1);
    }
    else if (n == 1) {
        int r = bink_bsy_delete(&gh_node);
        ENSURES("exactly the BSY file is deleted", r == (gh_nobase || gh_bad ? ERROR : OK) && gh_ul == !gh_nobase);
    }
    else {
        char *s = bink_bsy_name(&gh_node);
        ENSURES("name of the BSY file", gh_nobase ? s == NULL : s && ext_of(s) == 10);
    }
    VF_REACH("bsy");
}
void h_bsy(void) { gh_mkr = ERROR; VF_PER("op", 0, 2, bsy_n); }

/* ---- directories of the node ---- */
static int gh_dir[2];           /* zone directory, point directory */
static int dir_of(const char *n)
{
    char e[40]; int k = ex_str(e, 0, "/b/ou"); e[k] = 0;
    if (same(n, e)) return 0;
    e[k++] = '/'; k = hex4(e, k, gh_node.net); k = hex4(e, k, gh_node.node); k = ex_str(e, k, ".pnt"); e[k] = 0;
    CALLER_OBL("a directory of the node", same(n, e) && !gh_aso && gh_node.point > 0);
    return 1;
}
int st_access(char *n, int c) { CALLER_OBL("directory", c == CHECK_DIR); return gh_dir[dir_of(n)] ? TRUE : ERROR; }
void h_mkdir(void)
{
    gh_sub = 2; gh_bad = 0;
    env_conf();
    REQUIRES(gh_hasbase);
    gh_dir[0] = nd_bool("dir0"); gh_dir[1] = gh_dir[0] && nd_bool("dir1");
    VF_PATCH(check_access, st_access); VF_PATCH(fglog, stub_log);
    int r = bink_mkdir(&gh_node);
    if (!gh_hasout) { ENSURES("no directory without an outbound", r == ERROR); return; }
    ENSURES("the directories exist afterwards, or an error is returned", r == OK ? gh_dir[0] && (gh_aso || gh_node.point <= 0 || gh_dir[1]) : r == ERROR && gh_bad);
    VF_REACH("mkdir");
}

/* ---- opening a FLO file: other programs may create and delete it ---- */
#define NG 8
static int gh_gen, gh_cur, gh_env, gh_busy, gh_mode, gh_hgen, gh_open, gh_locked, gh_nopen;
static void env_(void)
{
    for (int i = 0; i < 2; i++) {
        int s = gh_env > 0 ? (int)nd_range("env", 0, 2) : 0;
        if (!s) continue;
        gh_env--;
        if (s == 1 && gh_cur && !(gh_open && gh_locked && gh_hgen == gh_cur)) gh_cur = 0;        /* deleted: needs its lock */
        if (s == 2 && !gh_cur) gh_cur = ++gh_gen;
    }
}
static int gh_rc, gh_del, gh_fe, gh_unl, gh_cl;
int st_bsyc(Node *n, int w)
{
    CALLER_OBL("node, waiting", n == &gh_node && w == WAIT && !gh_busy && !gh_open);
    env_();
    if (fails()) return ERROR;
    gh_busy = 1; return OK;
}
int st_bsyd(Node *n) { CALLER_OBL("our own BSY file", n == &gh_node && gh_busy); ENSURES("BSY file kept until the FLO file is closed", !(gh_open && gh_locked)); gh_busy = 0; return OK; }
char *st_find(Node *n, char *f) { ex_str(gh_base, 0, "Ba.flo"); return fails() ? NULL : gh_base; }
int st_lockf(FILE *f) { CALLER_OBL("an open file", gh_open); env_(); if (fails()) return ERROR; gh_locked = 1; env_(); return OK; }
static void nm(const char *n) { CALLER_OBL("the FLO file", same(n, "Ba.flo")); }
static void open_c(int c)
{
    int bsy = c & 1, ap = c >> 1;
    gh_sub = 3;
    flo_fp = NULL;
    gh_bad = gh_open = gh_busy = gh_locked = gh_nopen = 0; gh_gen = 1; gh_cur = nd_bool("exists"); gh_env = VF_CBMC ? VF_BOUND : (int)nd_range("steps", 0, VF_BOUND);
    int steps = gh_env;
    gh_mkr = OK;
    VF_PATCH(bink_find_flo, st_find); VF_PATCH(bink_mkdir, st_mkdir); VF_PATCH(bink_bsy_create, st_bsyc); VF_PATCH(bink_bsy_delete, st_bsyd); VF_PATCH(lock_file, st_lockf);
    VF_PATCH(fglog, stub_log); VF_PATCH(debug, stub_debug);
    int r = flo_openx(&gh_node, bsy, "Hold", ap);
    ENSURES("success or error", r == OK || r == ERROR);
    if (r == OK) {
        ENSURES("open and locked", gh_open && gh_locked && flo_fp == (FILE *)&gh_open && flo_file() == flo_fp);
        ENSURES("it is the file that has the name", gh_hgen == gh_cur && gh_cur != 0);
        ENSURES("the node is busy by us exactly if asked for", gh_busy == bsy);
        ENSURES("opened as asked for", gh_mode == (ap ? 'a' : 'r'));
        ENSURES("nothing read yet", flo_off_cur == -1 && flo_off_next == 0);
    } else {
        ENSURES("after an error nothing is left open", !gh_open && flo_fp == NULL);
        ENSURES("after an error no BSY file is left", !gh_busy);
        ENSURES("an error only where something failed or the file is gone", gh_bad || gh_mkr == ERROR || (!ap && gh_env < steps));
    }
    VF_REACH("open");
}
void h_open(void) { VF_PER("bsyap", 0, 3, open_c); }
/* ---- closing ---- */
void h_close(void)
{
    int bsy = nd_bool("bsy"), del = nd_bool("del"), was = nd_bool("open");
    gh_sub = 3; gh_bad = gh_unl = gh_cl = 0; gh_env = 0; gh_gen = 1;
    gh_open = gh_locked = was; gh_busy = bsy; gh_hgen = gh_cur = 1; gh_nopen = was;
    flo_fp = was ? (FILE *)&gh_open : NULL;
    ex_str(flo_name, 0, "Ba.flo"); flo_name[6] = 0;
    VF_PATCH(bink_bsy_delete, st_bsyd); VF_PATCH(fglog, stub_log);
    gh_fe = nd_bool("ferror");
    int r = flo_close(&gh_node, bsy, del);
    ENSURES("closed", !gh_open && flo_fp == NULL);
    ENSURES("no longer busy", !gh_busy);
    if (!was) return;
    if (gh_fe) ENSURES("after a read or write error the FLO file is kept and the error reported", r == ERROR && !gh_unl && gh_cur == 1);
    else if (del) ENSURES("deleted, or an error", gh_unl == 1 && (gh_cur == 0 ? r == OK : r == ERROR));
    else ENSURES("kept, and an error only where writing failed", !gh_unl && r == (gh_cl ? ERROR : OK));
    VF_REACH("close");
}
static FILE *k_fopen(const char *n, const char *m)
{
    nm(n);
    CALLER_OBL("opened once", !gh_open);
    CALLER_OBL("read and write, not truncated", (m[0] == 'a' || m[0] == 'r') && (m[1] == '+' || m[2] == '+'));
    gh_mode = m[0];
    env_();
    if (!gh_cur && m[0] == 'r') { gh_bad = 1; return NULL; }
    if (fails()) return NULL;
    if (!gh_cur) gh_cur = ++gh_gen;
    gh_hgen = gh_cur; gh_open = 1; gh_locked = 0;
    return (FILE *)&gh_open;
}
static int k_fclose(FILE *f) { CALLER_OBL("the open file", f == (FILE *)&gh_open && gh_open); gh_open = gh_locked = 0; gh_cl = fails(); env_(); return gh_cl ? EOF : 0; }
static int k_stat(const char *n, struct stat *st) { nm(n); env_(); if (!gh_cur) { gh_bad = 1; errno = ENOENT; return -1; } st->st_dev = 1; st->st_ino = gh_cur; return 0; }
static int k_fstat(int fd, struct stat *st) { CALLER_OBL("the open file", fd == 9 && gh_open); env_(); st->st_dev = 1; st->st_ino = gh_hgen; return 0; }
static int k_fileno(FILE *f) { CALLER_OBL("the open file", f == (FILE *)&gh_open && gh_open); return 9; }
static int k_access(const char *n, int m)
{
    if (gh_sub == 3) { nm(n); env_(); if (!gh_cur) { gh_bad = 1; errno = ENOENT; return -1; } return 0; }
    return gh_exist[ext_of(n)] ? 0 : -1;
}
static int k_chmod(const char *n, int m) { return 0; }
static int k_mkdir(const char *n, int m)
{
    int d = dir_of(n);
    CALLER_OBL("made where it does not exist, parent first", !gh_dir[d] && (d == 0 || gh_dir[0]));
    if (fails()) return -1;
    gh_dir[d] = 1; return 0;
}
static int k_unlink(const char *n)
{
    gh_ul++;
    if (gh_sub == 1) { CALLER_OBL("the BSY file", ext_of(n) == 10); return fails() ? -1 : 0; }
    nm(n);
    ENSURES("deleted only while it is locked by us", gh_open && gh_locked && gh_hgen == gh_cur);
    gh_unl++;
    if (fails()) return -1;
    gh_cur = 0; return 0;
}

/* ---- reading and marking entries ---- */
#define NB (VF_BOUND)
static char gh_d[16], gh_o[16];
static int gh_n, gh_pos, gh_rerr, gh_sk;
static int gh_err;
static long k_ftell(FILE *f) { return gh_pos; }
static char *k_fgets(char *b, int n, FILE *f)
{
    int k = 0, end = 0;
    if (gh_rerr) { gh_err = 1; return NULL; }
    CALLER_OBL("room", n == 12);
    for (int i = 0; i < NB; i++) if (!end && i == gh_pos && i < gh_n) { b[k++] = gh_d[i]; gh_pos++; if (gh_d[i] == '\n') end = 1; }
    if (!k) return NULL;
    b[k] = 0;
    return b;
}
static int k_ferror(FILE *f) { return gh_sub == 3 ? gh_fe : gh_err; }
static int gh_at, gh_atr;
static int k_fseek(FILE *f, long o, int w)
{
    CALLER_OBL("from the start", w == SEEK_SET);
    gh_at++;
    if (gh_sk && nd_bool("seek")) return -1;
    if (gh_sub == 5) { gh_atr = o == 0; return 0; }
    CALLER_OBL("within the file", o >= 0 && o <= gh_n);
    gh_pos = (int)o;
    return 0;
}
static size_t k_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    CALLER_OBL("one byte", s * n == 1 && gh_pos < gh_n);
    if (gh_sk && nd_bool("write")) { gh_err = 1; return 0; }
    for (int i = 0; i < NB; i++) if (i == gh_pos) gh_d[i] = *(const char *)p;
    gh_pos++;
    return 1;
}
static void read_n(int n)
{
    char b[12];
    gh_n = n; gh_sub = 4; gh_err = 0; gh_pos = 0; gh_rerr = 0; gh_sk = 0;
    for (int i = 0; i < NB; i++) { gh_d[i] = i < n ? (char)nd_range("d", 1, 126) : 0; gh_o[i] = gh_d[i]; }
    flo_fp = (FILE *)&gh_open; flo_off_cur = -1; flo_off_next = 0;
    VF_PATCH(fglog, stub_log);
    if (nd_bool("early")) flo_mark();            /* nothing read: nothing marked */
    int pos = 0;
    for (int l = 0; l < NB + 1; l++) {
        gh_rerr = nd_bool("rerr"); gh_sk = nd_bool("sk");
        b[0] = 1; b[1] = '\n'; for (int i = 2; i < 12; i++) b[i] = 0;
        char *s = flo_gets(b, sizeof(b));
        if (gh_rerr || pos >= n) { ENSURES("end or read error: no entry, buffer as before", s == NULL && b[1] == '\n'); break; }
        int e = pos, t;
        for (int i = 0; i < NB; i++) if (i == e && i < n && gh_o[i] != '\n') e++;
        t = e;                  /* the text without CR LF */
        int nx = e < n ? e + 1 : e;
        int ls = pos;
        for (int i = 1; i < NB + 1; i++) if (i == t && i > ls && gh_o[i - 1] == '\r') { t = i - 1; break; }
        int ok = s == b, k = 0;
        for (int i = 0; i < NB; i++) if (i >= ls && i < t) { ok = ok && b[k] == gh_o[i]; k++; }
        ENSURES("the next line without its line end", ok && b[k] == 0);
        if (nd_bool("mark")) {
            flo_mark();
            for (int i = 0; i < NB; i++) {
                if (i == ls && !gh_sk) ENSURES("the line read last is marked", gh_d[i] == '~');
                if (i == ls && gh_sk) ENSURES("marked or as before", gh_d[i] == '~' || gh_d[i] == gh_o[i]);
                if (i == ls) gh_o[i] = gh_d[i];
                else ENSURES("nothing else is changed", gh_d[i] == gh_o[i]);
            }
            if (gh_sk && gh_pos != nx) break;
        }
        pos = nx;
        ENSURES("reading goes on with the next line", gh_pos == pos);
        VF_REACH("line");
    }
}
void h_read(void) { VF_PER("n", 0, NB, read_n); }

/* ---- attaching a file ---- */
#define NE (VF_BOUND)
static const char gh_px[] = { 0, '^', '#', '@', '~' };
static const char *gh_nm[] = { "/x", "/", "/xx", "/y", "" };
static int gh_e, gh_i, gh_p[8], gh_w[8], gh_nw, gh_wok, gh_m, gh_flo, gh_cr, gh_dos, gh_bsy, gh_xok;
static char gh_file[4];
int st_dos(void) { return gh_dos; }
char *st_dosx(char *s) { CALLER_OBL("the file", gh_dos && s == gh_file); return gh_xok ? "/x" : NULL; }
int st_openx(Node *n, int bsy, char *f, int ap) { CALLER_OBL("for appending, made if needed", n == &gh_node && bsy == gh_bsy && f == gh_fl && ap && !gh_flo); if (fails()) return ERROR; gh_flo = 1; return OK; }
FILE *st_file(void) { CALLER_OBL("open", gh_flo); return (FILE *)&gh_open; }
char *st_gets(char *s, size_t n)
{
    CALLER_OBL("open, from the start", gh_flo && gh_atr && n > 10);
    if (gh_i >= gh_e) return NULL;
    int k = 0;
    for (int j = 0; j < NE; j++) if (j == gh_i) { if (gh_px[gh_p[j]]) s[k++] = gh_px[gh_p[j]]; const char *t = gh_nm[gh_w[j]]; for (int c = 0; c < 4; c++) { s[k + c] = t[c]; if (!t[c]) break; } }
    gh_i++;
    return s;
}
int st_close(Node *n, int bsy, int del) { CALLER_OBL("open; BSY as for opening; not deleted", n == &gh_node && gh_flo == 1 && bsy == gh_bsy && !del); gh_flo = 2; return gh_cr = fails() ? ERROR : OK; }
static int k_fprintf(FILE *f, const char *fmt, ...)
{
    char b[16], x[16]; int k = 0, j = 0;
    va_list ap; va_start(ap, fmt);
    CALLER_OBL("the open FLO file", f == (FILE *)&gh_open && gh_flo == 1);
    for (int i = 0; i < 10; i++) {
        if (!fmt[i]) break;
        if (fmt[i] != '%') { b[k++] = fmt[i]; continue; }
        i++;
        CALLER_OBL("a known format", fmt[i] == 'c' || fmt[i] == 's');
        if (fmt[i] == 'c') b[k++] = (char)va_arg(ap, int);
        else { char *s = va_arg(ap, char *); for (int c = 0; c < 4; c++) { if (!s[c]) break; b[k++] = s[c]; } }
    }
    b[k] = 0;
    va_end(ap);
    if (gh_m) x[j++] = gh_px[gh_m];
    x[j++] = '/'; x[j++] = 'x';
    if (gh_dos) x[j++] = '\r';
    x[j++] = '\n'; x[j] = 0;
    gh_wok = same(b, x);
    gh_nw++;
    return k;
}
static void attach_n(int n)
{
    gh_sub = 5; gh_e = n; gh_i = gh_nw = gh_wok = gh_flo = gh_bad = gh_at = gh_atr = 0; gh_sk = nd_bool("sk"); gh_cr = OK;
    for (int i = 0; i < 8; i++) { gh_p[i] = (int)nd_range("p", 0, 4); gh_w[i] = (int)nd_range("w", 0, 4); }
    gh_m = (int)nd_range("m", 0, 3); gh_dos = nd_bool("dos"); gh_xok = nd_bool("xok"); gh_bsy = nd_bool("bsy");
    gh_file[0] = '/'; gh_file[1] = gh_dos ? 'q' : 'x'; gh_file[2] = 0;
    VF_PATCH(cf_dos, st_dos); VF_PATCH(cf_dos_xlate, st_dosx); VF_PATCH(flo_openx, st_openx); VF_PATCH(flo_file, st_file); VF_PATCH(flo_gets, st_gets); VF_PATCH(flo_close, st_close);
    VF_PATCH(fglog, stub_log); VF_PATCH(debug, stub_debug);
    int r = bink_attach(&gh_node, gh_px[gh_m], gh_file, gh_fl, gh_bsy);
    int found = 0;
    for (int i = 0; i < NE; i++) if (i < n && gh_p[i] != 4 && gh_w[i] == 0) found = 1;
    ENSURES("the FLO file is closed", gh_flo != 1);
    if (gh_flo == 0 || !gh_atr) { ENSURES("an error where it cannot be read", r == ERROR && !gh_nw); return; }
    ENSURES("all entries looked at", gh_i == n);
    if (found) ENSURES("a file waiting to be sent is not attached again", gh_nw == 0);
    else ENSURES("the file is attached once, with its mode", gh_nw == 1 && gh_wok);
    ENSURES("success exactly if the entry is in the file", r == gh_cr);
    VF_REACH("attach");
}
void h_attach(void) { VF_PER("n", 0, NE, attach_n); }
static int k_open(const char *n, int fl, ...) { return -1; }
static int k_close(int fd) { return 0; }
static int k_printf(const char *f, ...) { return 0; }
#else
/* ---- ftnflo: working off the entries ---- */
#define NE (VF_BOUND)
static const char gh_px[] = { 0, '^', '#', '@', '~' };
static int gh_n, gh_i, gh_open, gh_p[8], gh_ran[8], gh_rc[8], gh_mark[8], gh_unl[8], gh_trunc[8], gh_del, gh_cur, gh_fdo, gh_list, gh_oerr;
static int ent(const char *s) { CALLER_OBL("a file of the FLO file", s[0] == '/' && s[1] >= 'a' && s[1] < 'a' + gh_n && !s[2]); CALLER_OBL("the entry read last", s[1] - 'a' == gh_i - 1); return s[1] - 'a'; }
int st_open(Node *n, int bsy) { CALLER_OBL("with a BSY file", n == &gh_node && bsy && !gh_open); if (fails()) return ERROR; gh_open = 1; return OK; }
char *st_gets(char *s, size_t n)
{
    CALLER_OBL("open", gh_open == 1 && n > 8);
    if (gh_i >= gh_n) { gh_i = gh_n + 1; return NULL; }
    int k = 0;
    for (int j = 0; j < NE; j++) if (j == gh_i && gh_px[gh_p[j]]) s[k++] = gh_px[gh_p[j]];
    s[k] = '/'; s[k + 1] = 'a' + gh_i; s[k + 2] = 0;
    gh_i++;
    return s;
}
void st_mark(void)
{
    CALLER_OBL("open, an entry read", gh_open == 1 && gh_i >= 1 && gh_i <= gh_n);
    for (int j = 0; j < NE; j++) if (j == gh_i - 1) { ENSURES("marked as sent only after the command succeeded", gh_ran[j] && !gh_rc[j]); gh_mark[j]++; }
}
int st_close(Node *n, int bsy, int del) { CALLER_OBL("open; BSY as for opening", n == &gh_node && gh_open == 1 && bsy); gh_open = 2; gh_del = del; return OK; }
int st_dos(void) { return 0; }
void st_strprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *s = va_arg(ap, char *);
    CALLER_OBL("the script and the file", f == script);
    b[0] = s[0]; b[1] = s[1]; b[2] = s[2];
    va_end(ap);
}
int st_system(const char *c)
{
    int r = fails();
    for (int j = 0; j < NE; j++) if (j == ent(c)) { gh_ran[j]++; gh_rc[j] = r; }
    return r;
}
static int k_unlink(const char *n) { for (int j = 0; j < NE; j++) if (j == ent(n)) { ENSURES("removed only after the command succeeded", gh_ran[j] && !gh_rc[j]); gh_unl[j]++; } return fails() ? -1 : 0; }
static int k_open(const char *n, int fl, ...) { for (int j = 0; j < NE; j++) if (j == ent(n)) { ENSURES("truncated only after the command succeeded", gh_ran[j] && !gh_rc[j] && (fl & O_TRUNC)); gh_trunc[j]++; } return fails() ? -1 : 7; }
static int k_close(int fd) { return 0; }
static int k_printf(const char *f, ...) { gh_list++; return 0; }
long st_size(char *n) { return 1; }
static void doflo_n(int n)
{
    gh_n = n; gh_i = gh_open = gh_bad = gh_del = gh_list = 0;
    l_flag = nd_bool("l"); n_flag = nd_bool("n"); x_flag = nd_bool("x");
    for (int i = 0; i < 8; i++) { gh_p[i] = (int)nd_range("p", 0, 4); gh_ran[i] = gh_rc[i] = gh_mark[i] = gh_unl[i] = gh_trunc[i] = 0; }
    script[0] = 's'; script[1] = 0;
    VF_PATCH(flo_open, st_open); VF_PATCH(flo_gets, st_gets); VF_PATCH(flo_mark, st_mark); VF_PATCH(flo_close, st_close); VF_PATCH(cf_dos, st_dos); VF_PATCH(run_system, st_system); VF_PATCH(check_size, st_size);
    VF_PATCH(fglog, stub_log); VF_PATCH(debug, stub_debug);
    
#ifndef VF_CPROVER
    VF_PATCH(str_printf, st_strprintf);
#endif
    int r = do_flo(&gh_node);
    if (!gh_open) { ENSURES("no FLO file: nothing to do", r == OK && !gh_i); return; }
    ENSURES("closed", gh_open == 2);
    int todo = 0, stop = 0, sent = 0;
    for (int i = 0; i < NE; i++) if (i < n) {
        if (stop || gh_p[i] == 4 || !x_flag || n_flag) { ENSURES("nothing done for an entry sent before, or not to be sent now", !gh_ran[i] && !gh_mark[i] && !gh_unl[i] && !gh_trunc[i]); if (gh_p[i] != 4) todo++; continue; }
        ENSURES("the command is run once for the entry", gh_ran[i] == 1);
        if (gh_rc[i]) { stop = 1; todo++; ENSURES("an entry whose command failed is not touched", !gh_mark[i] && !gh_unl[i] && !gh_trunc[i]); continue; }
        ENSURES("marked as sent", gh_mark[i] == 1);
        ENSURES("the file is removed, truncated or kept as its mode says", gh_unl[i] == (gh_p[i] == 1) && gh_trunc[i] == (gh_p[i] == 2));
    }
    ENSURES("a failing command is an error", r == (stop ? ERROR : OK));
    ENSURES("the FLO file is deleted exactly when nothing in it is left to send", gh_del == !todo);
    VF_REACH("doflo");
}
void h_doflo(void) { VF_PER("n", 0, NE, doflo_n); }
static FILE *k_fopen(const char *n, const char *m) { return NULL; }
static int k_fclose(FILE *f) { return 0; }
static int k_stat(const char *n, struct stat *st) { return -1; }
static int k_fstat(int fd, struct stat *st) { return -1; }
static int k_access(const char *n, int m) { return -1; }
static int k_fileno(FILE *f) { return 0; }
static int k_ferror(FILE *f) { return 0; }
static int k_chmod(const char *n, int m) { return 0; }
static int k_mkdir(const char *n, int m) { return 0; }
static int k_fseek(FILE *f, long o, int w) { return 0; }
static int k_fprintf(FILE *f, const char *fmt, ...) { return 0; }
static long k_ftell(FILE *f) { return 0; }
static char *k_fgets(char *b, int n, FILE *f) { return NULL; }
static size_t k_fwrite(const void *p, size_t s, size_t n, FILE *f) { return 0; }
#endif
