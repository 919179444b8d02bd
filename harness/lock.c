/* Contracts of the lock files (src/common/lock.c) and the sequence numbers (src/common/sequencer.c).
   The system calls are contracts over a ghost file; before each of them other programs, which keep to
   the same protocol, may take any steps. */
#include "fg.h"
#include <setjmp.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
void stub_log(const char *f, ...) { }
#ifdef VF_CPROVER
int verbose = 0;
char buffer[BUFFERSIZE];
void xfree(void *p) { }
# define HALT() __CPROVER_assume(0)
# define CATCH()
#else
static jmp_buf gh_jb;
# define HALT() longjmp(gh_jb, 1)
# define CATCH() if (setjmp(gh_jb)) return
#endif
static int gh_trouble, gh_sleeps, gh_patience;
static int fails(const char *n) { int r = nd_bool("fail"); if (r) gh_trouble = 1; return r; }

/* ---- the lock file ---- */
enum { FREE, OURS, LIVE, STALE };
#define NG 12
static int gh_owner, gh_gen, gh_full, gh_dead[NG], gh_ours, gh_wpid, gh_env;
static struct hh { int gen, used, wr, excl, locked, full, wrote; } gh_h[3];
static int gh_nh;
#define MYPID 55
static int locked_(int gen) { for (int i = 0; i < 3; i++) if (gh_h[i].used && gh_h[i].locked && gh_h[i].gen == gen) return 1; return 0; }
static void env_(void)
{
    for (int i = 0; i < 2; i++) {
        int s = gh_env > 0 ? (int)nd_range("env", 0, 4) : 0;
        if (!s) continue;
        gh_env--;
        if (s == 1 && gh_owner == FREE && gh_gen < NG - 2) { gh_owner = LIVE; gh_gen++; gh_full = nd_bool("full"); gh_trouble = 1; }
        if (s == 2 && gh_owner == LIVE) { gh_full = 1; gh_trouble = 1; }
        if (s == 3 && gh_owner == LIVE) { gh_owner = FREE; gh_trouble = 1; }
        if (s == 4 && gh_owner == LIVE && gh_full) { gh_owner = STALE; for (int k = 0; k < NG; k++) if (k == gh_gen) gh_dead[k] = 1; gh_trouble = 1; }
        if (s == 1 && gh_owner == STALE && !locked_(gh_gen)) { gh_owner = FREE; gh_trouble = 1; }
    }
}
static struct hh *h_of(FILE *f) { for (int i = 0; i < 3; i++) if (f == (FILE *)&gh_h[i]) { CALLER_OBL("an open file", gh_h[i].used); return &gh_h[i]; } CALLER_OBL("a file that was opened", 0); HALT(); return &gh_h[0]; }
static FILE *h_new(int wr) { if (gh_nh >= 3) { REQUIRES(gh_nh < 3); HALT(); } struct hh *h = &gh_h[gh_nh++]; h->used = 1; h->gen = gh_gen; h->wr = wr; h->excl = h->locked = h->wrote = 0; h->full = gh_full; return (FILE *)h; }
static char gh_name[2] = "L";
static void nm(const char *n) { CALLER_OBL("the lock file", n[0] == 'L' && n[1] == 0); }
static void create_(void) { gh_owner = OURS; gh_gen++; gh_full = 0; gh_ours = gh_gen; }
static int k_open(const char *n, int fl, ...)
{
    nm(n); env_();
    if (gh_owner != FREE) {
        if ((fl & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) { errno = EEXIST; return -1; }
        if (fl & O_TRUNC) { ENSURES("the lock of another program is not overwritten", gh_owner != LIVE); gh_full = 0; }
        return 7;
    }
    if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
    if (fails("open")) { errno = EACCES; return -1; }
    create_(); return 7;
}
static FILE *k_fdopen(int fd, const char *m) { CALLER_OBL("our file", fd == 7); if (fails("fdopen")) return NULL; return h_new(1); }
static int k_close(int fd) { return 0; }
static FILE *k_fopen(const char *n, const char *m)
{
    nm(n); env_();
    int wr = m[0] != 'r';
    if (gh_owner == FREE) { if (!wr) { errno = ENOENT; return NULL; } if (fails("fopen")) { errno = EACCES; return NULL; } create_(); return h_new(1); }
    if (fails("fopen")) { errno = EACCES; return NULL; }
    if (m[0] == 'w') { ENSURES("the lock of another program is not overwritten", gh_owner != LIVE); gh_full = 0; gh_owner = OURS; }
    return h_new(wr);
}
static int k_fprintf(FILE *f, const char *fmt, int pid) { struct hh *h = h_of(f); CALLER_OBL("opened for writing", h->wr); h->wrote = 1; gh_wpid = pid; return 1; }
static int k_fclose(FILE *f)
{
    struct hh *h = h_of(f); int r = 0;
    if (h->wr && h->wrote) { if (fails("fclose")) r = -1; else if (h->gen == gh_gen && gh_owner == OURS) gh_full = gh_wpid == MYPID; }
    h->used = h->locked = 0;
    env_();
    return r;
}
static char *k_fgets(char *b, int n, FILE *f)
{
    struct hh *h = h_of(f);
    env_();
    CALLER_OBL("room", n >= 4);
    int full = h->gen == gh_gen ? gh_full : h->full;
    if (!full) return NULL;
    if (fails("fgets")) return NULL;
    b[0] = 'a' + h->gen; b[1] = '\n'; b[2] = 0;
    return b;
}
static int k_atoi(const char *s) { return s[0] == 'a' + gh_ours ? MYPID : 100 + (s[0] - 'a'); }
static int k_kill(int pid, int sig)
{
    int d = 0;
    ENSURES("no signal is sent", sig == 0);
    env_();
    if (pid == MYPID) return 0;
    CALLER_OBL("the process of the lock", pid >= 100 && pid < 100 + NG);
    for (int k = 0; k < NG; k++) if (k == pid - 100) d = gh_dead[k];
    if (d) { errno = ESRCH; return -1; }
    if (nd_bool("eperm")) { errno = EPERM; return -1; }
    return 0;
}
static int k_unlink(const char *n)
{
    nm(n); env_();
    if (gh_owner == FREE) { errno = ENOENT; return -1; }
    if (fails("unlink")) { errno = EACCES; return -1; }
    ENSURES("the lock of a live program is not removed", gh_owner != LIVE);
    gh_owner = FREE;
    return 0;
}
static int k_fileno(FILE *f) { for (int i = 0; i < 3; i++) if (h_of(f) == &gh_h[i]) return 10 + i; return -1; }
static int gh_eintr, gh_fdone, gh_fdm;
static int k_fcntl(int fd, int cmd, struct flock *fl)
{
    if (gh_fdm) ENSURES("tried again only after a signal", !gh_fdone);
    CALLER_OBL("an exclusive lock of the whole file", fd >= 10 && fd < 13 && cmd == F_SETLKW && fl->l_whence == SEEK_SET && fl->l_start == 0 && fl->l_len == 0);
    env_();
    if (gh_eintr > 0 && nd_bool("eintr")) { gh_eintr--; errno = EINTR; return -1; }
    gh_fdone = 1;
    if (fails("fcntl")) { errno = ENOLCK; return -1; }
    for (int i = 0; i < 3; i++) if (fd == 10 + i) gh_h[i].locked = fl->l_type == F_WRLCK;
    return 0;
}
static int k_stat(const char *n, struct stat *st) { nm(n); env_(); if (gh_owner == FREE) { errno = ENOENT; return -1; } if (fails("stat")) return -1; st->st_ino = gh_gen; st->st_dev = 1; return 0; }
static int k_fstat(int fd, struct stat *st) { env_(); for (int i = 0; i < 3; i++) if (fd == 10 + i) { st->st_ino = gh_h[i].gen; st->st_dev = 1; } return fails("fstat") ? -1 : 0; }
static int k_access(const char *n, int m) { nm(n); env_(); if (gh_owner == FREE) { errno = ENOENT; return -1; } return 0; }
static unsigned k_sleep(unsigned s) { gh_sleeps++; env_(); if (gh_sleeps > gh_patience) HALT(); return 0; }
static int k_getpid(void) { return MYPID; }
#define open k_open
#define fdopen k_fdopen
#define close k_close
#define fopen k_fopen
#undef fprintf
#define fprintf k_fprintf
#define fclose k_fclose
#define fgets k_fgets
#define atoi k_atoi
#define kill k_kill
#define unlink k_unlink
#undef fileno
#define fileno k_fileno
#define fcntl(a, b, c) k_fcntl(a, b, c)
#define stat(a, b) k_stat(a, b)
#define fstat(a, b) k_fstat(a, b)
#define access k_access
#define sleep k_sleep
#define getpid k_getpid
#define fglog stub_log
#include "src/common/lock.c"
#undef open
#undef fdopen
#undef close
#undef fopen
#undef fprintf
#undef fclose
#undef fgets
#undef atoi
#undef kill
#undef unlink
#undef fileno
#undef fcntl
#undef stat
#undef fstat
#undef access
#undef sleep
#undef getpid

static void init_(int o)
{
    gh_owner = o; gh_gen = 1; gh_full = o == FREE ? 0 : o == STALE ? 1 : nd_bool("full");
    for (int i = 0; i < NG; i++) gh_dead[i] = 0;
    gh_dead[1] = o == STALE; gh_ours = -1; gh_wpid = 0; gh_nh = 0; gh_trouble = 0; gh_sleeps = 0; gh_eintr = 1; gh_fdm = 0;
    for (int i = 0; i < 3; i++) { gh_h[i].used = gh_h[i].locked = 0; }
}
#ifndef ENVN
# define ENVN VF_BOUND
#endif
static void lock_c(int c)
{
    static const int own[3] = { FREE, LIVE, STALE };
    int wait = c / 3, o = own[c % 3];           /* 0: do not wait, 1: for ever, 2: two seconds */
    init_(o); gh_env = ENVN; gh_patience = wait == 1 ? 1 : 3;
    if (wait) REQUIRES(1);
    CATCH();
    int r = lock_lockfile(gh_name, wait);
    if (r == OK) ENSURES("we have the lock, with our process in it, and nobody else", gh_owner == OURS && gh_full && gh_gen == gh_ours && gh_wpid == MYPID);
    else ENSURES("no lock of ours is left without success", r == ERROR && (gh_owner != OURS || gh_trouble));
    if (!gh_trouble && gh_eintr == 1) ENSURES("a lock that is free or stale is got, and one that is held is not", (r == OK) == (o != LIVE));
    if (r != OK && wait == 0) ENSURES("no waiting", gh_sleeps == 0);
    for (int i = 0; i < 3; i++) ENSURES("files are closed", !gh_h[i].used);
    VF_REACH("lock");
}
#ifndef WLO
# define WLO 0
# define WHI 2
#endif
void h_lock(void) { VF_PER("c", WLO, WHI, lock_c); }
void h_unlock(void)
{
    init_(OURS); gh_env = 0; gh_full = 1; gh_ours = 1;
    CATCH();
    int r = unlock_lockfile(gh_name);
    ENSURES("removed exactly if success is reported", (r == OK) == (gh_owner == FREE) && (r == OK || r == ERROR));
    VF_REACH("unlock");
}
void h_fdlock(void)
{
    init_(FREE); gh_env = 0; gh_fdone = 0; gh_fdm = 1; gh_eintr = 3; gh_owner = LIVE; gh_full = 1;
    CATCH();
    struct hh *h = (struct hh *)h_new(1);
    int e0 = gh_eintr, r = nd_bool("fd") ? lock_fd(10) : lock_file((FILE *)h);
    (void)e0;
    ENSURES("locked exactly if success is reported, whatever signals arrive", (r == 0) == (h->locked != 0) && (r == 0 || gh_trouble));
    h->locked = 1; gh_trouble = gh_fdone = 0;
    r = nd_bool("fd") ? unlock_fd(10) : unlock_file((FILE *)h);
    ENSURES("and unlocked", (r == 0) == (h->locked == 0) && (r == 0 || gh_trouble));
    VF_REACH("fdlock");
}

/* the names of lock files: the same for locking and unlocking */
static char pa_n[4]; static int pa_l, pa_u, pa_w, pa_r;
static void pa_is(const char *n) { ENSURES("the lock file of this name", n[0] == 'D' && n[1] == '/' && n[2] == pa_n[0] && (!n[2] || (n[3] == pa_n[1] && (!n[3] || (n[4] == pa_n[2] && (!n[4] || n[5] == 0)))))); }
int pa_lock(char *n, int w) { pa_is(n); pa_l++; pa_w = w; return pa_r; }
int pa_unlock(char *n) { pa_is(n); pa_u++; return pa_r; }
char *pa_dir(void) { return "D"; }
char *pa_exp(char *d, size_t n, char *s) { CALLER_OBL("the path", s == pa_n); d[0] = 'D'; d[1] = '/'; for (int i = 0; i < 4; i++) { d[2 + i] = s[i]; if (!s[i]) break; } return d; }
void h_paths(void)
{
    vf_str_in(pa_n, 3);
    int w = nd_int("wait"); pa_r = nd_bool("ok") ? OK : ERROR; pa_l = pa_u = 0;
    VF_PATCH(lock_lockfile, pa_lock); VF_PATCH(unlock_lockfile, pa_unlock); VF_PATCH(cf_p_lockdir, pa_dir); VF_PATCH(str_expand_name, pa_exp);
    ENSURES("the result of locking", lock_program(pa_n, w) == pa_r && pa_l == 1 && pa_w == w);
    ENSURES("the result of unlocking", unlock_program(pa_n) == pa_r && pa_u == 1);
    ENSURES("the result of locking a path", lock_path(pa_n, w) == pa_r && pa_l == 2 && pa_w == w);
    unlock_path(pa_n);
    ENSURES("the path is unlocked", pa_u == 2 && pa_l == 2);
    VF_REACH("paths");
}

/* ---- sequence numbers ---- */
static int sq_exists, sq_open, sq_err, sq_pos, sq_dir, sq_locked, sq_abort, sq_atend; static long sq_v, sq_max, sq_pend, sq_base, sq_got;
static char sq_f[2];
static void sq_env(void)
{
    if (sq_locked || !nd_bool("other")) return;
    if (!sq_exists) { if (!sq_dir) return; sq_exists = 1; sq_v = 0; }
    long n = nd_range("taken", 0, 1000);
    sq_v += n; sq_max = sq_v;
}
static FILE *q_fopen(const char *n, const char *m)
{
    sq_env();
    if (n[0] == 'd') { if (sq_dir) { errno = EISDIR; return NULL; } errno = ENOENT; return NULL; }
    CALLER_OBL("the sequencer file", n[0] == 's' && n[1] == 0);
    if (!sq_exists && m[0] == 'r') { errno = ENOENT; return NULL; }
    if (!sq_exists && !sq_dir) { errno = ENOENT; gh_trouble = 1; return NULL; }
    if (fails("fopen")) { errno = EACCES; return NULL; }
    sq_exists = 1;
    if (m[0] == 'w') { ENSURES("numbers handed out are not forgotten", sq_max == 0); sq_v = 0; }
    CALLER_OBL("one file open at a time", !sq_open);
    sq_atend = m[0] == 'a'; sq_open = 1; sq_err = 0; sq_pend = -1;
    return (FILE *)sq_f;
}
static void sq_is(FILE *f) { CALLER_OBL("the open file", f == (FILE *)sq_f && sq_open); }
static int q_lock(FILE *f) { sq_is(f); sq_env(); if (fails("lock")) return -1; sq_locked = 1; sq_base = sq_max; return 0; }
static char *q_fgets(char *b, int n, FILE *f) { sq_is(f); CALLER_OBL("room for a number", n > 21); sq_env(); if (fails("read")) { sq_err = 1; return NULL; } sq_got = sq_v; if (sq_v == 0 && nd_bool("empty")) return NULL; b[0] = 'V'; b[1] = 0; return b; }
static long q_atol(const char *s) { CALLER_OBL("the line read", s[0] == 'V'); return sq_got; }
static int q_ferror(FILE *f) { sq_is(f); return sq_err; }
static void q_rewind(FILE *f) { sq_is(f); sq_err = 0; }
static int q_fprintf(FILE *f, const char *fmt, long n) { sq_is(f); CALLER_OBL("the number as a line", fmt[0] == '%' && fmt[1] == 'l' && fmt[2] == 'd' && fmt[3] == '\n'); if (fails("write")) sq_err = 1; ENSURES("the number is written under the lock", sq_locked); sq_pend = n; return 1; }
static int q_fclose(FILE *f)
{
    int r = 0;
    sq_is(f);
    if (sq_pend >= 0) {
        if (sq_err || fails("flush")) { r = sq_err ? 0 : -1; if (nd_bool("part")) sq_v = sq_pend; }
        else { ENSURES("the number in the file is higher than all numbers handed out", sq_pend > sq_base); sq_v = sq_pend; }
        if (sq_v > sq_max) sq_max = sq_v;
    }
    sq_open = sq_locked = 0;
    sq_env();
    return r;
}
static int q_mkdir(const char *n, int m) { CALLER_OBL("the directory", n[0] == 'd'); if (fails("mkdir")) return -1; sq_dir = 1; return 0; }
static void q_exit(int c) { ENSURES("the program stops only where that is wanted, after an error", sq_abort && gh_trouble && c != 0); HALT(); }
static char *q_dir(void) { return "d"; }
static void q_exp(char *d, size_t n, char *s) { d[0] = 's'; d[1] = 0; }
#define fopen q_fopen
#define fclose q_fclose
#define fgets q_fgets
#define atol q_atol
#define ferror q_ferror
#define rewind q_rewind
#define fprintf q_fprintf
#undef fileno
#define mkdir(a, b) q_mkdir(a, b)
#define exit q_exit
#define lock_file q_lock
#define cf_p_seq_pack q_dir
#define str_expand_name q_exp
#include "src/common/sequencer.c"
#undef fopen
#undef fclose
#undef fgets
#undef atol
#undef ferror
#undef rewind
#undef fprintf
#undef mkdir
#undef exit
void h_seq(void)
{
    sq_dir = nd_bool("dir"); sq_exists = sq_dir && nd_bool("exists"); sq_max = sq_v = sq_exists ? nd_range("v", 0, 1L << 40) : 0;
    sq_open = sq_err = sq_locked = 0; sq_pend = -1; gh_trouble = 0; sq_base = -1;
    sq_abort = nd_bool("abort");
    CATCH();
    long r = sq_abort && nd_bool("plain") ? sequencer("%S/seq") : sequencer_nx("%S/seq", sq_abort);
    if (r == ERROR) ENSURES("without a number only after an error, where the caller checks for that", gh_trouble && !sq_abort);
    else ENSURES("a number that was never handed out before, and will not be again", sq_base >= 0 && r > sq_base && r <= sq_v);
    ENSURES("no gap", r == ERROR || r == sq_base + 1);
    ENSURES("the file is closed and unlocked", !sq_open && !sq_locked);
    VF_REACH("seq");
}
