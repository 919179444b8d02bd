/* Native runtime for the harnesses: replay of recorded inputs, and a random
 * search that is only used to look for a failing input once the verifier has
 * reported a failed obligation. */
#include "vf.h"
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>

#define EXIT_VIOL 99
#define EXIT_REJECT 77
#define EXIT_DIVERGED 78

const char *vf_chars = NULL;
void VF_ENTRY(void);

#define MAXIN 60000
struct rec { char name[24]; long v; };
struct logbuf { volatile int n; struct rec r[MAXIN]; };
static struct logbuf *lg;
static int replaying;
static struct logbuf *rp;
static int rpos;
static jmp_buf jb;
static unsigned long rs;

static unsigned long rnd(void)
{
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return rs * 2685821657736338717UL;
}

static int style;
int vf_small;       /* a harness whose inputs must often coincide sets this in vf_reset() */
/* a harness with ghost state resets it here before every run of the search */
__attribute__((weak)) void vf_reset(void) { }

long vf_next(const char *name, long lo, long hi, int kind)
{
    long v;
    if (replaying) {
        if (rpos >= rp->n) {      /* inputs the verifier sliced away */
            v = lo > 0 ? lo : hi < 0 ? hi : 0;
            rpos++;
        } else {
            if (strncmp(rp->r[rpos].name, name, 23)) {
                fprintf(stderr, "VF-DIVERGED at %d: want %s have %s\n", rpos, name,
                        rp->r[rpos].name);
                _exit(EXIT_DIVERGED);
            }
            v = rp->r[rpos++].v;
        }
        return v;
    }
    switch (kind) {
    case 2: case 1: {
        unsigned long r = rnd() >> 20;
        const char *cs = vf_chars ? vf_chars : " \t\r\n:/.@,%_-=?*[]()<>\"'\\0129aAzZfF\001";
        if (style == 0 || (r & 15) == 0) v = (long)(rnd() >> 13 & 255);
        else if (style == 1) v = (unsigned char)cs[(rnd() >> 13) % strlen(cs)];
        else v = (r & 1) ? (unsigned char)cs[(rnd() >> 13) % strlen(cs)]
                 : "abAB019"[(rnd() >> 13) % 7];
        if (kind == 2) v = (signed char)v;
        break; }
    case 3: v = rnd() >> 17 & 1; break;
    default: {
        unsigned long span = (unsigned long)hi - (unsigned long)lo;
        unsigned long r = (rnd() >> 20) & 15;
        if (span == ~0UL) v = (long)rnd();
        else if (vf_small && span > 64 && r < 13) v = lo + (long)((rnd() >> 9) % 2);
        else if (r == 0) v = lo;
        else if (r == 1) v = hi;
        else if (r < 5 && span > 64) v = lo + (long)((rnd() >> 9) % 33);
        else if (r < 7 && lo < 0 && hi > 64) v = (long)((rnd() >> 9) % 65) - 2;
        else if (r < 9 && hi > 255 && lo <= 0) v = (long)((rnd() >> 9) % 65536);
        else v = lo + (long)((rnd() >> 3) % (span + 1));
        if (v < lo || v > hi) v = lo + (long)((rnd() >> 3) % (span + 1));
        break; }
    }
    if (lg && lg->n < MAXIN) {
        struct rec *q = &lg->r[lg->n];
        strncpy(q->name, name, 23);
        q->v = v;
        lg->n++;
    }
    return v;
}

int vf_num(const char *name, int lo, int hi) { return (int)vf_next(name, lo, hi, 4); }

/* native counterpart of goto-instrument --replace-calls: every call of fn goes to to */
void vf_patch(void *fn, void *to)
{
    unsigned char *p = fn, code[12] = { 0x48, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xe0 };
    unsigned long a = (unsigned long)p & ~4095UL;
    memcpy(code + 2, &to, 8);
    if (!memcmp(p, code, 12)) return;
    if (mprotect((void *)a, 8192, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); _exit(3); }
    memcpy(p, code, 12);
    mprotect((void *)a, 8192, PROT_READ | PROT_EXEC);
}

void vf_reject(void)
{
    if (replaying)
        _exit(EXIT_REJECT);
    longjmp(jb, 1);
}

void vf_violation(const char *name)
{
    fprintf(stderr, "VF-VIOLATION ensures:%s\n", name);
    fflush(stderr);
    _exit(EXIT_VIOL);
}

int vf_dec(unsigned long v, unsigned char *dg)
{
    char b[32];
    int n = sprintf(b, "%lu", v);
    for (int i = 0; i < n; i++) dg[i] = b[i] - '0';
    return n;
}

/* ---- streams ---------------------------------------------------------- */
static FILE *of[64]; static char *ob[64]; static size_t ol[64]; static int on;
static size_t of_wit[64];
static int of_index(FILE *fp)
{
    for (int i = 0; i < on; i++) if (of[i] == fp) return i;
    return 0;
}
FILE *vf_open_in(const unsigned char *data, size_t len)
{
    FILE *fp = tmpfile();
    if (!fp) { perror("tmpfile"); _exit(3); }
    if (len) fwrite(data, 1, len, fp);
    rewind(fp);
    return fp;
}
FILE *vf_open_out(void)
{
    if (on >= 64) { on = 0; }
    of[on] = open_memstream(&ob[on], &ol[on]);
#ifdef VF_OUT_WITNESS
    of_wit[on] = (size_t)vf_next("wit", 0, 1L << 40, 4);
#endif
    return of[on++];
}
unsigned char *vf_out_data(FILE *fp, size_t *len)
{
    fflush(fp);
    for (int i = 0; i < on; i++)
        if (of[i] == fp) { *len = ol[i]; return (unsigned char *)ob[i]; }
    *len = 0;
    return NULL;
}

size_t vf_out_witness(FILE *fp, size_t *k, int *c)
{
    size_t len;
    unsigned char *d = vf_out_data(fp, &len);
    *k = of_wit[of_index(fp)];
    if (len && *k >= len) *k %= len;
    *c = len ? d[*k] : 0;
    return len;
}
size_t vf_in_pos(FILE *fp) { return (size_t)ftell(fp); }

static void dump(const char *file)
{
    FILE *f = fopen(file, "w");
    if (!f) return;
    for (int i = 0; i < lg->n; i++)
        fprintf(f, "%s %ld\n", lg->r[i].name, lg->r[i].v);
    fclose(f);
}

int main(int argc, char **argv)
{
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r");
        char nm[64]; long v;
        if (!f) return 3;
        rp = calloc(1, sizeof *rp);
        while (fscanf(f, "%63s %ld", nm, &v) == 2 && rp->n < MAXIN) {
            strncpy(rp->r[rp->n].name, nm, 23);
            rp->r[rp->n].v = v;
            rp->n++;
        }
        fclose(f);
        replaying = 1;
        alarm(20);
        VF_ENTRY();
        return 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "search")) {
        unsigned long seed = strtoul(argv[2], 0, 10);
        double secs = atof(argv[3]);
        const char *out = argv[4];
        time_t t0 = time(NULL);
        long runs = 0, rejects = 0;
        lg = mmap(0, sizeof *lg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        long *cnt = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (unsigned long batch = 0; time(NULL) - t0 < secs; batch++) {
            pid_t p = fork();
            if (!p) {
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1); dup2(dn, 2);
                for (int i = 0; i < 300; i++) {
                    rs = (seed * 1000003UL + batch * 7919UL + i + 1) * 0x9E3779B97F4A7C15UL | 1;
                    rnd(); rnd();
                    style = rnd() >> 11 & 3;
                    lg->n = 0;
                    cnt[0]++;
                    alarm(10);
                    vf_reset();
                    if (!setjmp(jb)) { VF_ENTRY(); }
                    else cnt[1]++;
                    if (time(NULL) - t0 >= secs) break;
                }
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                dump(out);
                /* must reproduce in a fresh process */
                pid_t q = fork();
                if (!q) {
                    int dn = open("/dev/null", O_WRONLY);
                    dup2(dn, 1); dup2(dn, 2);
                    execl("/proc/self/exe", argv[0], "replay", out, (char *)0);
                    _exit(0);
                }
                int st2;
                waitpid(q, &st2, 0);
                if (WIFEXITED(st2) && WEXITSTATUS(st2) != 98 && WEXITSTATUS(st2) != EXIT_VIOL) {
                    cnt[2]++;
                    continue;
                }
                printf("FOUND runs=%ld rejects=%ld status=%d\n", cnt[0], cnt[1], st);
                return EXIT_VIOL;
            }
        }
        runs = cnt[0]; rejects = cnt[1];
        printf("NONE runs=%ld rejects=%ld unconfirmed=%ld\n", runs, rejects, cnt[2]);
        return 0;
    }
    return 3;
}
