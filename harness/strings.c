/* Contracts of the bounded string functions (src/common/misc.c). */
#include "vf.h"

#if VF_UNBOUNDED
#define VFC_MISC_CAT 1
#include "vf_strcontract.h"
static size_t gh_l[6], gh_off[6];      /* segment lengths; where each loop stopped */
static size_t gh_K;                    /* arbitrary index into the destination */
static char gh_SK;                     /* byte gh_K of the concatenation */
#endif

#include "src/common/misc.c"
#include "vf_stubs.h"

#define MAXLEN 1000000UL

#if VF_UNBOUNDED
/* ---- all sizes: destination of n bytes, m source strings of any length ---- */
static char *src[6];
static void mk_sources(int m, size_t first)
{
    size_t sum = first;
    gh_K = nondet_vf_size();
    gh_off[0] = first;
    for (int j = 1; j <= m; j++) {
        gh_l[j] = nondet_vf_size();
        REQUIRES(gh_l[j] < MAXLEN);
        src[j] = malloc(gh_l[j] + 1);
        __CPROVER_assume(src[j] != NULL);
        src[j][gh_l[j]] = 0;
        if (gh_K >= sum && gh_K < sum + gh_l[j])
            gh_SK = src[j][gh_K - sum];
        sum += gh_l[j];
    }
    gh_l[0] = sum;
}
static void check_cat(char *d, size_t n, char *r)
{
    size_t T = gh_l[0] < n - 1 ? gh_l[0] : n - 1;
    ENSURES("returns the destination", r == d);
    ENSURES("result is terminated right after what fits", d[T] == 0);
    ENSURES("result is the prefix of the concatenation", !(gh_K < T) || d[gh_K] == gh_SK);
}
#define MK_DST(d, n) \
    size_t n = nondet_vf_size(); REQUIRES(n >= 1 && n < MAXLEN); \
    char *d = malloc(n); __CPROVER_assume(d != NULL)

void h_copy2(void) { MK_DST(d, n); mk_sources(2, 0);
    check_cat(d, n, str_copy2(d, n, src[1], src[2])); VF_REACH("copy2"); }
void h_copy3(void) { MK_DST(d, n); mk_sources(3, 0);
    check_cat(d, n, str_copy3(d, n, src[1], src[2], src[3])); VF_REACH("copy3"); }
void h_copy4(void) { MK_DST(d, n); mk_sources(4, 0);
    check_cat(d, n, str_copy4(d, n, src[1], src[2], src[3], src[4])); VF_REACH("copy4"); }
void h_copy5(void) { MK_DST(d, n); mk_sources(5, 0);
    check_cat(d, n, str_copy5(d, n, src[1], src[2], src[3], src[4], src[5])); VF_REACH("copy5"); }

static void mk_dst_string(char *d, size_t n)
{
    size_t l0 = nondet_vf_size();
    REQUIRES(l0 < n);
    d[l0] = 0;
    vf_reg(d, l0);
    mk_sources(2, l0);
    if (gh_K < l0)
        gh_SK = d[gh_K];
}
void h_append2(void) { MK_DST(d, n); mk_dst_string(d, n);
    check_cat(d, n, str_append2(d, n, src[1], src[2])); VF_REACH("append2"); }
void h_append(void) { MK_DST(d, n); mk_dst_string(d, n);
    gh_l[0] -= gh_l[2];
    vf_reg(src[1], gh_l[1]);
    check_cat(d, n, str_append(d, n, src[1])); VF_REACH("append"); }
void h_copy(void) { MK_DST(d, n); mk_sources(1, 0);
    vf_reg(src[1], gh_l[1]);
    check_cat(d, n, str_copy(d, n, src[1])); VF_REACH("copy"); }

#else
/* ---- bounded / native ---- */
static int bl;                 /* length of the concatenation */
static char bc[8 * VF_BOUND + 8];
static char *bs(void)
{
    char *s = vf_str("s", VF_BOUND);
    int l = strlen(s);
    for (int i = 0; i < l; i++) bc[bl + i] = s[i];
    bl += l;
    return s;
}
static void chk(char *d, int n, char *r)
{
    int T = bl < n - 1 ? bl : n - 1;
    ENSURES("returns the destination", r == d);
    ENSURES("result is terminated right after what fits", d[T] == 0);
    for (int i = 0; i < T; i++)
        ENSURES("result is the prefix of the concatenation", d[i] == bc[i]);
}
#define BDST int n = (int)nd_range("n", 1, 3 * VF_BOUND); char *d = vf_buf("d", n); bl = 0
#define BDSTS BDST; { int l0 = (int)nd_range("l0", 0, n - 1);     for (int i = 0; i < l0; i++) { REQUIRES(d[i] != 0); bc[i] = d[i]; } d[l0] = 0; bl = l0; }
void h_copy(void)  { BDST; char *a = bs(); chk(d, n, str_copy(d, n, a)); VF_REACH("e"); }
void h_copy2(void) { BDST; char *a = bs(), *b = bs(); chk(d, n, str_copy2(d, n, a, b)); VF_REACH("e"); }
void h_copy3(void) { BDST; char *a = bs(), *b = bs(), *c = bs(); chk(d, n, str_copy3(d, n, a, b, c)); VF_REACH("e"); }
void h_copy4(void) { BDST; char *a = bs(), *b = bs(), *c = bs(), *e = bs(); chk(d, n, str_copy4(d, n, a, b, c, e)); VF_REACH("e"); }
void h_copy5(void) { BDST; char *a = bs(), *b = bs(), *c = bs(), *e = bs(), *f = bs();
    chk(d, n, str_copy5(d, n, a, b, c, e, f)); VF_REACH("e"); }
void h_append(void) { BDSTS; char *a = bs(); chk(d, n, str_append(d, n, a)); VF_REACH("e"); }
void h_append2(void) { BDSTS; char *a = bs(), *b = bs(); chk(d, n, str_append2(d, n, a, b)); VF_REACH("e"); }
#endif
