/* Contract of wildmatch(): shell style patterns. */
#include "vf.h"
#if defined(VF_CUT) && defined(VF_CPROVER)
# define FIDOGATE_CONTRACTS 1
# define VFC_WILDMAT 1
int vfc_cut(char **s, char **p, char **saved_s, char **saved_p);
#endif
#include "fg.h"
#include "src/common/wildmat.c"

static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int ceq(int a, int b, int ic) { return ic ? up(a) == up(b) : a == b; }
/* one character class starting behind '[': does c belong to it, where does it end (at ']', or -1) */
static int cls(const char *p, int j, int c, int ic, int *end)
{
    int rev = 0, m = 0, last = 256;
    if (p[j] == '^') { rev = 1; j++; }
    for (; p[j] && p[j] != ']'; j++) {
        if (p[j] == '-' && p[j + 1]) {
            j++;
            int lo = ic ? up(last) : last, hi = ic ? up(p[j]) : p[j], x = ic ? up(c) : c;
            if (x >= lo && x <= hi) m = 1;
        } else if (ceq(c, p[j], ic)) m = 1;
        last = p[j];
    }
    *end = p[j] ? j : -1;
    return m != rev;
}
/* specification: gW[i][j] = the pattern from position j matches the string from position i */
#define N1 (VF_BOUND + 1)
static int gW[N1 + 1][N1 + 2];
static char *gs, *gp;
static int gns, gnp;
static int spec(const char *s, int ns, const char *p, int np, int ic, int *ok)
{
    *ok = 1;
    for (int i = VF_BOUND; i >= 0; i--)
        for (int j = VF_BOUND; j >= 0; j--) {
            int v;
            if (i > ns || j > np) v = 0;
            else if (!p[j]) v = !s[i];
            else if (p[j] == '*') v = gW[i][j + 1] || (s[i] && gW[i + 1][j]);
            else if (p[j] == '?') v = s[i] && gW[i + 1][j + 1];
            else if (p[j] == '\\' && p[j + 1]) v = s[i] && ceq(s[i], p[j + 1], ic) && gW[i + 1][j + 2];
            else if (p[j] == '[') {
                int e, in = cls(p, j + 1, s[i], ic, &e);
                if (e < 0) { *ok = 0; v = 0; }
                else v = s[i] && in && gW[i + 1][e + 1];
            } else v = s[i] && ceq(s[i], p[j], ic) && gW[i + 1][j + 1];
            gW[i][j] = v;
        }
    return gW[0][0];
}
#if defined(VF_CUT) && defined(VF_CPROVER)
static int weak;
/* the loop invariant: the string still matches from here, or from a later start of the last star;
 * and every match from a later start of the star passes through the current pattern position */
static int inv(char *s, char *p, char *ss, char *sp)
{
    if (!__CPROVER_same_object(s, gs) || !__CPROVER_same_object(p, gp)) return 0;
    int i = s - gs, j = p - gp, r;
    if (i < 0 || i > gns || j < 0 || j > gnp) return 0;
    r = gW[i][j];
    if (sp) {
        if (!__CPROVER_same_object(ss, gs) || !__CPROVER_same_object(sp, gp)) return 0;
        int si = ss - gs, sj = sp - gp;
        if (si < 0 || si > i || sj <= 0 || sj > j || gp[sj - 1] != '*') return 0;
        for (int k = 0; k <= VF_BOUND; k++)
            if (!weak && k > si && k <= gns && gW[k][sj]) {
                if (k + i - si > gns || !gW[k + i - si][j]) return 0;
                if (k < gns) r = 1;
            }
    } else if (__CPROVER_same_object(ss, gs) || *ss != 0) return 0;
    return weak || !!r == !!gW[0][0];
}
static int cut_seen;
static char empty_str[2];
int vfc_cut(char **s, char **p, char **ss, char **sp)
{
    __CPROVER_assert(inv(*s, *p, *ss, *sp), "ensures:loop invariant of the matcher");
    __CPROVER_assume(!cut_seen);
    cut_seen = 1;
    int i = nondet_vf_int(), j = nondet_vf_int(), si = nondet_vf_int(), sj = nondet_vf_int();
    __CPROVER_assume(i >= 0 && i <= gns && j >= 0 && j <= gnp && si >= 0 && si <= gns && sj >= 0 && sj <= gnp);
    *s = gs + i; *p = gp + j;
    if (sj) { *ss = gs + si; *sp = gp + sj; } else { *ss = empty_str; *sp = NULL; }
    __CPROVER_assume(inv(*s, *p, *ss, *sp));
    return 1;
}
#endif
void h_match(void)
{
    vf_chars = "aAbzZ*?[]^-\\c";
    static char s[VF_BOUND + 1], p[VF_BOUND + 1];
    int ok;
    int ns = vf_str_in(s, VF_BOUND), np = vf_str_in(p, VF_BOUND), ic = (int)nd_range("ic", 0, 2), old = nd_bool("old");
    for (int i = 0; i < ns; i++) REQUIRES(s[i] > 0);
    for (int i = 0; i < np; i++) REQUIRES(p[i] > 0);
    gs = s; gp = p; gns = ns; gnp = np;
    int e = spec(s, ns, p, np, ic != 0, &ok);
    REQUIRES(ok);
    int r = ic == 2 ? wildmatch(p, s, ic) : ic == 0 && old ? wildmat(s, p) : wildmatch(s, p, ic);
    ENSURES("matches iff * ? [] and literals cover the whole string", r == (e ? TRUE : FALSE));
    ENSURES("is_wildcard", !!is_wildcard(p) == (strchr(p, '*') || strchr(p, '?') || strchr(p, '[')));
    VF_REACH("match");
}
/* malformed patterns included: memory safe, terminates, result is a truth value */
void h_safe(void)
{
    vf_chars = "aA*?[]^-\\c";
    char *s = vf_str("s", VF_BOUND), *p = vf_str("p", VF_BOUND);
    gs = s; gp = p; gns = strlen(s); gnp = strlen(p);
#if defined(VF_CUT) && defined(VF_CPROVER)
    weak = 1;
#endif
    int r = wildmatch(s, p, nd_bool("ic"));
    ENSURES("truth value", r == TRUE || r == FALSE);
    VF_REACH("safe");
}
