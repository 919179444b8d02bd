/* Contract of xstrtok (src/common/strtok_r.c): the words of a line, quoted words with \" */
#include "fg.h"
void stub_log(const char *f, ...) { }
void stub_debug(int l, const char *f, ...) { }
#ifndef NLO
# define NLO 0
#endif
static int ws(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
/* next word of t from *pos on; its characters in w; length or -1 */
static int next_word(const char *t, int n, int *pos, char *w, int *quoted)
{
    int i = *pos, k = 0;
    *quoted = 0;
    while (i < n && ws(t[i])) i++;
    if (i >= n) { *pos = i; return -1; }
    if (t[i] == '"') {
        *quoted = 1; i++;
        while (i < n && t[i] != '"') { if (t[i] == '\\' && i + 1 < n && t[i + 1] == '"') i++; w[k++] = t[i++]; }
        if (i < n) i++;
    } else {
        while (i < n && !ws(t[i])) w[k++] = t[i++];
    }
    *pos = i;
    return k;
}
static void words_n(int n)
{
    char *s = malloc(n + 1), t[64], w[64]; int pos = 0, q, rest = nd_bool("rest"), end = 0;
    REQUIRES(s != NULL);
    vf_chars = " \"\\\t\na";
    for (int i = 0; i < n; i++) { s[i] = nd_char("s"); REQUIRES(s[i] != 0); t[i] = s[i]; } s[n] = 0;
    char *p = xstrtok(s, " \t\r\n");
    for (int c = 0; c <= n; c++) if (!end) {
        int k = next_word(t, n, &pos, w, &q);
        if (k < 0) { ENSURES("no more words", p == NULL); end = 1; }
        else {
            ENSURES("a word", p != NULL && p >= s && p + k <= s + n);
            ENSURES("the word, without its quotes", vf_eq(p, w, k) && p[k] == 0);
            if (rest && !q) {
                while (pos < n && ws(t[pos])) pos++;
                int e = pos;
                while (pos < n && (t[pos] == '\r' || t[pos] == '\n')) pos++;
                e = pos; while (e < n && t[e] != '\r' && t[e] != '\n') e++;
                if (pos < n && t[pos] != '"') {
                    p = xstrtok(NULL, "\r\n");
                    ENSURES("the rest of the line", p != NULL && vf_eq(p, t + pos, e - pos) && p[e - pos] == 0);
                }
                end = 1;
            } else p = xstrtok(NULL, " \t\r\n");
        }
    }
    if (!end) ENSURES("no more words", p == NULL);
    VF_REACH("words");
}
void h_words(void) { VF_PER("n", NLO, VF_BOUND, words_n); }
