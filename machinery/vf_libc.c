/*
 * vf_libc.c --- executable models of the C library functions that cbmc does not
 * model itself (POSIX locale).  Trusted: they are compared with the real libc by
 * machinery/libc_selftest.  Only linked into the cbmc stages.
 */
#include "vf.h"
#include <stdarg.h>
#include <time.h>
#include <strings.h>

const char *vf_chars;

#ifndef VF_OUTCAP
# define VF_OUTCAP 160
#endif

/* ---- ctype ------------------------------------------------------------ */
int isdigit(int c)  { return c >= '0' && c <= '9'; }
int isupper(int c)  { return c >= 'A' && c <= 'Z'; }
int islower(int c)  { return c >= 'a' && c <= 'z'; }
int isalpha(int c)  { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c)  { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int isspace(int c)  { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c)  { return c >= 32 && c < 127; }
int iscntrl(int c)  { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c)  { return c > 32 && c < 127 && !isalnum(c); }
int toupper(int c)  { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c)  { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

/* ---- strings ---------------------------------------------------------- */
int strcasecmp(const char *a, const char *b)
{
    size_t i = 0;
    for (;; i++) {
        int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
    return 0;
}
#if !VF_UNBOUNDED || !defined(VF_STRC)
void *memccpy(void *d, const void *s, int c, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        ((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
        if (((const unsigned char *)s)[i] == (unsigned char)c)
            return (char *)d + i + 1;
    }
    return NULL;
}
#endif
char *strstr(const char *h, const char *n)
{
    for (;; h++) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char *)h;
        if (!*h) return NULL;
    }
}
size_t strspn(const char *s, const char *set)
{
    size_t i = 0;
    for (; s[i]; i++) {
        int k = 0;
        for (const char *q = set; *q; q++) if (*q == s[i]) { k = 1; break; }
        if (!k) break;
    }
    return i;
}
size_t strcspn(const char *s, const char *set)
{
    size_t i = 0;
    for (; s[i]; i++) {
        int k = 0;
        for (const char *q = set; *q; q++) if (*q == s[i]) { k = 1; break; }
        if (k) break;
    }
    return i;
}
char *strpbrk(const char *s, const char *set)
{
    s += strcspn(s, set);
    return *s ? (char *)s : NULL;
}
static char *vf_tok;
char *strtok(char *s, const char *d)
{
    if (!s) s = vf_tok;
    if (!s) return NULL;
    s += strspn(s, d);
    if (!*s) { vf_tok = NULL; return NULL; }
    char *b = s;
    s += strcspn(s, d);
    if (*s) { *s = 0; vf_tok = s + 1; } else vf_tok = NULL;
    return b;
}
size_t strnlen(const char *s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i]) i++;
    return i;
}

/* ---- numbers ---------------------------------------------------------- */
long strtol(const char *s, char **end, int base)
{
    const char *s0 = s;
    long v = 0; int neg = 0, any = 0, ov = 0;
    while (isspace((unsigned char)*s)) s++;
    if (*s == '+' || *s == '-') { neg = *s == '-'; s++; }
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
        && isxdigit((unsigned char)s[2])) { s += 2; base = 16; }
    else if (base == 0) base = s[0] == '0' ? 8 : 10;
    for (;; s++) {
        int d;
        if (*s >= '0' && *s <= '9') d = *s - '0';
        else if (*s >= 'a' && *s <= 'z') d = *s - 'a' + 10;
        else if (*s >= 'A' && *s <= 'Z') d = *s - 'A' + 10;
        else break;
        if (d >= base) break;
        any = 1;
        if (v > (9223372036854775807L - d) / base) ov = 1;
        else v = v * base + d;
    }
    if (end) *end = (char *)(any ? s : s0);
    if (ov) return neg ? -9223372036854775807L - 1 : 9223372036854775807L;
    return neg ? -v : v;
}
int atoi(const char *s)  { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }

/* ---- printf family ---------------------------------------------------- */
struct vf_sink { char *buf; size_t cap; size_t n; FILE *fp; };
static void vf_putb(FILE *fp, int c);

static void vf_emit(struct vf_sink *k, int c)
{
    if (k->fp) vf_putb(k->fp, c);
    else if (k->n + 1 < k->cap) k->buf[k->n] = (char)c;
    k->n++;
}
static void vf_pad(struct vf_sink *k, int c, int n)
{
    for (int i = 0; i < n; i++) vf_emit(k, c);
}
unsigned char nondet_vf_digit(void);
/* decimal digits of v, most significant first; returns how many (>= 1).  The digits are
 * the ones whose weighted sum is v; a table makes equal numbers print alike, so that
 * a specification that calls this function needs no uniqueness argument. */
#ifndef VF_NDEC
# define VF_NDEC 12
#endif
#ifndef VF_NUMDIG
# define VF_NUMDIG 5
#endif
static struct { unsigned long v; int nd, used; unsigned char d[10]; } vf_dtab[VF_NDEC];
static int vf_ndtab;
int vf_dec(unsigned long v, unsigned char *dg)
{
    static const unsigned long p10[10] = { 1UL, 10UL, 100UL, 1000UL, 10000UL, 100000UL,
        1000000UL, 10000000UL, 100000000UL, 1000000000UL };
    unsigned long sum = 0;
    int nd = 1;
    unsigned char r[20];
#ifdef VF_TOKEN
    /* contract of %d: a numeral that reads back as the value (see vf_tokval); represented
     * by one digit, the index of the value in the table of numbers */
    for (int j = 0; j < VF_NDEC; j++)
        if (j < vf_ndtab && vf_dtab[j].v == v) { dg[0] = j; return 1; }
    __CPROVER_assert(0, "libc-model: number not in the table");
    return 1;
#endif
#ifdef VF_FIXDIG
    /* contract of %d / %u: a decimal numeral of the value; represented with VF_FIXDIG digits */
    for (int j = 0; j < VF_NDEC; j++)
        if (j < vf_ndtab && vf_dtab[j].v == v) {
            for (int i = 0; i < VF_FIXDIG; i++) dg[i] = vf_dtab[j].d[i];
            return VF_FIXDIG;
        }
    for (int i = 0; i < VF_FIXDIG; i++) {
        unsigned char d = nondet_vf_digit();
        __CPROVER_assume(d <= 9);
        dg[i] = d;
        sum = sum * 10 + d;
    }
    __CPROVER_assert(v < 100000, "libc-model: number too large for the numeral model");
    __CPROVER_assume(sum == v);
    return VF_FIXDIG;
#endif
    if (v >= 10000000000UL) {
        int n = 0; unsigned long t = v;
        while (t) { r[n++] = t % 10; t /= 10; }
        for (int i = 0; i < n; i++) dg[i] = r[n - 1 - i];
        return n;
    }
    for (int j = 0; j < VF_NDEC; j++)
        if (vf_dtab[j].used && vf_dtab[j].v == v) {
            for (int i = 0; i < 10; i++) dg[i] = vf_dtab[j].d[i];
            return vf_dtab[j].nd;
        }
    for (int i = 0; i < 10; i++) {
        unsigned char d = nondet_vf_digit();
        __CPROVER_assume(d <= 9);
        r[i] = d;
        sum += (unsigned long)d * p10[i];
    }
    __CPROVER_assume(sum == v);
    for (int i = 1; i < 10; i++) if (r[i]) nd = i + 1;
    for (int i = 0; i < 10; i++) dg[i] = i < nd ? r[nd - 1 - i] : 0;
    if (vf_ndtab < VF_NDEC) {
        vf_dtab[vf_ndtab].v = v; vf_dtab[vf_ndtab].nd = nd; vf_dtab[vf_ndtab].used = 1;
        for (int i = 0; i < 10; i++) vf_dtab[vf_ndtab].d[i] = dg[i];
        vf_ndtab++;
    }
    return nd;
}
#ifdef VF_TOKEN
int vf_tokval(int d)
{
    for (int j = 0; j < VF_NDEC; j++)
        if (j < vf_ndtab && j == d) return vf_dtab[j].v;
    __CPROVER_assert(0, "libc-model: not a numeral");
    return 0;
}
int vf_num(const char *name, int lo, int hi)
{
    int v = (int)nondet_vf_long();
    __CPROVER_assume(v >= lo && v <= hi);
    __CPROVER_input(name, v);
    __CPROVER_assert(vf_ndtab < VF_NDEC, "libc-model: number table full");
    vf_dtab[vf_ndtab++].v = v;
    return v;
}
#else
int vf_num(const char *name, int lo, int hi)
{
#ifdef VF_FIXDIG
# undef VF_NUMDIG
# define VF_NUMDIG VF_FIXDIG
    unsigned char r[10], nd = VF_FIXDIG;
#else
    unsigned char r[10], nd = nondet_vf_digit();
#endif
    int v = 0;
    __CPROVER_assume(nd >= 1 && nd <= VF_NUMDIG);
    for (int i = 0; i < 10; i++) r[i] = 0;
    for (int i = 0; i < VF_NUMDIG; i++)
        if (i < nd) {
            unsigned char d = nondet_vf_digit();
            __CPROVER_assume(d <= 9);
            r[i] = d;
            v = v * 10 + d;
        }
#ifndef VF_FIXDIG
    __CPROVER_assume(nd == 1 || r[0] != 0);
#endif
    __CPROVER_assume(v >= lo && v <= hi);
    __CPROVER_input(name, v);
    __CPROVER_assert(vf_ndtab < VF_NDEC, "libc-model: number table full");
    vf_dtab[vf_ndtab].v = v; vf_dtab[vf_ndtab].nd = nd; vf_dtab[vf_ndtab].used = 1;
    for (int i = 0; i < 10; i++) vf_dtab[vf_ndtab].d[i] = r[i];
    vf_ndtab++;
    return v;
}
#endif
static int vf_format(struct vf_sink *k, const char *f, va_list ap)
{
    for (; *f; f++) {
        if (*f != '%') { vf_emit(k, *f); continue; }
        f++;
        int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, width = 0, prec = -1, lng = 0;
        for (;; f++) {
            if (*f == '-') left = 1; else if (*f == '0') zero = 1;
            else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1;
            else if (*f == '#') alt = 1; else break;
        }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
        }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng = 1; f++; }
        switch (*f) {
        case '%': vf_emit(k, '%'); break;
        case 'c': { int c = va_arg(ap, int);
            if (!left) vf_pad(k, ' ', width - 1);
            vf_emit(k, (unsigned char)c);
            if (left) vf_pad(k, ' ', width - 1);
            break; }
        case 's': { const char *s = va_arg(ap, char *);
            if (!s) s = "(null)";
            if (width == 0 && prec < 0) { for (; *s; s++) vf_emit(k, *s); break; }
            int n = 0;
            while ((prec < 0 || n < prec) && s[n]) n++;
            if (!left) vf_pad(k, ' ', width - n);
            for (int i = 0; i < n; i++) vf_emit(k, s[i]);
            if (left) vf_pad(k, ' ', width - n);
            break; }
        case 'd': case 'i': case 'u': {
            unsigned char dg[20]; int neg = 0; unsigned long u;
            if (*f == 'u') u = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
            else { long v = lng ? va_arg(ap, long) : va_arg(ap, int);
                neg = v < 0; u = neg ? 0UL - (unsigned long)v : (unsigned long)v; }
            int nd = vf_dec(u, dg);
            int body = nd > prec ? nd : prec;
            int sg = neg || plus || sp;
            if (!left && !(zero && prec < 0)) vf_pad(k, ' ', width - body - sg);
            if (sg) vf_emit(k, neg ? '-' : plus ? '+' : ' ');
            if (!left && zero && prec < 0) vf_pad(k, '0', width - body - sg);
            vf_pad(k, '0', body - nd);
            for (int i = 0; i < nd; i++) vf_emit(k, '0' + dg[i]);
            if (left) vf_pad(k, ' ', width - body - sg);
            break; }
        case 'x': case 'X': case 'o': {
            unsigned long u = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
            int sh = *f == 'o' ? 3 : 4, nd = 1;
            for (int i = 1; i * sh < 64; i++) if (u >> (i * sh)) nd = i + 1;
            int body = nd > prec ? nd : prec;
            if (!left && !(zero && prec < 0)) vf_pad(k, ' ', width - body);
            if (!left && zero && prec < 0) vf_pad(k, '0', width - body);
            vf_pad(k, '0', body - nd);
            for (int i = nd - 1; i >= 0; i--) {
                int d = (u >> (i * sh)) & ((1 << sh) - 1);
                vf_emit(k, d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10);
            }
            if (left) vf_pad(k, ' ', width - body);
            break; }
        default: __CPROVER_assert(0, "libc-model: unsupported conversion"); break;
        }
    }
    return (int)k->n;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    struct vf_sink k = { b, n, 0, NULL };
    int r = vf_format(&k, f, ap);
    if (n) b[k.n < n ? k.n : n - 1] = 0;
    return r;
}
int snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vsnprintf(b, n, f, ap);
    va_end(ap); return r;
}
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)1 << 40, f, ap); }
int sprintf(char *b, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vsnprintf(b, (size_t)1 << 40, f, ap);
    va_end(ap); return r;
}

/* ---- streams ---------------------------------------------------------- */
struct vf_file vf_files[VF_NFILES];
static int vf_nfiles;

static struct vf_file *vf_fp(FILE *fp)
{
    return __CPROVER_same_object(fp, vf_files) ? (struct vf_file *)fp : NULL;
}
FILE *vf_open_in(const unsigned char *d, size_t len)
{
    struct vf_file *f = &vf_files[vf_nfiles++];
    f->data = (unsigned char *)d; f->len = len; f->open = 1;
    return (FILE *)f;
}
FILE *vf_open_out(void)
{
    struct vf_file *f = &vf_files[vf_nfiles++];
    f->len = 0; f->out = 1; f->open = 1;
#ifdef VF_OUT_WITNESS
    f->wit = nd_range("wit", 0, 1L << 40);
#else
    f->data = malloc(VF_OUTCAP);
    __CPROVER_assume(f->data != NULL);
#endif
    return (FILE *)f;
}
unsigned char *vf_out_data(FILE *fp, size_t *len)
{
    struct vf_file *f = vf_fp(fp);
    *len = f->len;
    return f->data;
}
size_t vf_out_witness(FILE *fp, size_t *k, int *c)
{
    struct vf_file *f = vf_fp(fp);
#ifdef VF_OUT_WITNESS
    *k = f->wit;
    *c = f->wit < f->len ? f->witc : 0;
#else
    *k = nd_range("wit", 0, 1L << 40);
    if (f->len) *k %= f->len; else *k = 0;
    *c = f->len ? f->data[*k] : 0;
#endif
    return f->len;
}
size_t vf_in_pos(FILE *fp) { return vf_fp(fp)->pos; }
static void vf_putb(FILE *fp, int c)
{
    struct vf_file *f = vf_fp(fp);
    if (!f) return;                /* stdout, stderr, log */
    __CPROVER_assert(f->open, "libc-model: write to closed stream");
#ifdef VF_OUT_WITNESS
    if (f->len == f->wit) f->witc = (unsigned char)c;
    f->len++;
#else
    __CPROVER_assume(f->len < VF_OUTCAP);   /* bound on the output considered */
    f->data[f->len++] = (unsigned char)c;
#endif
}
int fputc(int c, FILE *fp) { vf_putb(fp, c); return (unsigned char)c; }
int putc(int c, FILE *fp)  { vf_putb(fp, c); return (unsigned char)c; }
#if !VF_UNBOUNDED || !defined(VF_STRC)
int fputs(const char *s, FILE *fp) { for (; *s; s++) vf_putb(fp, *s); return 1; }
#endif
size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp)
{
    for (size_t i = 0; i < sz * n; i++) vf_putb(fp, ((const unsigned char *)p)[i]);
    return n;
}
int vfprintf(FILE *fp, const char *f, va_list ap)
{
    struct vf_sink k = { NULL, 0, 0, fp };
    if (!vf_fp(fp)) return 0;
    return vf_format(&k, f, ap);
}
int fprintf(FILE *fp, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vfprintf(fp, f, ap);
    va_end(ap); return r;
}
int getc(FILE *fp)
{
    struct vf_file *f = vf_fp(fp);
    __CPROVER_assert(f != NULL && f->open, "libc-model: read from open stream");
    if (f->pos >= f->len) { f->eof = 1; return EOF; }
    return f->data[f->pos++];
}
int fgetc(FILE *fp) { return getc(fp); }
int ungetc(int c, FILE *fp)
{
    struct vf_file *f = vf_fp(fp);
    if (c == EOF) return EOF;
    f->pos--; f->eof = 0;
    return c;
}
char *fgets(char *b, int n, FILE *fp)
{
    int i = 0;
    while (i < n - 1) {
        int c = getc(fp);
        if (c == EOF) break;
        b[i++] = (char)c;
        if (c == '\n') break;
    }
    if (!i) return NULL;
    b[i] = 0;
    return b;
}
size_t fread(void *p, size_t sz, size_t n, FILE *fp)
{
    size_t i = 0;
    for (; i < sz * n; i++) {
        int c = getc(fp);
        if (c == EOF) break;
        ((unsigned char *)p)[i] = (unsigned char)c;
    }
    return sz ? i / sz : 0;
}
int feof(FILE *fp)   { struct vf_file *f = vf_fp(fp); return f ? f->eof : 0; }
int ferror(FILE *fp) { struct vf_file *f = vf_fp(fp); return f ? f->err : 0; }
void clearerr(FILE *fp) { struct vf_file *f = vf_fp(fp); if (f) f->eof = f->err = 0; }
int fflush(FILE *fp) { return 0; }
int fclose(FILE *fp) { struct vf_file *f = vf_fp(fp); if (f) f->open = 0; return 0; }
void rewind(FILE *fp) { struct vf_file *f = vf_fp(fp); if (f) { f->pos = 0; f->eof = 0; } }
