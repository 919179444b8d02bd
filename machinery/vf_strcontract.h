/*
 * Quantifier-free contracts of the C string functions, used in the contract stage in
 * place of their (looping) bodies.
 *
 * vf_reg(s, l) records the precondition "s holds a string of length exactly l" together
 * with the string's bytes at that time.  A later strlen(s) = r is known to satisfy
 * s[r] == 0, r <= p for the candidate positions p with s[p] == 0, and, at r itself, the
 * instance of the precondition: a byte before l was not NUL when it was registered.  Each
 * is a consequence of "r is the least index with s[r] == 0", so nothing is assumed that
 * does not hold of the real functions, and a modification of the string is taken into
 * account.  That the string is terminated at all is an obligation.
 * vf_cand[] are further candidate positions (pointers) for the upper bound; vf_wit[]
 * positions at which "no NUL before r" is instantiated.
 */
#ifndef VF_STRCONTRACT_H
#define VF_STRCONTRACT_H
#if VF_UNBOUNDED
#define VF_NREG 6
static const char *vf_cand[VF_NREG];
static const char *vf_wit[VF_NREG];
static struct { const char *s; size_t l; const char *o; } vf_regs[VF_NREG];
static int vf_nregs;
#define VF_OFFS(p) ((size_t)__CPROVER_POINTER_OFFSET(p))

/* o: bytes of the string now and in future (a copy), or NULL when it is never modified */
static void vf_reg_copy(const char *s, size_t l, const char *o)
{
    __CPROVER_assume(s[l] == 0);
    vf_regs[vf_nregs].s = s;
    vf_regs[vf_nregs].l = l;
    vf_regs[vf_nregs].o = o;
    vf_nregs++;
}
static void vf_reg(const char *s, size_t l)
{
    size_t n = __CPROVER_OBJECT_SIZE(s) - VF_OFFS(s);
    char *o = malloc(n);
    __CPROVER_assume(o != NULL);
    __CPROVER_array_copy(o, s);
    vf_reg_copy(s, l, o);
}
#define VF_SAME(p, s) ((p) && __CPROVER_same_object(p, s) && VF_OFFS(p) >= VF_OFFS(s))

/* number of bytes before the first NUL in s[0..n), n if there is none */
static size_t vf_lenn(const char *s, size_t n)
{
    size_t off = VF_OFFS(s), r = nondet_vf_size(), room = __CPROVER_OBJECT_SIZE(s) - off;
    _Bool ok = n <= room;
    for (int i = 0; i < VF_NREG; i++) {
        if (VF_SAME(vf_cand[i], s) && VF_OFFS(vf_cand[i]) - off < room && *vf_cand[i] == 0) {
            ok = 1;
            __CPROVER_assume(r <= VF_OFFS(vf_cand[i]) - off);
        }
        if (vf_regs[i].s && __CPROVER_same_object(vf_regs[i].s, s)) {
            size_t b = VF_OFFS(vf_regs[i].s), e = b + vf_regs[i].l;
            if (off >= b && off <= e && vf_regs[i].s[vf_regs[i].l] == 0) {
                ok = 1;
                __CPROVER_assume(r <= e - off);
            }
        }
    }
    CALLER_OBL("string function: argument terminated, or readable up to the limit", ok);
    __CPROVER_assume(r <= n && r <= room);
    __CPROVER_assume(r == n || (r < room && s[r] == 0));
    for (int i = 0; i < VF_NREG; i++) {
        if (vf_regs[i].s && __CPROVER_same_object(vf_regs[i].s, s)) {
            size_t b = VF_OFFS(vf_regs[i].s), e = b + vf_regs[i].l;
            if (off >= b && off + r < e)
                __CPROVER_assume(vf_regs[i].o[off + r - b] != 0);
        }
        if (VF_SAME(vf_wit[i], s) && VF_OFFS(vf_wit[i]) < off + r)
            __CPROVER_assume(*vf_wit[i] != 0);
    }
    return r;
}

static void vf_copy(char *d, const char *s, size_t m)
{
    CALLER_OBL("string function: destination writable", __CPROVER_w_ok(d, m));
    CALLER_OBL("string function: source readable", __CPROVER_r_ok(s, m));
    if (m > 0) {
        char tmp[m];
        __CPROVER_array_copy(tmp, s);
        __CPROVER_array_replace(d, tmp);
    }
}

/* only used with c == 0 */
void *memccpy(void *d, const void *s, int c, size_t n)
{
    CALLER_OBL("memccpy: stop byte", c == 0);
    size_t l = vf_lenn(s, n);
    vf_copy(d, s, l < n ? l + 1 : n);
    return l < n ? (char *)d + l + 1 : NULL;
}
char *strncat(char *d, const char *s, size_t n)
{
    size_t l = vf_lenn(s, n), dl = vf_lenn(d, (size_t)-1 >> 2);
    vf_copy(d + dl, s, l);
    d[dl + l] = 0;
    return d;
}
size_t strlen(const char *s)
{
    return vf_lenn(s, (size_t)-1 >> 2);
}
/* only the byte at the witness index of the stream is recorded */
int fputs(const char *s, FILE *fp)
{
    struct vf_file *f = (struct vf_file *)fp;
    size_t l = vf_lenn(s, (size_t)-1 >> 2);
    CALLER_OBL("fputs: open output stream", f->open && f->out);
    if (f->wit >= f->len && f->wit < f->len + l)
        f->witc = (unsigned char)s[f->wit - f->len];
    f->len += l;
    return 1;
}
#endif
#endif
