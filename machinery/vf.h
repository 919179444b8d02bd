/*
 * vf.h --- the harness language.
 *
 * One harness source is compiled three ways:
 *   contract stage   goto-cc, VF_UNBOUNDED=1: loop contracts attached, buffers of
 *                    symbolic size; cbmc discharges every obligation
 *   bounded stage    goto-cc, VF_UNBOUNDED=0: no loop contracts, inputs of at most
 *                    VF_BOUND elements; used to get a counterexample, or as the
 *                    (labelled) bounded stand-in
 *   native           gcc + ASan/UBSan: replays a recorded input on the real code
 *
 * REQUIRES(c)        precondition of the function under contract (assumed)
 * ENSURES(name, c)   postcondition, a named obligation (asserted)
 * CALLER_OBL(name,c) precondition of a callee replaced by its contract (asserted)
 * CALLEE_POST(c)     postcondition of such a callee (assumed)
 * VF_REACH(name)     vacuity guard: must be reachable (an assertion that must fail)
 */
#ifndef VF_H
#define VF_H

#ifndef VF_UNBOUNDED
# define VF_UNBOUNDED 0
#endif
#ifndef VF_BOUND
# define VF_BOUND 4
#endif

#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdbool.h>

#ifdef VF_CPROVER

int nondet_vf_int(void);
long nondet_vf_long(void);
unsigned char nondet_vf_u8(void);
char nondet_vf_char(void);
size_t nondet_vf_size(void);
_Bool nondet_vf_bool(void);

# define VF_IN(type, nd, name) \
    ({ type vf_v = nd(); __CPROVER_input(name, vf_v); vf_v; })
# define nd_int(name)   VF_IN(int, nondet_vf_int, name)
# define nd_long(name)  VF_IN(long, nondet_vf_long, name)
# define nd_u8(name)    VF_IN(unsigned char, nondet_vf_u8, name)
# define nd_char(name)  VF_IN(char, nondet_vf_char, name)
# define nd_bool(name)  VF_IN(_Bool, nondet_vf_bool, name)
# define nd_range(name, lo, hi) \
    ({ long vf_v = nondet_vf_long(); __CPROVER_assume(vf_v >= (lo) && vf_v <= (hi)); \
       __CPROVER_input(name, vf_v); vf_v; })

# define REQUIRES(c)          __CPROVER_assume(c)
# define ENSURES(name, c)     __CPROVER_assert((c), "ensures:" name)
# define CALLER_OBL(name, c)  __CPROVER_assert((c), "callee-requires:" name)
# define CALLEE_POST(c)       __CPROVER_assume(c)
# define VF_REACH(name)       __CPROVER_assert(0, "reach:" name)
# define VF_CBMC 1
# define VF_PATCH(f, g) do { } while (0)     /* done by goto-instrument --replace-calls */
/* end of a case: nothing after it is reached */
# define VF_STOP() __CPROVER_assume(0)
# define VF_HALT() __CPROVER_assume(0)

#else  /* native */

long vf_next(const char *name, long lo, long hi, int kind);
void vf_reject(void);
void vf_violation(const char *name);
# define nd_int(name)   ((int)vf_next(name, -2147483647L - 1, 2147483647L, 0))
# define nd_long(name)  (vf_next(name, -9223372036854775807L - 1, 9223372036854775807L, 0))
# define nd_u8(name)    ((unsigned char)vf_next(name, 0, 255, 1))
# define nd_char(name)  ((char)vf_next(name, -128, 127, 2))
# define nd_bool(name)  ((_Bool)vf_next(name, 0, 1, 3))
# define nd_range(name, lo, hi) vf_next(name, lo, hi, 4)
# define REQUIRES(c)          do { if (!(c)) vf_reject(); } while (0)
# define ENSURES(name, c)     do { if (!(c)) vf_violation(name); } while (0)
# define CALLER_OBL(name, c)  do { if (!(c)) vf_violation("callee-requires:" name); } while (0)
# define CALLEE_POST(c)       do { if (!(c)) vf_reject(); } while (0)
# define VF_REACH(name)       do { } while (0)
# define VF_CBMC 0
void vf_patch(void *, void *);
# define VF_PATCH(f, g) vf_patch((void *)(f), (void *)(g))
# define VF_STOP() return
# define VF_HALT() do { } while (0)

#endif

/* one branch per value of n in lo..hi, so that n is a constant in each */
#define VF_PER(name, lo, hi, f) { int vf_n = (int)nd_range(name, lo, hi); \
    for (int vf_c = (lo); vf_c <= (hi); vf_c++) if (vf_n == vf_c) { f(vf_c); VF_STOP(); } }

/* characters the native search should favour, set by a harness */
extern const char *vf_chars;

/* ---- buffers ---------------------------------------------------------- */

/* A buffer of exactly n bytes, contents arbitrary. */
static inline char *vf_buf(const char *name, size_t n)
{
    char *p = malloc(n ? n : 1);
#ifdef VF_CPROVER
    __CPROVER_assume(p != NULL);
#endif
#if !VF_UNBOUNDED
    for (size_t i = 0; i < n; i++)
        p[i] = nd_char("byte");
#endif
    return p;
}

/* bounded stage and native: an arbitrary C string of at most max chars.  Natively (and
 * with VF_STR_EXACT) the heap object has exactly the size it needs; in cbmc it has max+1
 * bytes, and those behind the end of the string are arbitrary. */
static inline char *vf_str(const char *name, int max)
{
    int n = (int)nd_range("len", 0, max);
#if defined(VF_CPROVER) && !defined(VF_STR_EXACT)
    char *p = malloc(max + 1);
    __CPROVER_assume(p != NULL);
#else
    char *p = malloc(n + 1);
#ifdef VF_CPROVER
    __CPROVER_assume(p != NULL);
#endif
#endif
    for (int i = 0; i < max; i++)
        if (i < n) {
            p[i] = nd_char("ch");
            REQUIRES(p[i] != 0);
        }
    p[n] = 0;
    return p;
}

/* the same in a caller's array of size max+1; returns the length */
static inline int vf_str_in(char *p, int max)
{
    int n = (int)nd_range("len", 0, max);
    for (int i = 0; i < max; i++) {
        if (i < n) {
            p[i] = nd_char("ch");
            REQUIRES(p[i] != 0);
        } else
            p[i] = 0;
    }
    p[max] = 0;
    return n;
}

/* decimal digits of v (most significant first, 0..9), returns how many */
int vf_dec(unsigned long v, unsigned char *dg);

/* an arbitrary number lo..hi (0 <= lo, hi < 1000000); in cbmc it is made from its
 * decimal digits, so that printing it needs no search for them */
int vf_num(const char *name, int lo, int hi);
#if defined(VF_TOKEN) && defined(VF_CPROVER)
int vf_tokval(int d);
#endif

/* ---- streams (vf_libc.c for cbmc, vf_native.c natively) --------------- */
FILE *vf_open_in(const unsigned char *data, size_t len);
FILE *vf_open_out(void);
/* bytes written so far to the stream from vf_open_out */
unsigned char *vf_out_data(FILE *fp, size_t *len);
/* length of the output, an arbitrary index k into it, and the byte there (0 when the
 * output is empty).  With VF_OUT_WITNESS (cbmc) only that byte is remembered. */
size_t vf_out_witness(FILE *fp, size_t *k, int *c);
/* how far a stream from vf_open_in has been read */
size_t vf_in_pos(FILE *fp);
#ifdef VF_CPROVER
struct vf_file { unsigned char *data; size_t len, pos, wit; int eof, err, out, open, witc; };
# ifndef VF_NFILES
#  define VF_NFILES 3
# endif
extern struct vf_file vf_files[VF_NFILES];
#endif

#endif
