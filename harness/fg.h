/* Common start of a harness: harness language + the project's declarations. */
#ifndef FG_H
#define FG_H
#include "vf.h"
#if defined(VF_MEMCPY) && defined(VF_CPROVER)
/* byte loops are cheaper than array copies of symbolic size */
static inline void *vf_memcpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
# define memcpy vf_memcpy
#endif
#include "fidogate.h"
#include "vf_stubs.h"
#ifdef VF_CPROVER
/* address texts that only go to the log (--replace-calls znfp1:vf_zlog ...): the text does not matter */
char *vf_zlog(Node *n) { volatile int z = n->zone; (void)z; return "-"; }
#endif
/* equality of the first n bytes */
static inline int vf_eq(const char *a, const char *b, int n)
{
    for (int i = 0; i < n; i++)
        if (a[i] != b[i]) return 0;
    return 1;
}
/* building expected text */
static inline int ex_str(char *d, int n, const char *s) { while (*s) d[n++] = *s++; return n; }
static inline int ex_num(char *d, int n, long v)
{
    unsigned char g[24];
    if (v < 0) { d[n++] = '-'; v = -v; }
    int k = vf_dec((unsigned long)v, g);
    for (int i = 0; i < 20; i++) if (i < k) d[n + i] = '0' + g[i];
    return n + k;
}
/* arbitrary node with fields in [lo,65535] and empty domain */
static inline Node vf_node(int lo)
{
    Node n;
    n.zone = (int)nd_range("zone", lo, 65535);
    n.net = (int)nd_range("net", lo, 65535);
    n.node = (int)nd_range("node", lo, 65535);
    n.point = (int)nd_range("point", lo, 65535);
    n.flags = 0;
    for (int i = 0; i < MAX_DOMAIN; i++) n.domain[i] = 0;
    return n;
}
#endif
