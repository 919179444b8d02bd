/* src/toss/ftntoss.c with its environment: configuration, allocation, sorting */
#ifndef TOSSLIB_H
#define TOSSLIB_H
#include "fg.h"
#ifdef VF_CPROVER
/* the tosser's scratch buffer; its size only has to exceed the texts of the harness */
static char vf_buffer[160];
# define buffer vf_buffer
# undef BUFSIZ
# define BUFSIZ 64
#endif
#define main ftntoss_main
#include "src/toss/ftntoss.c"
#undef main
#include "lon.h"

/* ---- configuration: our addresses ---- */
static Node gh_addr, gh_aka[2];
static int gh_naka, gh_i;
static int gh_zone = 2;
int cf_zone(void) { return gh_zone; }
int cf_defzone(void) { return gh_zone; }
Node *cf_addr(void) { return &gh_addr; }
Node cf_n_addr(void) { return gh_addr; }
Node *cf_addr_trav(int first)
{
    if (first) gh_i = 0;
    return gh_i < gh_naka ? &gh_aka[gh_i++] : NULL;
}
/* best AKA for a node: what it selects is the concern of config.c (property CF1) */
static Node gh_best_for; static int gh_nbest;
void cf_set_best(int zone, int net, int node) { gh_best_for.zone = zone; gh_best_for.net = net; gh_best_for.node = node; gh_nbest++; }
static int gh_setzone = -2, gh_setcurr;
void cf_set_zone(int zone) { gh_setzone = zone; }
void cf_set_curr(Node *n) { gh_setcurr++; }

/* ---- the environment of the program, not used by the functions under contract ---- */
int authorized_new;
static int gh_auth, gh_forbidden, gh_new_rc, gh_created;
void areafix_init(const char *x) { }
int areafix_auth_check(Node *n, char *p, char c) { authorized_new = gh_auth; return TRUE; }
int areafix_check_forbidden_area(char *a) { return gh_forbidden; }
int cmd_new_int(Node *n, char *l, char *x) { gh_created = gh_new_rc == OK; return gh_new_rc; }

#ifdef VF_CPROVER
void msg_body_init(MsgBody *b) { static const MsgBody z; *b = z; }
int verbose = 0;
void *xmalloc(int n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void xfree(void *p) { free(p); }
# ifndef SAVELEN
#  define SAVELEN 160
# endif
char *strsave(char *s)
{
    char *p = xmalloc(SAVELEN);
    for (int i = 0; i < SAVELEN; i++) { p[i] = s[i]; if (!s[i]) return p; }
    __CPROVER_assert(0, "libc-model: string too long for this unit");
    return p;
}
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    void **a = base;
    CALLER_OBL("array of pointers", sz == sizeof(void *));
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--) {
            if (cmp(&a[j - 1], &a[j]) <= 0) break;
            void *t = a[j]; a[j] = a[j - 1]; a[j - 1] = t;
        }
}
#endif

#endif
