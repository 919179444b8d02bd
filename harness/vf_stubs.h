/* Contracts of the diagnostic functions: they return and change nothing observable. */
#ifndef VF_STUBS_H
#define VF_STUBS_H
#ifdef VF_CPROVER
void fglog(const char *fmt, ...) { }
void debug(int lvl, const char *fmt, ...) { }
#ifndef FG_NO_FATAL
void fatal(char *msg, int ex) { __CPROVER_assume(0); }
#endif
void exit_free(void) { }
#endif
#endif
