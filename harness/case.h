/* Cases: drivers for the parts of the library that are not operations of one concurrent object.
 * A case draws a configuration from the seed, runs virtual threads, and records events; the
 * sequence of events of one execution is judged by a TLA+ trace specification. */
#ifndef CASE_H
#define CASE_H
#include "vs.h"
#include <limits.h>
/* record one event: type letter, thread, op, argument, and n further integers */
void ev(int ty, int t, int op, int a, int n, ...);
void evl(int ty, int t, int op, int a, int n, const int *l);
int ev_count(void);
typedef struct case_def {
    const char *name;
    int (*plan)(void);                  /* draws the configuration; returns the number of threads (>= 1) */
    void (*init)(void);                 /* alone, before the threads; may be NULL */
    void (*thread)(int t);
    void (*fini)(void);                 /* by thread 0 when all others are through; may be NULL */
    int flags;
} case_def;
#define C_FIBERS 1                       /* fiber switches happen */
#define C_NODFS  2
#define C_LONG   4                       /* needs many steps */
#define C_SEQ    8                       /* one thread, no scheduling */
extern case_def CASE;
extern int case_size;                    /* 0 small (exhaustive schedules), 1 medium, 2 large */
void case_fail(const char *why);
#define RN(n) ((int)vs_rndn(n))
#endif
