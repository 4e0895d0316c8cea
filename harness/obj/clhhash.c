#include "common.h"
#include <clhhash.h>
#define CELLS 2
static CLHHash *s_[NI];
#define s s_[I]
static CLHHashThreadState *th_[NI][NP];
#define th th_[I]
static void init(int I, int n) { s = NEW(CLHHash); CLHHashStructInit(s, CELLS, n); }
static void tinit(int I, int pid) { th[pid] = NEW(CLHHashThreadState); CLHHashThreadStateInit(s, th[pid], CELLS, pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    if (o == 0) { CLHHashInsert(s, th[pid], a, b, pid); return 0; }
    if (o == 1) return CLHHashSearch(s, th[pid], a, pid);
    CLHHashDelete(s, th[pid], a, pid);
    return 0;
}
drv_obj OBJ = { "clhhash", K_SET, init, tinit, op, 0, 0, CELLS, 0 };
