#include "common.h"
#include <dsmhash.h>
#define CELLS 2
static DSMHash *s_[NI];
#define s s_[I]
static DSMHashThreadState *th_[NI][NP];
#define th th_[I]
static void init(int I, int n) { s = NEW(DSMHash); DSMHashInit(s, CELLS, n); }
static void tinit(int I, int pid) { th[pid] = NEW(DSMHashThreadState); DSMHashThreadStateInit(s, th[pid], CELLS, pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    if (o == 0) { DSMHashInsert(s, th[pid], a, b, pid); return 0; }
    if (o == 1) return DSMHashSearch(s, th[pid], a, pid);
    DSMHashDelete(s, th[pid], a, pid);
    return 0;
}
drv_obj OBJ = { "dsmhash", K_SET, init, tinit, op, 0, 0, CELLS, 0 };
