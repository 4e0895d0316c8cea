#include "common.h"
#include <oscistack.h>
static OsciStackStruct *s_[NI];
#define s s_[I]
static OsciStackThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(OsciStackStruct); OsciStackInit(s, n, cfg_fibers); }
static void tinit(int I, int pid) { drv_set_tid(pid); th[pid] = NEW(OsciStackThreadState); OsciStackThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { OsciStackApplyPush(s, th[pid], a, pid); return 0; }
    return OsciStackApplyPop(s, th[pid], pid);
}
drv_obj OBJ = { "oscistack", K_STACK, init, tinit, op, 0, F_EXACT | F_TID, 0, 0 };
