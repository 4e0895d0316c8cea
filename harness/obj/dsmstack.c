#include "common.h"
#include <dsmstack.h>
static DSMStackStruct *s_[NI];
#define s s_[I]
static DSMStackThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(DSMStackStruct); DSMSStackInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(DSMStackThreadState); DSMStackThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { DSMStackPush(s, th[pid], a, pid); return 0; }
    return DSMStackPop(s, th[pid], pid);
}
drv_obj OBJ = { "dsmstack", K_STACK, init, tinit, op, 0, 0, 0, 0 };
