#include "common.h"
#include <ccstack.h>
static CCStackStruct *s_[NI];
#define s s_[I]
static CCStackThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(CCStackStruct); CCStackInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(CCStackThreadState); CCStackThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { CCStackPush(s, th[pid], a, pid); return 0; }
    return CCStackPop(s, th[pid], pid);
}
drv_obj OBJ = { "ccstack", K_STACK, init, tinit, op, 0, 0, 0, 0 };
