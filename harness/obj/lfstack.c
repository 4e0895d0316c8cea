#include "common.h"
#include <lfstack.h>
static LFStackStruct *s_[NI];
#define s s_[I]
static LFStackThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(LFStackStruct); (void)n; LFStackInit(s); }
static void tinit(int I, int pid) { th[pid] = NEW(LFStackThreadState); LFStackThreadStateInit(th[pid], 1, 4); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { LFStackPush(s, th[pid], a); return 0; }
    return LFStackPop(s, th[pid]);
}
drv_obj OBJ = { "lfstack", K_STACK, init, tinit, op, 0, 0, 0, 0 };
