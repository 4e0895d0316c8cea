#include "common.h"
#include <hstack.h>
static HStackStruct *s_[NI];
#define s s_[I]
static HStackThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(HStackStruct); synchSetThreadPlacementPolicy(cfg_pin >> 1 ? cfg_pin : 0xFF); HStackInit(s, n, cfg_numa); }
static void tinit(int I, int pid) { th[pid] = NEW(HStackThreadState); if (cfg_pin & 1) synchThreadPin(pid); HStackThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { HStackPush(s, th[pid], a, pid); return 0; }
    return HStackPop(s, th[pid], pid);
}
drv_obj OBJ = { "hstack", K_STACK, init, tinit, op, 0, F_TOPO, 0, 0 };
