#include "common.h"
#include <hqueue.h>
static HQueueStruct *s_[NI];
#define s s_[I]
static HQueueThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(HQueueStruct); synchSetThreadPlacementPolicy(cfg_pin >> 1 ? cfg_pin : 0xFF); HQueueInit(s, n, cfg_numa); }
static void tinit(int I, int pid) { th[pid] = NEW(HQueueThreadState); if (cfg_pin & 1) synchThreadPin(pid); HQueueThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { HQueueApplyEnqueue(s, th[pid], a, pid); return 0; }
    return HQueueApplyDequeue(s, th[pid], pid);
}
drv_obj OBJ = { "hqueue", K_QUEUE, init, tinit, op, 0, F_TOPO, 0, 0 };
