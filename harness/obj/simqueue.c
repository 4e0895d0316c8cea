#include "common.h"
#include <simqueue.h>
static SimQueueStruct *s_[NI];
#define s s_[I]
static SimQueueThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(SimQueueStruct); SimQueueStructInit(s, n, cfg_backoff); }
static void tinit(int I, int pid) { th[pid] = NEW(SimQueueThreadState); SimQueueThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { SimQueueEnqueue(s, th[pid], a, pid); return 0; }
    return SimQueueDequeue(s, th[pid], pid);
}
drv_obj OBJ = { "simqueue", K_QUEUE, init, tinit, op, 0, 0, 0, 0 };
