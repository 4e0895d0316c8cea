#include "common.h"
#include <dsmqueue.h>
static DSMQueueStruct *s_[NI];
#define s s_[I]
static DSMQueueThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(DSMQueueStruct); DSMQueueStructInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(DSMQueueThreadState); DSMQueueThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { DSMQueueApplyEnqueue(s, th[pid], a, pid); return 0; }
    return DSMQueueApplyDequeue(s, th[pid], pid);
}
drv_obj OBJ = { "dsmqueue", K_QUEUE, init, tinit, op, 0, 0, 0, 0 };
