#include "common.h"
#include <ccqueue.h>
static CCQueueStruct *s_[NI];
#define s s_[I]
static CCQueueThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(CCQueueStruct); CCQueueStructInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(CCQueueThreadState); CCQueueThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { CCQueueApplyEnqueue(s, th[pid], a, pid); return 0; }
    return CCQueueApplyDequeue(s, th[pid], pid);
}
drv_obj OBJ = { "ccqueue", K_QUEUE, init, tinit, op, 0, 0, 0, 0 };
