#include "common.h"
#include <msqueue.h>
static MSQueueStruct *s_[NI];
#define s s_[I]
static MSQueueThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(MSQueueStruct); (void)n; MSQueueInit(s); }
static void tinit(int I, int pid) { th[pid] = NEW(MSQueueThreadState); MSQueueThreadStateInit(th[pid], 1, 4); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { MSQueueEnqueue(s, th[pid], a); return 0; }
    return MSQueueDequeue(s, th[pid]);
}
drv_obj OBJ = { "msqueue", K_QUEUE, init, tinit, op, 0, 0, 0, 0 };
