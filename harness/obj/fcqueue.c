#include "common.h"
#include <fcqueue.h>
static FCQueueStruct *s_[NI];
#define s s_[I]
static FCQueueThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(FCQueueStruct); FCQueueStructInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(FCQueueThreadState); FCQueueThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { FCQueueApplyEnqueue(s, th[pid], a, pid); return 0; }
    return FCQueueApplyDequeue(s, th[pid], pid);
}
drv_obj OBJ = { "fcqueue", K_QUEUE, init, tinit, op, 0, 0, 0, 0 };
