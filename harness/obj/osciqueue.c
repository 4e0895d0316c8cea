#include "common.h"
#include <osciqueue.h>
static OsciQueueStruct *s_[NI];
#define s s_[I]
static OsciQueueThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(OsciQueueStruct); OsciQueueInit(s, n, cfg_fibers); }
static void tinit(int I, int pid) { drv_set_tid(pid); th[pid] = NEW(OsciQueueThreadState); OsciQueueThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { OsciQueueApplyEnqueue(s, th[pid], a, pid); return 0; }
    return OsciQueueApplyDequeue(s, th[pid], pid);
}
drv_obj OBJ = { "osciqueue", K_QUEUE, init, tinit, op, 0, F_EXACT | F_TID, 0, 0 };
