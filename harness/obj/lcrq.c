#include "common.h"
#include <lcrq.h>
static LCRQStruct *s_[NI];
#define s s_[I]
static LCRQThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(LCRQStruct); LCRQInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(LCRQThreadState); LCRQThreadStateInit(th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { LCRQEnqueue(s, th[pid], a, pid); return 0; }
    return LCRQDequeue(s, th[pid], pid);
}
drv_obj OBJ = { "lcrq", K_QUEUE, init, tinit, op, 0, F_NO_MINUS1, 0, 0 };
