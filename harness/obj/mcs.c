#include "common.h"
#include <mcs.h>
static MCSLockStruct *s_[NI];
#define s s_[I]
static MCSThreadState *th_[NI][NP];
#define th th_[I]
static void init(int I, int n) { (void)n; s = MCSLockInit(); }
static void tinit(int I, int pid) { th[pid] = NEW(MCSThreadState); MCSThreadStateInit(th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)o; (void)a; (void)b;
    MCSLock(s, th[pid], pid); drv_cs_enter(I, pid); drv_cs_exit(I, pid); MCSUnlock(s, th[pid], pid);
    return 0;
}
drv_obj OBJ = { "mcs", K_LOCK, init, tinit, op, 0, 0, 0, 0 };
