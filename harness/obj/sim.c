#include "common.h"
#include <sim.h>
static SimStruct *s_[NI];
#define s s_[I]
static SimThreadState *th_[NI][NP];
#define th th_[I]
static RetVal sf(void *st, ArgVal a, int pid) { Object *p = st; Object o = *p; *p = drv_old_apply(o, a, pid, 1); return o; }
static void init(int I, int n) { s = NEW(SimStruct); synchSimStructInit(s, n, cfg_backoff); }
static void tinit(int I, int pid) { th[pid] = NEW(SimThreadState); SimThreadStateInit(th[pid], cfg_nth[I], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) { (void)o; (void)b; return SimApplyOp(s, th[pid], sf, a, pid); }
#ifndef DRV_REG
#define DRV_REG 0
#endif
drv_obj OBJ = { "sim", K_LOG, init, tinit, op, 0, F_LOG_OLD | DRV_REG, 0, 0 };
