#include "common.h"
#include <lfuobject.h>
static LFUObjectStruct *s_[NI];
#define s s_[I]
static LFUObjectThreadState *th_[NI][NP];
#define th th_[I]
static RetVal sf(void *st, ArgVal a, int pid) { Object *p = st; Object o = *p; *p = drv_old_apply(o, a, pid, 1); return o; }
static void init(int I, int n) { s = NEW(LFUObjectStruct); (void)n; LFUObjectInit(s, 0); }
static void tinit(int I, int pid) { th[pid] = NEW(LFUObjectThreadState); LFUObjectThreadStateInit(th[pid], 1, 4); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) { (void)o; (void)b; return LFUObjectApplyOp(s, th[pid], sf, a, pid); }
#ifndef DRV_REG
#define DRV_REG 0
#endif
drv_obj OBJ = { "lfuobject", K_LOG, init, tinit, op, 0, F_LOG_OLD | DRV_REG, 0, 0 };
