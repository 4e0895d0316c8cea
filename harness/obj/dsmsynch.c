#include "common.h"
#include <dsmsynch.h>
static DSMSynchStruct *s_[NI];
#define s s_[I]
static DSMSynchThreadState *th_[NI][NP];
#define th th_[I]
static RetVal sf(void *st, ArgVal a, int pid) { return drv_log_apply(st, a, pid); }
static void init(int I, int n) { s = NEW(DSMSynchStruct); DSMSynchStructInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(DSMSynchThreadState); DSMSynchThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) { (void)o; (void)b; return DSMSynchApplyOp(s, th[pid], sf, LOGST[I], a, pid); }
drv_obj OBJ = { "dsmsynch", K_LOG, init, tinit, op, 0, 0, 0, 0 };
