#include "common.h"
#include <hsynch.h>
static HSynchStruct *s_[NI];
#define s s_[I]
static HSynchThreadState *th_[NI][NP];
#define th th_[I]
static RetVal sf(void *st, ArgVal a, int pid) { return drv_log_apply(st, a, pid); }
static void init(int I, int n) { s = NEW(HSynchStruct); synchSetThreadPlacementPolicy(cfg_pin >> 1 ? cfg_pin : 0xFF); HSynchStructInit(s, n, cfg_numa); }
static void tinit(int I, int pid) { th[pid] = NEW(HSynchThreadState); if (cfg_pin & 1) synchThreadPin(pid); HSynchThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) { (void)o; (void)b; return HSynchApplyOp(s, th[pid], sf, LOGST[I], a, pid); }
drv_obj OBJ = { "hsynch", K_LOG, init, tinit, op, 0, F_TOPO, 0, 0 };
