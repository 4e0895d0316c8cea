#include "common.h"
#include <fc.h>
static FCStruct *s_[NI];
#define s s_[I]
static FCThreadState *th_[NI][NP];
#define th th_[I]
static RetVal sf(void *st, ArgVal a, int pid) { return drv_log_apply(st, a, pid); }
static void init(int I, int n) { s = NEW(FCStruct); FCStructInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(FCThreadState); FCThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) { (void)o; (void)b; return FCApplyOp(s, th[pid], sf, LOGST[I], a, pid); }
drv_obj OBJ = { "fc", K_LOG, init, tinit, op, 0, 0, 0, 0 };
