#include "common.h"
#include <oyama.h>
static OyamaStruct *s_[NI];
#define s s_[I]
static OyamaThreadState *th_[NI][NP];
#define th th_[I]
static RetVal sf0(ArgVal a, int pid) { return drv_log_apply(LOGST[0], a, pid); }
static RetVal sf1(ArgVal a, int pid) { return drv_log_apply(LOGST[1], a, pid); }
static void init(int I, int n) { s = NEW(OyamaStruct); OyamaInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(OyamaThreadState); OyamaThreadStateInit(th[pid]); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) { (void)o; (void)b; return OyamaApplyOp(s, th[pid], I ? sf1 : sf0, a, pid); }
drv_obj OBJ = { "oyama", K_LOG, init, tinit, op, 0, 0, 0, 0 };
