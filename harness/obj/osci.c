#include "common.h"
#include <osci.h>
static OsciStruct *s_[NI];
#define s s_[I]
static OsciThreadState *th_[NI][NP];
#define th th_[I]
static RetVal sf(void *st, ArgVal a, int pid) { return drv_log_apply(st, a, pid); }
static void init(int I, int n) { s = NEW(OsciStruct); OsciInit(s, n, cfg_fibers > 1 ? cfg_fibers : n % 4 == 3 ? n + 1 : n % 4 == 1 ? 0 : 1); }   /* without fibers: 1, also by 0 or too many */
static void tinit(int I, int pid) { th[pid] = NEW(OsciThreadState); OsciThreadStateInit(th[pid], s, pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) { (void)o; (void)b; return OsciApplyOp(s, th[pid], sf, LOGST[I], a, pid); }
drv_obj OBJ = { "osci", K_LOG, init, tinit, op, 0, F_EXACT, 0, 0 };
