#include "common.h"
#include <clh.h>
static CLHLockStruct *s_[NI];
#define s s_[I]
static void init(int I, int n) { s = CLHLockInit(n); }
static void tinit(int I, int pid) { (void)pid; }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)o; (void)a; (void)b;
    CLHLock(s, pid); drv_cs_enter(I, pid); drv_cs_exit(I, pid); CLHUnlock(s, pid);
    return 0;
}
drv_obj OBJ = { "clh", K_LOCK, init, tinit, op, 0, 0, 0, 0 };
