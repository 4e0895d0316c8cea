#include "common.h"
#include <simstack.h>
static SimStackStruct *s_[NI];
#define s s_[I]
static SimStackThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(SimStackStruct); SimStackStructInit(s, n, cfg_backoff); }
static void tinit(int I, int pid) { th[pid] = NEW(SimStackThreadState); SimStackThreadStateInit(th[pid], cfg_nth[I], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { SimStackPush(s, th[pid], a, pid); return 0; }
    return SimStackPop(s, th[pid], pid);
}
drv_obj OBJ = { "simstack", K_STACK, init, tinit, op, 0, 0, 0, 0 };
