#include "common.h"
#include <fcstack.h>
static FCStackStruct *s_[NI];
#define s s_[I]
static FCStackThreadState *th_[NI][NP];
#define th th_[I]

static void init(int I, int n) { s = NEW(FCStackStruct); FCStackInit(s, n); }
static void tinit(int I, int pid) { th[pid] = NEW(FCStackThreadState); FCStackThreadStateInit(s, th[pid], pid); }
static int64_t op(int I, int pid, int o, int64_t a, int64_t b) {
    (void)b;
    if (o == 0) { FCStackPush(s, th[pid], a, pid); return 0; }
    return FCStackPop(s, th[pid], pid);
}
drv_obj OBJ = { "fcstack", K_STACK, init, tinit, op, 0, 0, 0, 0 };
