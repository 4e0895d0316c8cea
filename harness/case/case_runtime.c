/* starting and joining threads and fibers, their identities and their pinning */
#include "../case.h"
#include <string.h>
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
static int rounds, n[4], f[4], steps[4], ncpus, pol[4];
static volatile int round_;
static int plan(void) {
    int i, g;
    rounds = 1 + RN(3);
    vs_nnodes = 1 << RN(3); vs_ncpus = vs_nnodes * (1 + RN(4)); vs_smt = RN(2) && vs_ncpus % (2 * vs_nnodes) == 0;
    vs_model = RN(3);
    for (i = 0; i < rounds; i++) {
        f[i] = RN(2) ? 1 : 2 + RN(3);
        g = 1 + RN(case_size == 0 ? 2 : 4);
        if (f[i] > 1) g = 1 + RN(3);
        n[i] = g * f[i];
        steps[i] = RN(4);
        pol[i] = RN(8);
    }
    return 1;
}
static void *func(void *arg) {
    long pid = (long)arg;
    int i, r = round_;
    /* begin: id, kernel thread, id as the library sees it */
    ev('b', (int)pid, r, synchGetThreadId(), 2, vs_self(), synchGetPosixThreadId());
    for (i = 0; i < steps[r]; i++) {
        vs_point();
        synchResched();
        ev('k', (int)pid, r, synchGetThreadId(), 2, vs_self(), synchGetPosixThreadId());
    }
    if (f[r] == 1) ev('a', (int)pid, r, synchGetPreferredCore(), 1, vs_last_affinity[vs_self()]);
    ev('e', (int)pid, r, 0, 0);
    return NULL;
}
static void thread(int t) {
    int r;
    for (r = 0; r < rounds; r++) {
        round_ = r;
        if (pol[r] > 0) synchSetThreadPlacementPolicy(pol[r]);
        ev('s', 0, r, n[r], 2, f[r], vs_ncpus);
        synchStartThreadsN(n[r], func, f[r] > 1 ? f[r] : pol[r] & 1 ? SYNCH_DONT_USE_UTHREADS : 0);
        ev('u', 0, r, synchIsSystemOversubscribed() ? 1 : 0, 1, (int)synchGetNCores());
        synchJoinThreadsN(n[r]);
        ev('j', 0, r, 0, 0);
    }
}
case_def CASE = { "runtime", plan, NULL, thread, NULL, C_FIBERS | C_NODFS };
