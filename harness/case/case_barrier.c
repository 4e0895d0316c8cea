/* the re-entrant barrier: nested barriers, many rounds, last leave */
#include "../case.h"
#include <string.h>
#include <barrier.h>
#include <primitives.h>
static SynchBarrier *bar[3];
static int T, nb, rounds, nn[3], kind, reset;
static int plan(void) {
    kind = RN(4) == 0;
    T = 1 + RN(case_size == 0 ? 3 : 5);
    if (case_size == 0 && T == 1) T = 2;
    nb = 1 + RN(case_size == 0 ? 1 : 3);
    rounds = 1 + RN(case_size == 0 ? 2 : 6);
    if (kind) nb = 1;
    for (int b = 0; b < nb; b++) nn[b] = b == 0 ? T : 1 + RN(T);
    reset = RN(2);
    return T;
}
static void init(void) {
    for (int b = 0; b < nb; b++) {
        bar[b] = vs_alloc(sizeof(SynchBarrier));
        memset(bar[b], 0xa5, sizeof(SynchBarrier));
        if (reset) synchBarrierSet(bar[b], nn[b] + 2);
        synchBarrierSet(bar[b], nn[b]);
        ev('i', 0, b, nn[b], 0);
    }
}
static void thread(int t) {
    if (kind) {
        if (t == 0) {
            ev('o', t, 0, 0, 0); synchBarrierLastLeave(bar[0]); ev('p', t, 0, 0, 0);
            /* everybody has left: the barrier may be set up anew, or its memory given back */
            memset(bar[0], 0x5a, sizeof(SynchBarrier));
        } else { vs_point(); ev('l', t, 0, 0, 0); synchBarrierLeave(bar[0]); ev('m', t, 0, 0, 0); }
        return;
    }
    for (int k = 0; k < rounds; k++)
        for (int b = 0; b < nb; b++) {
            if (t >= nn[b]) continue;
            ev('c', t, b, 0, 0);
            synchBarrierWait(bar[b]);
            ev('r', t, b, 0, 0);
            vs_point();
        }
}
/* what is in the memory that the barrier was in has stayed as its owner left it: nobody touches the barrier after the last leave */
static void fini(void) {
    unsigned char *p = (void *)bar[0];
    int touched = 0;
    if (!kind) return;
    for (unsigned i = 0; i < sizeof(SynchBarrier); i++) touched += p[i] != 0x5a;
    ev('p', 0, 0, touched, 0);
}
case_def CASE = { "barrier", plan, init, thread, fini, 0 };
