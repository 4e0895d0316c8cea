/* fibers: spawning, yielding, finishing, waiting; private stacks; memory */
#include "../case.h"
#include <string.h>
#include <config.h>
#include <primitives.h>
#include <uthreads.h>
#define MF 40
typedef struct { int steps, spawnpct, yieldpct, deep; } Script;
static int K, max_[2], first[2], gens, budget[2];
static Script sc[2][MF];
static int next_[2];
#define MAIN(k) ((k) * MF)
static int plan(void) {
    int k, i;
    K = 1 + (RN(4) == 0);
    gens = 1 + RN(3);
    for (k = 0; k < K; k++) {
        max_[k] = 1 + RN(6);
        first[k] = RN(max_[k] + 2);
        next_[k] = 1;
        budget[k] = case_size == 2 ? MF - 2 : 3 + RN(30);
        for (i = 0; i < MF; i++) { sc[k][i].steps = RN(6); sc[k][i].spawnpct = RN(3) ? 0 : 40; sc[k][i].yieldpct = 30 + RN(70); sc[k][i].deep = RN(3); }
    }
    return K;
}
static void *fiber(void *a);
static void index_(int k, int id) { ev('k', id, k, synchCurrentFiberIndex(), 0); }
static void spawn(int k, int me) {
    int id, r;
    if (next_[k] > budget[k]) return;
    id = next_[k]++;
    r = synchSpawnFiber(fiber, (long)(MAIN(k) + id));
    ev('s', me, k, MAIN(k) + id, 1, r);
}
static void yield_(int k, int me) {
    ev('y', me, k, 0, 0);
    synchFiberYield();
    ev('z', me, k, 0, 0);
}
static int burn(volatile char *p, int d, int k, int me) { /* use a good deal of the stack and yield down there */
    volatile char loc[3000];
    int i, ok = 1;
    for (i = 0; i < 3000; i++) loc[i] = (char)(me * 7 + i + d);
    if (d > 0) ok = burn(loc, d - 1, k, me); else yield_(k, me);
    for (i = 0; i < 3000; i++) if (loc[i] != (char)(me * 7 + i + d)) ok = 0;
    if (p && p[0] != (char)(me * 7 + d + 1)) ok = 0;
    return ok;
}
static void script(int k, int me) {
    Script *s = &sc[k][me % MF];
    volatile double fp = me + 0.5;
    long i, keep = me * 1000003L;
    for (i = 0; i < s->steps; i++) {
        if (RN(100) < s->spawnpct) spawn(k, me);
        if (RN(100) < s->yieldpct) yield_(k, me);
        if (s->deep == 2) { if (!burn(NULL, 8, k, me)) ev('x', me, k, 0, 0); }
        index_(k, me);
        keep += 3;
    }
    if (keep != me * 1000003L + 3 * s->steps || fp != me + 0.5) ev('x', me, k, 1, 0); /* locals were damaged */
}
static void *fiber(void *a) {
    int id = (int)(long)a, k = id / MF;
    ev('b', id, k, 0, 0);
    index_(k, id);
    script(k, id);
    ev('e', id, k, 0, 0);
    return NULL;
}
static void thread(int k) {
    int g, i;
    synchInitFibers(max_[k]);
    ev('i', MAIN(k), k, max_[k], 0);
    for (g = 0; g < gens; g++) {
        for (i = 0; i < first[k]; i++) spawn(k, MAIN(k));
        script(k, MAIN(k));
        ev('w', MAIN(k), k, 0, 0);
        synchWaitForAllFibers();
        ev('v', MAIN(k), k, K == 1 ? (int)vs_live_allocs() : 0, 0);
    }
}
case_def CASE = { "fibers", plan, NULL, thread, NULL, C_FIBERS | C_NODFS };
