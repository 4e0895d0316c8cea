/* what a build with DEBUG counts */
#include "../case.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <config.h>
#include <primitives.h>
#include <stats.h>
bool __real__CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t C1);
static int T, runs, len[4], before[4], rounds;
static volatile int64_t w64[2]; static volatile int32_t w32[2]; static void *volatile wp[2];
static volatile uint64_t w128[4][2] __attribute__((aligned(16)));
static int plan(void) {
    T = 1 + RN(case_size ? 4 : 2);
    rounds = 1 + RN(2);
    for (int i = 0; i < 4; i++) { before[i] = RN(3); len[i] = RN(case_size ? 12 : 2); }
    runs = 1 << RN(7);
    vs_ncpus = 8;
    return T;
}
static void op(int t) {
    int k = RN(8), r = -1, kind = 0, i = RN(2);
    switch (k) {
    case 0: r = synchCAS32((uint32_t *)&w32[i], RN(2) ? w32[i] : RN(3), RN(3)); break;
    case 1: { int64_t x = RN(2) ? w64[i] : RN(3); r = synchCAS64((uint64_t *)&w64[i], x, RN(3)); break; }
    case 2: { void *x = RN(2) ? wp[i] : (void *)(intptr_t)RN(3); r = synchCASPTR(&wp[i], x, (void *)(intptr_t)RN(3)); break; }
    case 3: { uint64_t x = RN(2) ? w128[t][0] : w128[t][0] + 1; r = __real__CAS128((uint64_t *)w128[t], x, w128[t][1], RN(5), RN(5)); break; }
    case 4: case 5: kind = 1; synchSWAP(&wp[i], (void *)(intptr_t)RN(3)); break;
    case 6: kind = 2; synchFAA32(&w32[i], RN(3)); break;
    default: kind = 2; synchFAA64(&w64[i], RN(3)); break;
    }
    ev('o', t, kind, r, 0);
    vs_point();
}
static void thread(int t) {
    for (int j = 0; j < rounds; j++) {
        for (int i = 0; i < before[t]; i++) op(t);
        synchStartCPUCounters(t);
        ev('b', t, 0, 0, 0);
        for (int i = 0; i < len[t]; i++) op(t);
        synchStopCPUCounters(t);
        ev('e', t, 0, 0, 0);
    }
}
static int field(const char *s, const char *name, int scale) {
    char key[64]; snprintf(key, sizeof key, "%s: ", name);
    const char *p = strstr(s, key);
    if (!p) return -1;
    double d = strtod(p + strlen(key), NULL) * scale;
    return d != d || d > 1e9 || d < -1e9 ? -2 : (int)(d + (d < 0 ? -0.5 : 0.5));
}
static void fini(void) {
    static char buf[2000];
    memset(buf, 0, sizeof buf);
    FILE *save = stdout, *f = fmemopen(buf, sizeof buf - 1, "w");
    stdout = f;
    synchPrintStats(T, runs);
    stdout = save;
    fclose(f);
    ev('p', 0, runs, T, 8, field(buf, "executed_CAS", 1), field(buf, "successful_CAS", 1), field(buf, "executed_SWAP", 1), field(buf, "executed_FAA", 1), field(buf, "atomics", 1),
       field(buf, "failed_CAS_per_op", 1000000), field(buf, "atomics_per_op", 100), field(buf, "operations_per_CAS", 100));
}
case_def CASE = { "stats", plan, NULL, thread, fini, 0 };
