/* toggle vectors of any size as sets of thread ids; concurrent toggling */
#include "../case.h"
#include <string.h>
#include <config.h>
#include <primitives.h>
#include <tvec.h>
#define NV 4
static int N, T, conc, rounds, nops, pids[4], inplace;
static ToggleVector v[NV], shared, my[4];
static int plan(void) {
    int i, j, c[] = { 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 191, 192, 193, 200 };
    N = RN(3) ? c[RN(20)] : 1 + RN(200);
    conc = RN(3) == 0;
    rounds = 1 + RN(4); nops = 4 + RN(16); inplace = RN(2);
    T = 1;
    if (conc) {
        T = 2 + RN(3);
        if (T > N) T = N;
        for (i = 0; i < T; i++)
            for (;;) {
                int p = RN(2) ? RN(N) : (c[RN(20)] - RN(2)) % N, dup = 0;
                if (i && RN(2)) p = (pids[i - 1] + 1) % N;
                for (j = 0; j < i; j++) dup |= pids[j] == p;
                if (!dup) { pids[i] = p; break; }
            }
    }
    return T;
}
static void show(int t, int ty, int op, int a, ToggleVector *x) {
    int l[260], n = 0, i;
    for (i = 0; i < N; i++) if (TVEC_IS_SET(x, i)) l[n++] = i;
    /* the bits beyond the threads stay clear */
    evl(ty, t, op, a, n, l);
}
static void mk(ToggleVector *x) {
    if (inplace) { char *m = vs_alloc(_TVEC_VECTOR_SIZE(N) + 16); memset(m, 0x55, _TVEC_VECTOR_SIZE(N) + 16); TVEC_INIT_AT(x, N, m); }
    else TVEC_INIT(x, N);
}
static void init(void) {
    int i;
    for (i = 0; i < NV; i++) mk(&v[i]);
    mk(&shared);
    for (i = 0; i < T; i++) {
        mk(&my[i]);
        if (conc) { TVEC_REVERSE_BIT(&my[i], pids[i]); }
    }
    ev('i', 0, 0, N, 0);
}
static void thread(int t) {
    int i;
    if (conc) {
        int bank = TVEC_GET_BANK_OF_BIT(pids[t], N);
        for (i = 0; i < rounds; i++) {
            TVEC_ATOMIC_ADD_BANK(&shared, &my[t], bank);     /* announces by flipping its bit */
            TVEC_NEGATIVE_BANK(&my[t], &my[t], bank);
            ev('t', t, 0, pids[t], 1, TVEC_IS_SET(&shared, pids[t]) ? 1 : 0);
        }
        return;
    }
    for (i = 0; i < nops; i++) {
        int a = RN(NV), b = RN(NV), d = RN(NV), bit = RN(4) ? RN(N) : N - 1 - RN(N < 4 ? N : 4), w = RN(11), bank;
        switch (w) {
        case 0: case 1: TVEC_SET_BIT(&v[d], bit); ev('s', d, 0, bit, 0); break;
        case 2: case 3: TVEC_REVERSE_BIT(&v[d], bit); ev('s', d, 1, bit, 0); break;
        case 4: TVEC_COPY(&v[d], &v[a]); ev('o', d, 0, a, 1, a); break;
        case 5: TVEC_OR(&v[d], &v[a], &v[b]); ev('o', d, 1, a, 1, b); break;
        case 6: TVEC_AND(&v[d], &v[a], &v[b]); ev('o', d, 2, a, 1, b); break;
        case 7: TVEC_XOR(&v[d], &v[a], &v[b]); ev('o', d, 3, a, 1, b); break;
        case 8: if (RN(3) == 0) { TVEC_SET_ZERO(&v[d]); ev('o', d, 4, a, 1, b); } break;
        case 9: bank = TVEC_GET_BANK_OF_BIT(bit, N); TVEC_XOR_BANKS(&v[d], &v[a], &v[b], bank); ev('k', d, 0, a, 2, b, bit); break;
        case 10: bank = TVEC_GET_BANK_OF_BIT(bit, N);
            if (RN(2)) { TVEC_AND_BANKS(&v[d], &v[a], &v[b], bank); ev('k', d, 1, a, 2, b, bit); }
            else { TVEC_ATOMIC_COPY_BANKS(&v[d], &v[a], bank); ev('k', d, 2, a, 2, b, bit); }
            break;
        }
        show(d, 'f', TVEC_COUNT_BITS(&v[d]), 0, &v[d]);
    }
    /* walking over a vector word by word with bit search finds every member once */
    for (i = 0; i < NV; i++) {
        int l[260], n = 0, c;
        for (c = 0; c < _TVEC_CELLS_(N); c++) {
            uint64_t x = v[i].cell[c];
            while (x) { int p = synchBitSearchFirst(x); l[n++] = c * 64 + p; x ^= 1ULL << p; if (n > 250) break; }
        }
        evl('f', i, synchNonZeroBits(v[i].cell[0]) + (N >= 64 ? synchNonZeroBits(v[i].cell[1]) : 0) + (N >= 128 ? synchNonZeroBits(v[i].cell[2]) : 0) + (N >= 192 ? synchNonZeroBits(v[i].cell[3]) : 0), 0, n, l);
    }
}
static void fini(void) { if (conc) show(0, 'g', 0, 0, &shared); }
case_def CASE = { "tvec", plan, init, thread, fini, 0 };
