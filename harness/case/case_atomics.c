/* the atomic primitives on words of every width, by threads that interleave */
#include "../case.h"
#include <string.h>
#include <config.h>
#include <primitives.h>
#define NW 4                                /* words: 32 bits, 64 bits, pointer, 128 bits */
typedef struct { uint32_t g0[4]; uint32_t w32; uint32_t g1[3]; uint64_t w64; uint64_t g2; void *ptr; uint64_t g3; uint64_t w128[2] __attribute__((aligned(16))); uint64_t g4[2]; } Mem;
static Mem *m;
static int T, nops[4], focus;
static uint64_t vals[6][2];
static const uint64_t edge[] = { 0, 1, 2, 0xffffffff, 0x100000000, 0x7fffffff, 0x80000000, 0xffff, 0x10000, 0xffffffffffffffff, 0x8000000000000000, 0x7fffffffffffffff, 0xffffffff00000000 };
static int plan(void) {
    int i;
    T = case_size == 0 ? 2 : 1 + RN(4);
    focus = RN(4);
    for (i = 0; i < T; i++) nops[i] = case_size == 0 ? 1 + RN(2) : 1 + RN(T == 1 ? 40 : 4);
    for (i = 0; i < 6; i++) {
        vals[i][0] = RN(3) ? edge[RN(13)] : vs_rnd(); vals[i][1] = RN(3) ? edge[RN(13)] : vs_rnd();
        if (i && RN(2)) { vals[i][0] = vals[i - 1][0]; if (RN(2)) { vals[i][0] ^= RN(2) ? 0x100000000UL << RN(32) : 1UL << RN(32); vals[i][1] = vals[i - 1][1]; } }
    }
    return T;
}
static int put(int *l, int n, uint64_t v, int limbs) {
    for (int i = 0; i < limbs; i++) l[n++] = (v >> (16 * i)) & 0xffff;
    return n;
}
static void look(void) {
    int l[64], n = 0, clean = 1, i;
    n = put(l, n, m->w32, 2);
    n = put(l, n, m->w64, 4);
    n = put(l, n, (uint64_t)m->ptr, 4);
    n = put(l, n, m->w128[0], 4);
    n = put(l, n, m->w128[1], 4);
    for (i = 0; i < 4; i++) if (m->g0[i] != 0x55555555) clean = 0;
    for (i = 0; i < 3; i++) if (m->g1[i] != 0x55555555) clean = 0;
    if (m->g2 != 0x5555555555555555 || m->g3 != m->g2 || m->g4[0] != m->g2 || m->g4[1] != m->g2) clean = 0;
    evl('f', 0, clean, 0, n, l);
}
static void init(void) {
    m = vs_alloc(sizeof(Mem)); memset(m, 0x55, sizeof *m);
    m->w32 = vals[0][0]; m->w64 = vals[0][0]; m->ptr = (void *)vals[0][0]; m->w128[0] = vals[0][0]; m->w128[1] = vals[0][1];
    look();
}
static void thread(int t) {
    int i, l[24], n;
    for (i = 0; i < nops[t]; i++) {
        int w = RN(3) ? focus : RN(NW), op = RN(4), a = RN(6), b = RN(6), limbs = w == 0 ? 2 : w == 3 ? 8 : 4;
        uint64_t e0 = vals[a][0], e1 = vals[a][1], v0 = vals[b][0], v1 = vals[b][1], r = 0;
        if (RN(2)) { e0 = w == 0 ? m->w32 : w == 1 ? m->w64 : w == 2 ? (uint64_t)m->ptr : m->w128[0]; e1 = m->w128[1]; }
        if (w == 0) { e0 = (uint32_t)e0; v0 = (uint32_t)v0; }
        n = 0;
        if (w == 3 && op) op = 0;
        if (w == 0 && op > 1) op = 1;
        if (w == 2 && op) op = 2;
        if (op == 0) {                      /* compare and swap */
            n = put(l, n, e0, limbs > 4 ? 4 : limbs); if (w == 3) n = put(l, n, e1, 4);
            n = put(l, n, v0, limbs > 4 ? 4 : limbs); if (w == 3) n = put(l, n, v1, 4);
            evl('c', t, 0, w, n, l);
            switch (w) {
            case 0: r = synchCAS32(&m->w32, e0, v0); break;
            case 1: r = synchCAS64(&m->w64, e0, v0); break;
            case 2: r = synchCASPTR(&m->ptr, e0, v0); break;
            case 3: r = synchCAS128(m->w128, e0, e1, v0, v1); break;
            }
            ev('r', t, 0, 0, 1, r ? 1 : 0);
        } else if (op == 1) {               /* fetch and add */
            n = put(l, 0, v0, limbs);
            evl('c', t, 1, w, n, l);
            if (w == 0) r = (uint32_t)synchFAA32(&m->w32, v0); else r = synchFAA64(&m->w64, v0);
            n = put(l, 0, r, limbs);
            evl('r', t, 1, 0, n, l);
        } else if (op == 2) {               /* swap */
            w = RN(2) ? 2 : 1;
            n = put(l, 0, v0, 4);
            evl('c', t, 2, w, n, l);
            r = (uint64_t)(w == 2 ? synchSWAP(&m->ptr, v0) : synchSWAP(&m->w64, v0));
            n = put(l, 0, r, 4);
            evl('r', t, 2, 0, n, l);
        } else {                            /* test and set of a bit */
            int bit = RN(64);
            ev('c', t, 3, 1, 1, bit);
            r = synchBitTAS64(&m->w64, bit);
            n = put(l, 0, r, 4);
            evl('r', t, 3, 0, n, l);
        }
    }
}
static void fini(void) { look(); }
case_def CASE = { "atomics", plan, init, thread, fini, 0 };
