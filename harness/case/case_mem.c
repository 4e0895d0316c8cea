/* the allocation primitives: size, alignment, disjointness, release */
#include "../case.h"
#include <string.h>
#include <config.h>
#include <primitives.h>
#define MAXB 80
static int nops;
static int plan(void) { vs_page_blocks = 1; nops = 5 + RN(case_size == 2 ? 300 : 60); return 1; }
#define A0 0x100000000000UL
typedef struct { unsigned char *p; size_t n; int live, freeable; unsigned char v; } Blk;
static Blk b[MAXB];
static int intact(Blk *x) {
    size_t i, st = x->n > 4096 ? 61 : 1;
    for (i = 0; i < x->n; i += st) if (x->p[i] != (unsigned char)(x->v + i % 7)) return 0;
    return x->p[x->n - 1] == (unsigned char)(x->v + (x->n - 1) % 7);
}
static void fill(Blk *x) {
    size_t i, st = x->n > 4096 ? 61 : 1;
    for (i = 0; i < x->n; i += st) x->p[i] = (unsigned char)(x->v + i % 7);
    x->p[x->n - 1] = (unsigned char)(x->v + (x->n - 1) % 7);
}
static void thread(int t) {
    int i, k, n = 0;
    long base = vs_live_bytes();
    for (i = 0; i < nops; i++) {
        if (n < MAXB && RN(3)) {
            Blk *x = &b[n];
            size_t sz[] = { 1, 3, 8, 16, 63, 64, 65, 100, 256, 1000, 4095, 4096, 4097, 10000 };
            int al = 0;
            x->n = RN(3) ? sz[RN(14)] : 1 + RN(20000);
            if (RN(2)) { al = 1 << (RN(9) + 3); if (RN(12) == 0) al = 4096 << RN(4); x->p = synchGetAlignedMemory(al, x->n); }
            else x->p = synchGetMemory(x->n);
            if (!x->p) { ev('x', 0, 0, 0, 0); return; }
            x->live = 1; x->v = RN(250); x->freeable = al <= 4096;
            fill(x);
            ev('a', 0, n, (int)((uintptr_t)x->p - A0), 2, (int)x->n, al);
            n++;
        } else {
            if (!n) continue;
            k = RN(n);
            if (!b[k].live) continue;
            if (!intact(&b[k])) { ev('x', 0, k, 0, 0); return; }
            if (!b[k].freeable) continue;
            long before = vs_live_bytes();
            synchFreeMemory(b[k].p, b[k].n);
            b[k].live = 0;
            ev('d', 0, k, (int)(before - (long)vs_live_bytes()), 0);
        }
    }
    for (k = 0; k < n; k++) if (b[k].live) {
        if (!intact(&b[k])) { ev('x', 0, k, 0, 0); return; }
        if (!b[k].freeable) continue;
        synchFreeMemory(b[k].p, b[k].n); ev('d', 0, k, (int)b[k].n, 0); b[k].live = 0;
    }
    int kept = 0;
    for (k = 0; k < n; k++) if (b[k].live) kept = 1;
    if (!kept) ev('q', 0, 0, (int)((long)vs_live_bytes() - base), 0);
}
case_def CASE = { "mem", plan, NULL, thread, NULL, C_SEQ };
