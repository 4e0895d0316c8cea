/* the object pool: allocation, recycling, cancelling, destruction; several pools side by side */
#include "../case.h"
#include <string.h>
#include <config.h>
#include <pool.h>
#include <primitives.h>
#define MAXO 600
static int np, nops, big[2];
static uint32_t size[2];
static SynchPoolStruct *pool[2];
typedef struct { char *p; int live; int pool; int fresh; } Obj;
static Obj ob[MAXO]; static int no;
static int lastn[2]; /* allocations at the end of the history of this pool that may still be cancelled */
static int plan(void) {
    int k;
    uint32_t small[] = { 1, 4, 7, 8, 12, 16, 24, 64, 100, 128, 4096, 65536 };
    np = 1 + (RN(3) == 0);
    nops = case_size == 2 ? 300 : 10 + RN(70);
    for (k = 0; k < np; k++) {
        big[k] = RN(2);
        if (big[k]) size[k] = RN(6) == 0 ? 4096u * 8192 - 32 - RN(3) * 8 : (5u << 20) + RN(20 << 20) / 8 * 8;
        else size[k] = small[RN(12)];
    }
    return 1;
}
#define A0 0x100000000000UL
static int addr(char *p) { return (int)((uintptr_t)p - A0); } /* position inside the region of this thread */
static void thread(int t) {
    int k, i, j, bad = 0;
    no = 0;
    for (k = 0; k < np; k++) {
        pool[k] = vs_alloc(sizeof(SynchPoolStruct));
        memset(pool[k], 0x77, sizeof(SynchPoolStruct));
        if (RN(8) == 0) ev('k', 0, k, synchInitPool(pool[k], 4096u * 8192 + RN(2) * 4096), 0); /* too large: refused */
        j = synchInitPool(pool[k], size[k]);
        lastn[k] = 0;
        ev('i', 0, k, j, 2, (int)size[k], (int)(vs_live_bytes() >> 20));
    }
    for (i = 0; i < nops; i++) {
        k = RN(np);
        int what = RN(100), nl = 0;
        for (j = 0; j < no; j++) nl += ob[j].live == 1 && ob[j].pool == k;
        int limit = big[k] ? 5 : 60;
        if (what < 50 && nl < limit && no < MAXO) {
            Obj *o = &ob[no];
            o->p = synchAllocObj(pool[k]);
            if (!o->p) { ev('x', 0, k, 0, 0); return; }
            o->live = 1; o->pool = k;
            o->fresh = 1;
            for (j = 0; j < no; j++) if (ob[j].pool == k && ob[j].p == o->p && ob[j].live == 0) o->fresh = 0;
            uint32_t sz = size[k];
            /* the object belongs to us: all of its bytes can be written */
            memset(o->p, 0x11 + no % 100, sz > 256 ? 128 : sz);
            o->p[sz - 1] = 0x11 + no % 100;
            ev('a', 0, k, no, 2, addr(o->p), (int)(vs_live_bytes() >> 20));
            lastn[k] = o->fresh ? lastn[k] + 1 : 0;
            no++;
        } else if (what < 80) {
            if (!nl) continue;
            int pick = RN(nl);
            for (j = 0; j < no; j++) if (ob[j].live == 1 && ob[j].pool == k && pick-- == 0) break;
            synchRecycleObj(pool[k], ob[j].p);
            ob[j].live = 0;
            { int later = 0, x; for (x = j + 1; x < no; x++) later += ob[x].pool == k && ob[x].live != 2; if (later < lastn[k]) lastn[k] = later; }
            ev('d', 0, k, j, 0);
        } else if (what < 92) {
            int m = lastn[k] ? 1 + RN(lastn[k]) : 0, c = m;
            synchRollback(pool[k], m);
            for (j = no - 1; j >= 0 && c > 0; j--) if (ob[j].pool == k && ob[j].live == 1) { ob[j].live = 2; c--; }
            lastn[k] -= m;
            ev('b', 0, k, m, 0);
        } else if (what < 94) {
            synchRecycleObj(pool[k], NULL);
        }
        for (j = 0; j < no; j++) if (ob[j].live == 1) { /* nobody touched the live objects */
            uint32_t sz = size[ob[j].pool];
            if (ob[j].p[0] != (char)(0x11 + j % 100) || ob[j].p[sz - 1] != (char)(0x11 + j % 100)) bad = 1;
        }
        if (bad) { ev('x', 0, k, 1, 0); return; }
    }
    for (k = 0; k < np; k++) {
        synchDestroyPool(pool[k]);
        ev('q', 0, k, (int)(vs_live_bytes() >> 20), 0);
    }
}
case_def CASE = { "pool", plan, NULL, thread, NULL, C_SEQ };
