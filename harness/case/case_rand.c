/* pseudo-random numbers and backoff */
#include "../case.h"
#include <string.h>
#include <config.h>
#include <primitives.h>
#include <fastrand.h>
#include <backoff.h>
#include <threadtools.h>
static int T, what, len;
static uint32_t seeds[4];
static int lo_, hi_;
static const uint32_t special[] = { 0, 1, 2, 3, 0x9068ffff, 0x9068fffe, 0x8c9ffffe, 0x8c9fffff, 0xffffffff, 0x80000000, 0x7fffffff, 0x464fffff, 65535, 65536 };
static int plan(void) {
    int i;
    what = RN(3); T = what == 2 ? 1 : 1 + RN(3);
    len = 1 + RN(60);
    for (i = 0; i < 4; i++) seeds[i] = i && RN(2) ? seeds[i - 1] : RN(3) ? special[RN(14)] : (uint32_t)vs_rnd();
    lo_ = RN(100); hi_ = lo_ + 1 + RN(9);
    if (RN(4) == 0) { lo_ = RN(32767); hi_ = lo_ + 1 + RN(32768 - lo_); }
    vs_ncpus = RN(4) ? 8 : 1;
    return T;
}
static void words(int ty, int t, int op, const uint32_t *x, int k) {
    int l[260], i;
    for (i = 0; i < k; i++) { l[2 * i] = x[i] >> 16; l[2 * i + 1] = x[i] & 0xffff; }
    evl(ty, t, seeds[t] & 0xffff, seeds[t] >> 16, 2 * k, l);
}
static void thread(int t) {
    int i, l[700];
    uint32_t x[130];
    if (what == 0) {                        /* sequences of a seed, in threads that alternate */
        synchFastRandomSetSeed(seeds[t]);
        for (i = 0; i < len; i++) { l[i] = (int)synchFastRandom(); vs_point(); }
        evl('a', t, seeds[t] & 0xffff, seeds[t] >> 16, len, l);
        for (i = 0; i < 64; i++) { x[i] = synchFastRandom32(); if (i < 8) vs_point(); }
        words('b', t, 0, x, 64);
    } else if (what == 1) {                 /* ranges */
        synchFastRandomSetSeed(seeds[t]);
        for (i = 0; i < 600; i++) { l[i] = (int)synchFastRandomRange(lo_, hi_); if (i < 8) vs_point(); }
        evl('g', lo_, hi_, 0, 600, l);
        for (i = 0; i < 600; i++) l[i] = (int)synchFastRandomRange32(lo_, hi_);
        evl('g', lo_, hi_, 1, 600, l);
        if (1) {
            uint32_t lo = (uint32_t)vs_rnd() >> RN(31), hi = lo + ((uint32_t)vs_rnd() >> RN(31));
            if (hi > lo) {
                int below = 0, above = 0;
                for (i = 0; i < 100; i++) { uint32_t v = synchFastRandomRange32(lo, hi); below += v < lo; above += v > hi; }
                ev('h', 0, below, above, 0);
            }
        }
    } else {                                /* backoff */
        SynchBackoffStruct b;
        int base = RN(6), cap = base + RN(6), sh = 1 + RN(4);
        memset(&b, 0x5a, sizeof b);
        synchInitBackoff(&b, base, cap, sh);
        ev('i', base, cap, (int)b.backoff, 1, sh);
        for (i = 0; i < len; i++) {
            int w = RN(4);
            if (w == 0) synchResetBackoff(&b);
            else if (w == 1) synchBackoffIncrease(&b);
            else if (w == 2) synchBackoffReduce(&b);
            else synchBackoffDelay(&b);
            ev('o', 0, w, (int)b.backoff, 0);
        }
    }
}
case_def CASE = { "rand", plan, NULL, thread, NULL, C_NODFS };
