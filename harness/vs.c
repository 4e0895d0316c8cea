#define _GNU_SOURCE
#include "vs.h"
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#define ARENA_BASE  0x100000000000UL
#define REG_SIZE    (1UL << 29)
#define NREG        (VS_MAXT + 1)
#define ARENA_END   (ARENA_BASE + NREG * REG_SIZE)
#define STACK_BASE  0x200000000000UL
#define STACK_SIZE  (256UL << 10)
#define STACK_END   (STACK_BASE + (VS_MAXT + 2) * STACK_SIZE)
#define SHADOW_BASE 0x300000000000UL   /* uint16 per 8 bytes of arena */
#define MAXALLOC    4096
#define REDZONE     256

#define SH_TID   0xff
#define SH_MULTI 0x100
#define SH_WR    0x200

typedef struct { uintptr_t base, end; uintptr_t req; int freed; } Alloc;
typedef struct {
    uintptr_t cur;
    int n;
    Alloc *a;
} Region;

typedef struct { uintptr_t addr; uint64_t oldv, newv; } SB;

typedef struct {
    void *sp;
    int used, done, blocked_join, stalled, parked;
    void (*fn)(int, void *);
    void *arg;
    void *(*pfn)(void *);
    void *parg;
    char *tls;
    long points, since_yield, yields;
    int64_t prio;
    long solo_points;
} VT;

static VT T[VS_MAXT + 1];
static int NT;                       /* spawned */
#define MAINSLOT VS_MAXT             /* sequential set-up slot */
static int cur = -1;                 /* running vthread, -1 = scheduler */
static void *main_sp;
static int nosched;
static int endcode;
static char whybuf[256];
const char *vs_why = "";
static long points, stall_since;
static Region R[NREG];
static unsigned char *dirty_map;     /* per 4K page */
static uint32_t *dirty_list; static long ndirty, capdirty;
static uintptr_t img_lo[2], img_hi[2];
static char *img_copy[2];
static uint16_t *img_shadow[2];
static uintptr_t tls_lo, tls_hi; static char *tls_init; static size_t tls_sz, tls_filesz;
static int booted;
vs_cfg vs_conf;
int vs_ncpus = 8, vs_nnodes = 1, vs_smt = 0, vs_model = 0, vs_tso = 0, vs_track_pthreads = 0;
int vs_last_affinity[VS_MAXT];
long vs_yield_calls;
static int pth_created;
int vs_record_rmw, vs_rmw_log[4096], vs_rmw_n;
static int in_resched_[VS_MAXT + 1];
#define in_resched in_resched_[cur < 0 ? VS_MAXT : cur]
static long live_allocs; static size_t live_bytes;
static int frozen;                   /* conflict map frozen (DFS) */
static long shadow_changes;

/* the link wraps memcpy & co. for the library; the runtime itself uses these */
static inline void *rawcpy(void *d, const void *s, size_t n) { void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
static inline void *rawset(void *d, int c, size_t n) { void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
#define memcpy rawcpy
#define memset rawset

/* ---------------------------------------------------------------- rng */
static uint64_t rs = 88172645463325252ULL;
void vs_srand(uint64_t s) { rs = s * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 4; i++) vs_rnd(); }
uint64_t vs_rnd(void) { rs ^= rs >> 12; rs ^= rs << 25; rs ^= rs >> 27; if (!rs) rs = 1; return rs * 0x2545F4914F6CDD1DULL; }
uint64_t vs_rndn(uint64_t n) { return n ? (vs_rnd() >> 11) % n : 0; }

/* ---------------------------------------------------------------- context switch */
void vs_switch(void **save, void *to);
__asm__(".text\n.globl vs_switch\nvs_switch:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static inline void tls_swap(int from, int to) {
    if (from == to) return;
    if (from >= 0) memcpy(T[from].tls, (void *)tls_lo, tls_sz);
    if (to >= 0) memcpy((void *)tls_lo, T[to].tls, tls_sz);
}

static void switch_to(int t) {
    int me = cur;
    if (t == me) return;
    tls_swap(me, t);
    cur = t;
    void **sv = &main_sp;
    if (me >= 0) sv = &T[me].sp;
    vs_switch(sv, T[t].sp);
}
static void switch_main(void) {
    int me = cur;
    tls_swap(me, -1);
    cur = -1;
    vs_switch(&T[me].sp, main_sp);
}

int vs_self(void) { return cur == MAINSLOT ? -1 : cur; }
long vs_mypoints(void) { return cur >= 0 ? T[cur].points : 0; }
long vs_total_points(void) { return points; }
int vs_is_stalled(int t) { return T[t].stalled; }
int vs_alive(void) { int n = 0; for (int i = 0; i < NT; i++) n += T[i].used && !T[i].done; return n; }

void vs_fail(int code, const char *why) {
    if (endcode == VS_OK) {
        endcode = code;
        snprintf(whybuf, sizeof whybuf, "%s (thread %d)", why, vs_self());
        vs_why = whybuf;
    }
    if (cur >= 0) { switch_main(); abort(); }
}

/* ---------------------------------------------------------------- scheduling */
static int cand[VS_MAXT];
static int runnable(int t) { return T[t].used && !T[t].done && !T[t].stalled && !T[t].parked && !(T[t].blocked_join); }

static int list_others(int me, int *out) {   /* round robin order after me */
    int n = 0;
    for (int k = 1; k <= NT; k++) {
        int t = (me + k) % NT;
        if (t != me && t >= 0 && runnable(t)) out[n++] = t;
    }
    return n;
}

/* DFS state */
typedef struct { unsigned char n, c, a[6]; } Dec;
static Dec *D; static long dpos, ddepth, dcap; static int dbound, dused; static long dcuts;
long vs_dfs_cuts(void) { return dcuts; }
void vs_dfs_begin(int bound) { ddepth = 0; dpos = 0; dbound = bound; frozen = 1; shadow_changes = 0; dcuts = 0; if (!D) { dcap = 1 << 20; D = malloc(dcap * sizeof *D); } }
int vs_dfs_next(void) {
    while (ddepth > 0 && D[ddepth - 1].c + 1 >= D[ddepth - 1].n) ddepth--;
    if (ddepth == 0) { frozen = 0; return 0; }
    D[ddepth - 1].c++;
    return 1;
}
static int dfs_choose(int *alts, int n) {
    if (n > 6) n = 6;
    if (dpos >= dcap) { dcuts++; return alts[0]; }
    if (dpos < ddepth) {
        Dec *d = &D[dpos++];
        if (d->c >= d->n) return alts[0];
        int want = d->a[d->c];
        for (int i = 0; i < n; i++) if (alts[i] == want) return want;
        return alts[0];
    }
    Dec *d = &D[dpos++];
    d->n = n; d->c = 0;
    for (int i = 0; i < n; i++) d->a[i] = alts[i];
    ddepth = dpos;
    return alts[0];
}

/* PCT */
static long pct_at[16]; static int npct; static int64_t pct_low;
static long rnd_left; static int fair_left;
int vs_trace;
static int guide_pos; static long guide_skip, phase0;
long vs_phase_points(void) { return points - phase0; }
long vs_guide_skipped(void) { return guide_skip; }

long vs_adv_ticks; static long adv_goal, adv_left;
void vs_adv_tick(void) { vs_adv_ticks++; }
static void adv_leave(void) { adv_goal = vs_adv_ticks + 1 + vs_rndn(vs_conf.adv_gap > 0 ? vs_conf.adv_gap : 1); }

static int best_prio(void) {
    int b = -1;
    for (int i = 0; i < NT; i++) if (runnable(i) && (b < 0 || T[i].prio > T[b].prio)) b = i;
    return b;
}
static void set_rnd_left(void) {
    int m = vs_conf.mean > 0 ? vs_conf.mean : 10;
    rnd_left = 1 + vs_rndn(2 * m);
}
static void unstall_all(void) { for (int i = 0; i < NT; i++) T[i].stalled = 0; }

/* pick when the current thread cannot or should not go on; -1: none */
static int pick_other(int me, int voluntary) {
    int n = list_others(me, cand);
    if (n == 0) {
        if (!vs_conf.stall_forever) {
            int any = 0;
            for (int i = 0; i < NT; i++) if (T[i].stalled) any = 1;
            if (any && !(voluntary && runnable(me) && points - stall_since < 400)) { unstall_all(); n = list_others(me, cand); }
        }
        if (n == 0) return -1;
    }
    switch (vs_conf.strategy) {
    case VS_ADV: if (me == vs_conf.adv_victim) adv_leave(); /* fall through */
    case VS_PREEMPT:
    case VS_RANDOM: case VS_STALL: set_rnd_left(); return cand[vs_rndn(n)];
    case VS_PCT: {
        if (voluntary) T[me].prio = --pct_low;
        int b = -1;
        for (int i = 0; i < n; i++) if (b < 0 || T[cand[i]].prio > T[b].prio) b = cand[i];
        return b;
    }
    case VS_DFS: {
        if (!voluntary) return n == 1 ? cand[0] : dfs_choose(cand, n);
        if (n == 1 || dused >= dbound) return cand[0];
        int c = dfs_choose(cand, n);
        if (c != cand[0]) dused++;
        return c;
    }
    case VS_GUIDED:
        if (voluntary && guide_pos < vs_conf.nguide && (vs_conf.guide[guide_pos] & 0xff) == me) { guide_pos++; guide_skip++; }
        while (guide_pos < vs_conf.nguide) {
            int g = vs_conf.guide[guide_pos] & 0xff;
            if (voluntary && g == me && runnable(me)) return -1;
            if (g < NT && g != me && runnable(g)) return g;
            guide_pos++; guide_skip++;
        }
        return cand[0];
    default: return cand[0];
    }
}

static void progress_check(int me) {
    if (points > vs_conf.hang_max) vs_fail(VS_HANG, "no progress: the operations in flight never complete");
    (void)me;
}

static void sched_point(int kind, uintptr_t a) {
    int me = cur;
    (void)a;
    if (me < 0 || me == MAINSLOT) { if (me == MAINSLOT && ++points > 50000000) vs_fail(VS_HANG, "sequential phase does not terminate"); return; }
    T[me].points++; points++; T[me].since_yield++;
    if (nosched) { if (T[me].since_yield > 5000000) vs_fail(VS_HANG, "initialisation does not terminate"); return; }
    progress_check(me);
    if (vs_record_rmw && kind == 2 && vs_rmw_n < 4096) vs_rmw_log[vs_rmw_n++] = me;
    if (points > vs_conf.hang_fair) {
        if (!vs_conf.stall_forever) unstall_all();
        if (--fair_left <= 0) { fair_left = 40; int n = list_others(me, cand); if (n) { switch_to(cand[0]); } }
        return;
    }
    if (T[me].since_yield > (vs_conf.strategy == VS_ADV ? 60 : vs_conf.strategy == VS_GUIDED ? 1500000 : 3000) && vs_conf.strategy != VS_SOLO) {
        T[me].since_yield = 0;
        int t = pick_other(me, 1);
        if (t >= 0) { switch_to(t); return; }
    }
    switch (vs_conf.strategy) {
    case VS_STALL:
        if (me == vs_conf.stall_tid && T[me].points == vs_conf.stall_at) {
            T[me].stalled = 1; stall_since = points;
            int t = pick_other(me, 0);
            if (t >= 0) { switch_to(t); return; }
            if (vs_conf.stall_forever) { switch_main(); abort(); }
            T[me].stalled = 0;
        }
        for (int q = 0; q < vs_conf.stall_n; q++) if (me == vs_conf.stall_tids[q] && T[me].points == vs_conf.stall_ats[q]) {
            T[me].stalled = 1; stall_since = points;
            int t = pick_other(me, 0);
            if (t >= 0) { switch_to(t); return; }
            if (vs_conf.stall_forever) { switch_main(); abort(); }
            T[me].stalled = 0;
        }
        if (!vs_conf.stall_forever && stall_since && points - stall_since >= (long)vs_conf.pct_len) { unstall_all(); stall_since = 0; }
        /* fall through */
    case VS_RANDOM:
        if (--rnd_left <= 0 || (vs_conf.slow > 0 && me == vs_conf.slow - 1)) {
            set_rnd_left();
            int n = list_others(me, cand);
            if (n) { int k = vs_rndn(n + 1); if (k < n) switch_to(cand[k]); }
        }
        return;
    case VS_ADV:
        if (me == vs_conf.adv_victim) {
            if (--adv_left <= 0) { adv_leave(); int n = list_others(me, cand); if (n) switch_to(cand[vs_rndn(n)]); }
        } else if (vs_adv_ticks >= adv_goal && runnable(vs_conf.adv_victim)) {
            adv_left = vs_rndn(4) ? 1 : 1 + vs_rndn(6);
            switch_to(vs_conf.adv_victim);
        } else if (--rnd_left <= 0) {
            set_rnd_left();
            int n = list_others(me, cand), m = 0;
            for (int i = 0; i < n; i++) if (cand[i] != vs_conf.adv_victim) cand[m++] = cand[i];
            if (m) switch_to(cand[vs_rndn(m)]);
        }
        return;
    case VS_PREEMPT:
        for (int i = 0; i < vs_conf.npre; i++) if (vs_conf.pre_at[i] == points - phase0) { int n = list_others(me, cand); if (n) switch_to(cand[vs_rndn(n)]); return; }
        return;
    case VS_PCT:
        for (int i = 0; i < npct; i++) if (pct_at[i] == points) { T[me].prio = --pct_low; int b = best_prio(); if (b >= 0 && b != me) { switch_to(b); } return; }
        return;
    case VS_DFS:
        if (dused < dbound) {
            int alts[8], n = list_others(me, cand);
            if (n == 0) return;
            if (n > 5) n = 5;
            alts[0] = me;
            for (int i = 0; i < n; i++) alts[i + 1] = cand[i];
            int c = dfs_choose(alts, n + 1);
            if (c != me) { dused++; switch_to(c); }
        }
        return;
    case VS_GUIDED:
        /* the step of a behaviour of the specification: thread, and the class of the access that ends it (read, write,
           rmw, c = next operation).  A thread runs to the first access of that class; it never passes an rmw that is not
           its step.  Where the code does something else than the specification, steps are skipped, never forced. */
        if (kind == 4) return;
        if (vs_trace) fprintf(stderr, "[%d %c %lx @%d]\n", me, "rwxc"[kind], (unsigned long)(a & 0xffffffff), guide_pos);
        while (guide_pos < vs_conf.nguide) {
            int g = vs_conf.guide[guide_pos] & 0xff, c = vs_conf.guide[guide_pos] >> 8;
            if (g >= NT || !runnable(g)) { guide_pos++; guide_skip++; continue; }
            if (g != me) { switch_to(g); continue; }
            if (c == 3) { if (kind == 3) guide_pos++; return; }
            if (kind == c) { guide_pos++; return; }
            if (kind == 3 || kind == 2) { guide_pos++; guide_skip++; continue; }
            return;
        }
        return;
    default: return;
    }
}

void vs_point(void) { sched_point(4, 0); }
void vs_op_boundary(void) { if (vs_conf.strategy == VS_GUIDED) sched_point(3, 0); }

void vs_yield(void) {
    int me = cur;
    vs_yield_calls++;
    if (me < 0) return;
    if (vs_trace) fprintf(stderr, "[%d yield @%d]\n", me, guide_pos);
    if (vs_on_yield && me != MAINSLOT) vs_on_yield(me);
    if (me == MAINSLOT) { if (++points > 50000000) vs_fail(VS_HANG, "sequential phase does not terminate"); return; }
    points++; T[me].points++; T[me].yields++; T[me].since_yield = 0;
    if (nosched) { if (T[me].yields > 200000) vs_fail(VS_HANG, "initialisation does not terminate"); return; }
    progress_check(me);
    if (points > vs_conf.hang_fair) {
        if (!vs_conf.stall_forever) unstall_all();
        fair_left = 40;
        int n = list_others(me, cand);
        if (n) switch_to(cand[0]);
        return;
    }
    if (!vs_conf.stall_forever && stall_since && points - stall_since >= (long)vs_conf.pct_len) { unstall_all(); stall_since = 0; }
    int t = pick_other(me, 1);
    if (t >= 0) switch_to(t);
}

int vs_start_order, vs_seq_boot;
void (*vs_on_yield)(int);
int vs_is_done(int t) { return T[t].done; }
void vs_dfs_end(void) { frozen = 0; ddepth = 0; }
/* boot order: the caller sleeps until vs_unpark_all; the next lower thread runs */
void vs_park(void) {
    int me = cur;
    if (me <= 0 || me == MAINSLOT) return;
    T[me].parked = 1;
    switch_to(me - 1);
}
void vs_unpark_all(void) { for (int i = 0; i < NT; i++) T[i].parked = 0; }

/* a free scheduling choice (start of the concurrent phase) */
void vs_free_choice(void) {
    int me = cur;
    if (me < 0 || me == MAINSLOT) return;
    phase0 = points;
    int n = list_others(me, cand);
    if (n == 0) return;
    int t = me;
    cand[n++] = me;
    switch (vs_conf.strategy) {
    case VS_RANDOM: case VS_STALL: case VS_ADV: case VS_PREEMPT: t = cand[vs_rndn(n)]; break;
    case VS_PCT: t = best_prio(); break;
    case VS_DFS: t = dfs_choose(cand, n); break;
    case VS_GUIDED: if (vs_conf.nguide > 0 && (vs_conf.guide[0] & 0xff) < NT && runnable(vs_conf.guide[0] & 0xff)) t = vs_conf.guide[0] & 0xff; break;
    default: break;
    }
    if (t != me && t >= 0) switch_to(t);
}

void vs_nosched(int on) { nosched += on ? 1 : -1; }

/* ---------------------------------------------------------------- memory */
static inline void mark_dirty(uintptr_t a) {
    size_t p = (a - ARENA_BASE) >> 12;
    if (!dirty_map[p]) {
        dirty_map[p] = 1;
        if (ndirty == capdirty) { capdirty = capdirty ? capdirty * 2 : 4096; dirty_list = realloc(dirty_list, capdirty * sizeof *dirty_list); }
        dirty_list[ndirty++] = p;
    }
}

/* numa_alloc_local gives whole pages; the pattern of addresses (a page, then a little) keeps small blocks cheap unless
   exact placement matters */
int vs_page_blocks;
static void *arena_alloc_al(size_t n, int lib, size_t al) {
    int r = cur < 0 ? MAINSLOT : cur;
    Region *g = &R[r];
    uintptr_t b = (g->cur + al - 1) & ~(al - 1);
    if (n == 0) n = 1;
    if (b + n + REDZONE > ARENA_BASE + (r + 1) * REG_SIZE || g->n >= MAXALLOC) { vs_fail(VS_ASSERT, "unbounded memory use"); return NULL; }
    g->a[g->n].base = b; g->a[g->n].end = b + n; g->a[g->n].req = n; g->a[g->n].freed = lib ? 0 : 2; g->n++;
    g->cur = b + n + REDZONE;
    if (n <= (128 << 10)) for (uintptr_t p = b & ~4095UL; p < b + n; p += 4096) mark_dirty(p);
    if (lib) { live_allocs++; live_bytes += n; }
    return (void *)b;
}
static void *arena_alloc(size_t n, int lib) { return arena_alloc_al(n, lib, n >= 4096 || vs_page_blocks ? 4096 : 256); }
void *vs_alloc(size_t n) { return arena_alloc(n, 0); }
size_t vs_live_bytes(void) { return live_bytes; }
long vs_pages(void) { return ndirty; }
long vs_live_allocs(void) { return live_allocs; }

static Alloc *find_alloc(uintptr_t a) {
    Region *g = &R[(a - ARENA_BASE) / REG_SIZE];
    int lo = 0, hi = g->n - 1;
    while (lo <= hi) {
        int m = (lo + hi) >> 1;
        if (a < g->a[m].base) hi = m - 1;
        else if (a >= g->a[m].end) lo = m + 1;
        else return &g->a[m];
    }
    return NULL;
}

static void bad_access(uintptr_t a, unsigned sz, int code) {
    char b[128];
    snprintf(b, sizeof b, "%s of %u bytes", code == VS_OOB ? "access outside every live allocation" : "access to freed memory", sz);
    (void)a;
    vs_fail(code, b);
}

static inline int share(uint16_t *s, int wr) {
    uint16_t v = *s;
    int me = cur + 1;
    if (cur == MAINSLOT) return 0;
    uint16_t w = v;
    if ((w & SH_TID) == 0) w |= me;
    else if ((w & SH_TID) != me) w |= SH_MULTI;
    if (wr) w |= SH_WR;
    if (w != v) {
        if (frozen) { if ((w & (SH_MULTI | SH_WR)) == (SH_MULTI | SH_WR) && (v & (SH_MULTI | SH_WR)) != (SH_MULTI | SH_WR)) shadow_changes++; return (v & (SH_MULTI | SH_WR)) == (SH_MULTI | SH_WR); }
        *s = w;
    }
    return (w & (SH_MULTI | SH_WR)) == (SH_MULTI | SH_WR);
}
long vs_shadow_changes(void) { return shadow_changes; }

/* kind: 0 read, 1 write, 2 rmw */
static inline void vs_access(uintptr_t a, unsigned sz, int kind) {
    if (cur < 0) return;
    if (a >= ARENA_BASE && a < ARENA_END) {
        Alloc *x = find_alloc(a);
        if (!x || a + sz > x->end) { bad_access(a, sz, VS_OOB); return; }
        if (x->freed == 1) { bad_access(a, sz, VS_UAF); return; }
        if (kind) { mark_dirty(a); mark_dirty(a + sz - 1); }
        if (share((uint16_t *)SHADOW_BASE + ((a - ARENA_BASE) >> 3), kind) || (kind == 2 && vs_conf.strategy == VS_GUIDED)) sched_point(kind, a);
        return;
    }
    if (a >= STACK_BASE && a < STACK_END) {
        if ((int)((a - STACK_BASE) / STACK_SIZE) != cur) sched_point(kind, a);
        return;
    }
    for (int i = 0; i < 2; i++)
        if (a >= img_lo[i] && a < img_hi[i]) {
            if (share(&img_shadow[i][(a - img_lo[i]) >> 3], kind)) sched_point(kind, a);
            return;
        }
}
static inline void vs_range(uintptr_t a, size_t n, int kind) {
    while (n) { unsigned k = 8 - (a & 7); if (k > n) k = n; vs_access(a, k, kind); a += k; n -= k; }
}

#define RW(N) \
    void __tsan_read##N(void *a) { vs_access((uintptr_t)a, N, 0); } \
    void __tsan_write##N(void *a) { vs_access((uintptr_t)a, N, 1); } \
    void __tsan_unaligned_read##N(void *a) { vs_access((uintptr_t)a, N, 0); } \
    void __tsan_unaligned_write##N(void *a) { vs_access((uintptr_t)a, N, 1); } \
    void __tsan_volatile_read##N(void *a) { vs_access((uintptr_t)a, N, 0); } \
    void __tsan_volatile_write##N(void *a) { vs_access((uintptr_t)a, N, 1); } \
    void __tsan_unaligned_volatile_read##N(void *a) { vs_access((uintptr_t)a, N, 0); } \
    void __tsan_unaligned_volatile_write##N(void *a) { vs_access((uintptr_t)a, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { vs_range((uintptr_t)a, n, 0); }
void __tsan_write_range(void *a, size_t n) { vs_range((uintptr_t)a, n, 1); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void *p) { (void)p; }
void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }

#define AT(B, ty) \
    ty __tsan_atomic##B##_load(const volatile ty *a, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 0); return *a; } \
    void __tsan_atomic##B##_store(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), m == __ATOMIC_SEQ_CST ? 2 : 1); *a = v; } \
    ty __tsan_atomic##B##_exchange(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; *a = v; return o; } \
    ty __tsan_atomic##B##_fetch_add(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; *a = o + v; return o; } \
    ty __tsan_atomic##B##_fetch_sub(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; *a = o - v; return o; } \
    ty __tsan_atomic##B##_fetch_and(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; *a = o & v; return o; } \
    ty __tsan_atomic##B##_fetch_or(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; *a = o | v; return o; } \
    ty __tsan_atomic##B##_fetch_xor(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; *a = o ^ v; return o; } \
    ty __tsan_atomic##B##_fetch_nand(volatile ty *a, ty v, int m) { (void)m; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int m, int f) { (void)m; (void)f; vs_access((uintptr_t)a, sizeof(ty), 2); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int m, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, f); } \
    ty __tsan_atomic##B##_compare_exchange_val(volatile ty *a, ty c, ty v, int m, int f) { (void)m; (void)f; vs_access((uintptr_t)a, sizeof(ty), 2); ty o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
typedef unsigned __int128 u128;
AT(128, u128)
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }

/* ---------------------------------------------------------------- wrapped calls */
bool __attribute__((weak)) __real__CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t C1);
bool __wrap__CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t C1) {
    vs_access((uintptr_t)A, 8, 2);
    if (cur >= 0 && (uintptr_t)A >= ARENA_BASE && (uintptr_t)A < ARENA_END) {
        share((uint16_t *)SHADOW_BASE + (((uintptr_t)A + 8 - ARENA_BASE) >> 3), 1);
        Alloc *x = find_alloc((uintptr_t)A + 8);
        if (!x || x->freed == 1) bad_access((uintptr_t)A, 16, VS_OOB);
        mark_dirty((uintptr_t)A);
    }
    return __real__CAS128(A, B0, B1, C0, C1);
}
void *__wrap_numa_alloc_local(size_t n) { return arena_alloc(n, 1); }
void *__wrap_numa_alloc_onnode(size_t n, int node) { (void)node; return arena_alloc(n, 1); }
void *__wrap_memalign(size_t al, size_t n) { return arena_alloc_al(n, 1, al > 256 ? al : 256); }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) { return cur >= 0 ? arena_alloc(n, 1) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return cur >= 0 ? arena_alloc(a * b, 1) : __real_calloc(a, b); }
void *__wrap_aligned_alloc(size_t al, size_t n) { return arena_alloc_al(n, 1, al > 256 ? al : 256); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = arena_alloc_al(n, 1, al > 256 ? al : 256); return 0; }
void __wrap_numa_free(void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    /* as munmap(2): an address that is not page aligned is refused and nothing is released */
    if (a >= ARENA_BASE && a < ARENA_END) {
        Alloc *x = find_alloc(a);
        if (!x) { vs_fail(VS_OOB, "free of memory that was never allocated"); return; }
        if (x->freed == 1 && x->base == a) { vs_fail(VS_UAF, "memory is released twice"); return; }
        if (x->base == a && n > x->req && ((n + 4095) & ~4095UL) > ((x->req + 4095) & ~4095UL)) { vs_fail(VS_OOB, "free of more memory than was allocated"); return; }
        if (x->base == a && ((n + 4095) & ~4095UL) >= ((x->req + 4095) & ~4095UL)) { if (x->freed == 0) { live_allocs--; live_bytes -= x->req; } x->freed = 1; }
    }
}
void __wrap_free(void *p) {
    uintptr_t a = (uintptr_t)p;
    extern void __real_free(void *);
    if (a >= ARENA_BASE && a < ARENA_END) { Alloc *x = find_alloc(a); if (x) __wrap_numa_free((void *)x->base, x->req); return; }
    __real_free(p);
}
int __wrap_numa_num_task_nodes(void) { return vs_nnodes; }
int __wrap_numa_num_configured_nodes(void) { return vs_nnodes; }
int __wrap_numa_max_node(void) { return vs_nnodes - 1; }
int __wrap_numa_available(void) { return 0; }
int __wrap_numa_pagesize(void) { return 4096; }
int __wrap_numa_node_of_cpu(int cpu) {
    if (cpu < 0 || cpu >= vs_ncpus) { errno = EINVAL; return -1; }
    if (vs_smt) { int h = vs_ncpus / 2 ? vs_ncpus / 2 : 1; int per = h / vs_nnodes ? h / vs_nnodes : 1; int n = (cpu % h) / per; return n < vs_nnodes ? n : vs_nnodes - 1; }
    int per = vs_ncpus / vs_nnodes ? vs_ncpus / vs_nnodes : 1; int n = cpu / per; return n < vs_nnodes ? n : vs_nnodes - 1;
}
long __real_sysconf(int);
long __wrap_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return vs_ncpus; return __real_sysconf(n); }
int __wrap_sched_setaffinity(pid_t p, size_t len, const cpu_set_t *m) {
    (void)p;
    int c = -1;
    for (int i = 0; i < (int)len * 8 && i < CPU_SETSIZE; i++) if (CPU_ISSET(i, m)) { c = i; break; }
    if (cur >= 0 && cur < VS_MAXT) vs_last_affinity[cur] = c;
    if (c < 0 || c >= vs_ncpus) { errno = EINVAL; return -1; }
    return 0;
}
int __wrap_pthread_setconcurrency(int n) { (void)n; return 0; }
int __wrap_sched_yield(void) { if (!in_resched) vs_yield(); return 0; }
void __attribute__((weak)) __real_synchResched(void);
int vs_fibers;
void __wrap_synchResched(void) {
    vs_yield();
    in_resched = !vs_fibers;  /* a fiber switch happens inside: the flag must not leak to the next fiber */
    if (__real_synchResched) __real_synchResched();
    in_resched = 0;
}
uint64_t __attribute__((weak)) __real_synchGetMachineModel(void);
uint64_t __wrap_synchGetMachineModel(void) {
    if (vs_model) return vs_model;
    if (in_resched) return 1; /* AMD: skips the pause loop, which only costs time */
    return __real_synchGetMachineModel ? __real_synchGetMachineModel() : 2;
}
static void pth_entry(int t, void *arg) { (void)arg; T[t].pfn(T[t].parg); }
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    (void)at;
    int t = vs_spawn(pth_entry, NULL);
    if (t < 0) return EAGAIN;
    T[t].pfn = fn; T[t].parg = arg;
    *th = (pthread_t)(t + 1);
    pth_created++;
    sched_point(1, 0);
    return 0;
}
int __wrap_pthread_join(pthread_t th, void **r) {
    int t = (int)th - 1;
    if (r) *r = NULL;
    if (t < 0 || t >= NT) return ESRCH;
    while (!T[t].done) vs_yield();
    return 0;
}
int vs_pthreads_created(void) { return pth_created; }
void __wrap_exit(int c) {
    extern void __real_exit(int);
    if (cur >= 0) vs_fail(VS_EXIT, "the library terminated the process");
    __real_exit(c);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    char *dd = d; const char *ss = s;
    if (cur < 0 || n > (1 << 20)) return rawcpy(d, s, n);
    while (n) {
        size_t k = (n >= 8 && !((uintptr_t)ss & 7) && !((uintptr_t)dd & 7)) ? 8 : 1;
        vs_access((uintptr_t)ss, k, 0);
        if (k == 8) { uint64_t v = *(volatile uint64_t *)ss; vs_access((uintptr_t)dd, k, 1); *(volatile uint64_t *)dd = v; }
        else { char v = *(volatile char *)ss; vs_access((uintptr_t)dd, k, 1); *(volatile char *)dd = v; }
        dd += k; ss += k; n -= k;
    }
    return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (cur >= 0) { vs_range((uintptr_t)s, n, 0); vs_range((uintptr_t)d, n, 1); }
    char *dd = d; const char *ss = s;
    if (dd <= ss || dd >= ss + n) return rawcpy(d, s, n);
    while (n--) ((volatile char *)dd)[n] = ss[n];
    return d;
}
void *__wrap_memset(void *d, int c, size_t n) {
    char *dd = d;
    if (cur >= 0 && n <= (1 << 20)) vs_range((uintptr_t)d, n, 1);
    else if (cur >= 0) for (uintptr_t a = (uintptr_t)d; a < (uintptr_t)d + n; a += 4096) vs_access(a, 1, 1);
    return rawset(dd, c, n);
}

/* ---------------------------------------------------------------- crash handling */
static char crash_stack[65536] __attribute__((aligned(64)));
static char alt_stack[65536] __attribute__((aligned(64)));
static long execs;
static int crash_sig;
int vs_stuck;                     /* executions that had to be ended by the timer: the code computes for ever without a step */
static void crash_tramp(void) {
    char b[64];
    snprintf(b, sizeof b, crash_sig == SIGVTALRM ? "execution does not terminate" : "crash: signal %d", crash_sig);
    if (crash_sig == SIGVTALRM) { vs_stuck++; execs = 0; }
    vs_fail(crash_sig == SIGVTALRM ? VS_HANG : VS_CRASH, b);
    abort();
}
static void on_sig(int s, siginfo_t *si, void *u) {
    (void)si;
    ucontext_t *uc = u;
    if (cur < 0) {
        if (s == SIGVTALRM) return;
        signal(s, SIG_DFL); raise(s); return;
    }
    crash_sig = s;
    uc->uc_mcontext.gregs[REG_RIP] = (greg_t)crash_tramp;
    uc->uc_mcontext.gregs[REG_RSP] = (greg_t)(((uintptr_t)crash_stack + sizeof crash_stack - 64) & ~15UL) - 8;
}

/* ---------------------------------------------------------------- life cycle */
extern char __start_vs_data[] __attribute__((weak)), __stop_vs_data[] __attribute__((weak));
extern char __start_vs_bss[] __attribute__((weak)), __stop_vs_bss[] __attribute__((weak));

static int phdr_cb(struct dl_phdr_info *info, size_t sz, void *data) {
    (void)sz; (void)data;
    if (info->dlpi_name && info->dlpi_name[0]) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            size_t msz = info->dlpi_phdr[i].p_memsz, al = info->dlpi_phdr[i].p_align;
            uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
            size_t r = al ? (msz + al - 1) & ~(al - 1) : msz;
            tls_lo = tp - r; tls_hi = tls_lo + msz; tls_sz = msz;
            tls_filesz = info->dlpi_phdr[i].p_filesz;
            tls_init = calloc(1, msz);
            memcpy(tls_init, (void *)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr), tls_filesz);
        }
    return 1;
}

void vs_boot(void) {
    int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
    if (mmap((void *)ARENA_BASE, NREG * REG_SIZE, PROT_READ | PROT_WRITE, fl, -1, 0) == MAP_FAILED ||
        mmap((void *)STACK_BASE, (VS_MAXT + 2) * STACK_SIZE, PROT_READ | PROT_WRITE, fl, -1, 0) == MAP_FAILED ||
        mmap((void *)SHADOW_BASE, NREG * REG_SIZE / 4, PROT_READ | PROT_WRITE, fl, -1, 0) == MAP_FAILED) {
        perror("vs: mmap"); _exit(70);
    }
    dirty_map = mmap(NULL, NREG * REG_SIZE >> 12, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < NREG; i++) R[i].a = malloc(MAXALLOC * sizeof(Alloc));
    img_lo[0] = (uintptr_t)__start_vs_data; img_hi[0] = (uintptr_t)__stop_vs_data;
    img_lo[1] = (uintptr_t)__start_vs_bss; img_hi[1] = (uintptr_t)__stop_vs_bss;
    for (int i = 0; i < 2; i++) {
        size_t n = img_hi[i] - img_lo[i];
        img_copy[i] = malloc(n + 8); memcpy(img_copy[i], (void *)img_lo[i], n);
        img_shadow[i] = calloc(n / 8 + 8, 2);
    }
    dl_iterate_phdr(phdr_cb, NULL);
    for (int i = 0; i <= VS_MAXT; i++) T[i].tls = calloc(1, tls_sz + 64);
    stack_t ss = { .ss_sp = alt_stack, .ss_size = sizeof alt_stack };
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGVTALRM, &sa, NULL);
    booted = 1;
}

void vs_reset(void) {
    for (long i = 0; i < ndirty; i++) { memset((void *)(ARENA_BASE + ((uintptr_t)dirty_list[i] << 12)), 0, 4096); dirty_map[dirty_list[i]] = 0; }
    ndirty = 0;
    for (int i = 0; i < NREG; i++) { R[i].n = 0; R[i].cur = ARENA_BASE + i * REG_SIZE + 4096; }
    for (int i = 0; i < 2; i++) memcpy((void *)img_lo[i], img_copy[i], img_hi[i] - img_lo[i]);
    for (int i = 0; i < NT; i++) T[i].used = 0;
    NT = 0; cur = -1; nosched = 0; endcode = VS_OK; vs_why = ""; points = 0; stall_since = 0;
    pth_created = 0; memset(in_resched_, 0, sizeof in_resched_); live_allocs = 0; live_bytes = 0; vs_yield_calls = 0; vs_rmw_n = 0;
    guide_pos = 0; guide_skip = 0; phase0 = 0;
    for (int i = 0; i < VS_MAXT; i++) vs_last_affinity[i] = -1;
}

static void entry(void) {
    int me = cur;
    T[me].fn(me, T[me].arg);
    T[me].done = 1;
    if (me == MAINSLOT) { switch_main(); abort(); }
    int t = pick_other(me, 0);
    if (t < 0) {
        /* a joiner may be waiting for us */
        for (int i = 0; i < NT; i++) if (T[i].used && !T[i].done && T[i].blocked_join) { T[i].blocked_join = 0; t = i; break; }
    }
    if (t < 0) { switch_main(); abort(); }
    switch_to(t);
    abort();
}

static void prep(int t, void (*fn)(int, void *), void *arg) {
    VT *v = &T[t];
    char *tls = v->tls;
    memset(v, 0, sizeof *v);
    v->tls = tls;
    memcpy(tls, tls_init ? tls_init : tls, tls_sz);
    v->used = 1; v->fn = fn; v->arg = arg;
    v->prio = 0;
    volatile uintptr_t top = STACK_BASE + (t + 1) * STACK_SIZE - 64;
    uint64_t *s = (uint64_t *)top;
    *--s = 0;                        /* alignment / fake return */
    *--s = (uint64_t)entry;
    s -= 6;
    memset(s, 0, 48);
    v->sp = s;
}

int vs_spawn(void (*fn)(int, void *), void *arg) {
    if (NT >= VS_MAXT) return -1;
    int t = NT++;
    prep(t, fn, arg);
    T[t].prio = (int64_t)(vs_rndn(1000000)) + 1;
    return t;
}

static void arm(void) {
    struct itimerval it = { .it_interval = { 0, 0 }, .it_value = { 20, 0 } };
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

/* run fn alone, before / after the concurrent phase */
int vs_run_seq(void (*fn)(int, void *), void *arg) {
    if ((execs++ & 15) == 0) arm();
    prep(MAINSLOT, fn, arg);
    switch_to(MAINSLOT);
    return endcode;
}

/* block the caller until every other vthread is done or blocked the same way */
void vs_wait_others(void) {
    int me = cur;
    T[me].blocked_join = 1;
    int t = pick_other(me, 0);
    if (t < 0) { T[me].blocked_join = 0; return; }
    switch_to(t);
    T[me].blocked_join = 0;
}

int vs_run(void) {
    if ((execs++ & 15) == 0) arm();
    if (NT == 0) return endcode;
    vs_adv_ticks = 0; adv_goal = 0; adv_left = 1;
    dpos = 0; dused = 0; pct_low = 0; fair_left = 40;
    if (vs_conf.hang_fair == 0) vs_conf.hang_fair = 30000;
    if (vs_conf.hang_max == 0) vs_conf.hang_max = 400000;
    npct = 0;
    if (vs_conf.strategy == VS_PCT) {
        npct = vs_conf.pct_depth > 16 ? 16 : vs_conf.pct_depth;
        long len = vs_conf.pct_len > 0 ? vs_conf.pct_len : 200;
        for (int i = 0; i < npct; i++) pct_at[i] = 1 + vs_rndn(len);
    }
    set_rnd_left();
    int first;
    if (vs_conf.strategy == VS_RANDOM || vs_conf.strategy == VS_STALL || vs_conf.strategy == VS_PREEMPT) first = vs_rndn(NT);
    else if (vs_conf.strategy == VS_PCT) first = best_prio();
    else if (vs_conf.strategy == VS_DFS && !vs_seq_boot) { int a[VS_MAXT]; int n = 0; for (int i = 0; i < NT && i < 6; i++) a[n++] = i; first = n > 1 ? dfs_choose(a, n) : 0; }
    else if (vs_conf.strategy == VS_GUIDED && vs_conf.nguide > 0 && (vs_conf.guide[0] & 0xff) < NT) first = vs_conf.guide[0] & 0xff;
    else first = 0;
    if (vs_seq_boot) first = vs_start_order;
    for (;;) {
        switch_to(first);
        if (endcode != VS_OK) break;
        int n = 0, left = -1;
        for (int i = 0; i < NT; i++) if (T[i].used && !T[i].done) { n++; if (!T[i].stalled) left = i; }
        if (n == 0) break;
        if (vs_conf.stall_forever) break;
        if (left < 0) { unstall_all(); for (int i = 0; i < NT; i++) if (!T[i].done) left = i; }
        T[left].blocked_join = 0;
        first = left;
    }
    return endcode;
}
