/* Conformance driver: runs generated programs of operations of one concurrent object
 * of the library under the virtual scheduler and prints every distinct observed
 * history.  The histories are judged by TLC against the TLA+ specification. */
#include "drv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <time.h>

#define MAXOPS 160
#define MAXEV  700
#define CHAIN_MOD 1000003
#define DT     8           /* worker threads at most */

typedef struct { int op; int a; int b; int inst; } Op;
typedef struct {
    int T, npre, nthreads, fibers, drain, ni, late, numa2;
    int pid[DT];
    int nops[DT];
    Op pre[8];
    Op ops[DT][MAXOPS / 2];
    int nargs;
} Prog;

int cfg_nth[NI], force_ni;
int cfg_nthreads, cfg_fibers, cfg_numa, cfg_pin, cfg_backoff;
drv_log *LOGST[NI];
static Prog P;
static int64_t val[MAXOPS + 8];
static int own_pid[MAXOPS + 8];
static int pid2t[512];

/* ------------------------------------------------------------------ history */
typedef struct { char ty; signed char inst; short t, op, a, b; short n; int r[24]; } Ev;
static Ev ev[MAXEV]; static int nev;
static long opstart[DT]; static int started[DT]; static long steps_max;
static int conc_init, world;
static int lock_phase[DT]; static int marked[DT];

static Ev *add(char ty, int inst, int t, int op, int a) {
    if (nev >= MAXEV) { vs_fail(VS_ASSERT, "history too long"); }
    Ev *e = &ev[nev++];
    memset(e, 0, sizeof *e);
    e->ty = ty; e->inst = inst; e->t = t; e->op = op; e->a = a;
    return e;
}
static int vindex(int64_t v) {
    for (int i = 1; i <= P.nargs; i++) if (val[i] == v) return i;
    return R_GARBAGE;
}
static int map_result(int op, int64_t r, Ev *e) {
    switch (OBJ.kind) {
    case K_QUEUE: case K_STACK:
        if (op == 0) { e->n = 0; return 0; }
        e->n = 1;
        e->r[0] = r == DRV_EMPTY ? R_EMPTY : vindex(r);
        return 0;
    case K_LOG:
        if (OBJ.flags & F_LOG_OLD) { e->n = 1; e->r[0] = r >= 0 && r < CHAIN_MOD ? (int)r : -7; return 0; }
        e->n = 1; e->r[0] = r >= 0 && r < 900 ? r : R_GARBAGE;
        return 0;
    case K_SET:
        if (op == 1) { e->n = 1; e->r[0] = r == 0 ? 0 : r == 1 ? 1 : R_GARBAGE; }
        return 0;
    default: return 0;
    }
}
static int crash, progress, memmode;
static int adv; static int served[VS_MAXT];
int64_t drv_log_apply(drv_log *l, int64_t arg, int pid) {
    if (vs_self() >= 0) served[vs_self()]++;
    /* deliberately not atomic: a sequential object that relies on its caller */
    int i = vindex(arg);
    vs_point();
    int64_t k = l->len;
    int code = i == R_GARBAGE ? R_GARBAGE : (own_pid[i] == pid ? i : 500 + i);
    vs_point();
    if (k >= 0 && k < 180) l->e[k] = code;
    vs_point();
    l->len = k + 1;
    return k;
}
/* the state is a digest of everything served so far; the result is the previous digest */
int64_t drv_old_apply(int64_t state, int64_t arg, int pid, int check_pid) {
    int i = vindex(arg);
    if (check_pid && i != R_GARBAGE && own_pid[i] != pid) i += 500;
    if (OBJ.flags & F_REG) {             /* few states, which come back again and again: kind "reg" of Objects.tla */
        if (state < 0 || state >= 3 || i >= 500) return -1;
        return i % 3 == 0 ? state : i % 3 == 1 ? (state + 1) % 3 : 0;
    }
    if (state < 0 || state >= CHAIN_MOD) return -1;
    return (state * 37 + i) % CHAIN_MOD;
}
/* critical sections */
static int cs_data[NI], lock_inst[DT];
static void lock_mark(int t) { if (lock_phase[t] && !marked[t]) { marked[t] = 1; add('w', lock_inst[t], t, 0, 0); } }
void drv_cs_enter(int I, int pid) {
    int t = pid2t[pid];
    if (memmode) return;
    lock_phase[t] = 0;
    add('e', I, t, 0, 0);
    vs_point();
    int k = cs_data[I]; vs_point(); cs_data[I] = k + 1;
    vs_point();
}
void drv_cs_exit(int I, int pid) { if (memmode) return; add('q', I, pid2t[pid], 0, 0); vs_point(); }
static void on_yield(int vt) { (void)vt; int t = vs_self(); if (!world && !memmode && t >= 0 && t < DT) lock_mark(t); }

static void do_op(int t, int pid, const Op *o) {
    vs_op_boundary();
    Ev *e = add('c', o->inst, t, o->op, o->a);
    e->b = o->b;
    lock_phase[t] = OBJ.kind == K_LOCK; lock_inst[t] = o->inst; marked[t] = 0;
    long st = vs_mypoints();
    opstart[t] = st; started[t] = 1;
    int64_t r = OBJ.op(o->inst, pid, o->op, o->a ? val[o->a] : 0, o->b ? val[o->b] : 0);
    started[t] = 0;
    lock_phase[t] = 0;
    st = vs_mypoints() - st;
    if (st > steps_max) steps_max = st;
    e = add('r', o->inst, t, o->op, 0);
    map_result(o->op, r, e);
}
static int late_ready, late_mine[DT];
static void obj_init1(int I) {
    int nm = cfg_numa;
    if (I) cfg_numa = P.numa2;
    OBJ.init(I, cfg_nth[I]);
    cfg_numa = nm;
}
static void tinit_all(int pid) { for (int I = 0; I < (P.late ? 1 : P.ni); I++) OBJ.tinit(I, pid); }
/* the second instance is set up while the first is in use */
static void late_init(int t, int pid) {
    if (t == 0 && !late_ready) { obj_init1(1); late_ready = 1; }
    while (!late_ready) { if (world) drv_resched(); else vs_yield(); }
    if (!late_mine[t]) { late_mine[t] = 1; OBJ.tinit(1, pid); }
}
static int nkeys;
static void final_drain1(int I, int t, int pid) {
    if (OBJ.kind == K_QUEUE || OBJ.kind == K_STACK) {
        int total = P.npre + 2;
        for (int i = 0; i < P.T; i++) total += P.nops[i];
        Op d = { 1, 0, 0, I };
        for (int i = 0; i < total; i++) {
            do_op(t, pid, &d);
            if (ev[nev - 1].r[0] == R_EMPTY || ev[nev - 1].r[0] == R_GARBAGE) break;
        }
    } else if (OBJ.kind == K_SET) {
        for (int k = 1; k <= nkeys; k++) { Op d = { 1, k, 0, I }; do_op(t, pid, &d); }
    } else if (OBJ.kind == K_LOG && LOGST[I]) {
        drv_log *L = LOGST[I];
        Ev *e = add('f', I, t, 0, (int)L->len);
        e->n = 0;
        for (int i = 0; i < L->len && i < 180; i++) {
            if (e->n == 24) { e = add('f', I, t, i, (int)L->len); e->n = 0; }
            e->r[e->n++] = L->e[i];
        }
    } else if (OBJ.kind == K_LOCK) {
        Ev *e = add('f', I, t, 0, cs_data[I]); e->n = 0;
    }
}
static void final_drain(int t, int pid) { for (int I = 0; I < P.ni; I++) final_drain1(I, t, pid); }
static int ninit, ndone;
/* adversary mode: one slow thread, the others perform a lot of operations between any two of its steps */
static int adv_nops, adv_victim, adv_done; static long adv_last, adv_maxgap;
static void bound_ev(char ty, int t, int op, long v, int n, int x) { Ev *e = add(ty, 0, t, op, v > 32000 ? 32000 : (int)v); e->n = 2; e->r[0] = n; e->r[1] = x > 20 ? 20 : x; }
/* memory mode: everybody adds and removes in turn, for a long time */
static int mem_n; static long mem_ops;
static void mem_ev(int t, int k) {
    Ev *e = add('m', 0, t, k, (int)vs_pages()); e->n = 3; e->r[0] = P.T; e->r[1] = (int)mem_ops; e->r[2] = (int)vs_live_allocs();
}
static void mem_worker(int t, int pid) {
    for (int i = 0; i < mem_n; i++) {
        if (t == 0 && i == mem_n / 4) mem_ev(t, 0);
        for (int o = 0; o < 2; o++) {
            if (OBJ.kind == K_SET) OBJ.op(0, pid, o ? 2 : 0, val[1 + t], val[1 + t]);
            else OBJ.op(0, pid, OBJ.kind == K_QUEUE || OBJ.kind == K_STACK ? o : 0, val[1 + t], 0);
            vs_point();
        }
        mem_ops++;
    }
    ndone++;
    if (t == 0) { vs_wait_others(); mem_ev(t, 1); }
}
static void adv_worker(int t, int pid) {
    int maxserved = 0, n = t == adv_victim ? 3 : adv_nops;
    for (int i = 0; i < n && (t == adv_victim || !adv_done); i++) {
        int op = (OBJ.kind == K_QUEUE || OBJ.kind == K_STACK) ? (int)vs_rndn(2) : 0;
        int a = 1 + t;
        long st = vs_mypoints(), tk = vs_adv_ticks;
        served[vs_self()] = 0;
        OBJ.op(0, pid, op, val[a], 0);
        st = vs_mypoints() - st;
        if (served[vs_self()] > maxserved) maxserved = served[vs_self()];
        if (vs_total_points() - adv_last > adv_maxgap) adv_maxgap = vs_total_points() - adv_last;
        adv_last = vs_total_points();
        if (t == adv_victim) bound_ev('b', t, op, st, P.nthreads, (int)(vs_adv_ticks - tk));
        else vs_adv_tick();
        vs_point();
    }
    if (OBJ.kind == K_LOG) bound_ev('s', t, 0, maxserved, P.nthreads, 0);
    if (t == adv_victim) adv_done = 1;
    ndone++;
    if (t == 0) { vs_wait_others(); bound_ev('g', t, 0, adv_maxgap, P.nthreads, 0); }
}
static void worker_body(int t, int pid, int drainer) {
    if (conc_init || world) {
        tinit_all(pid);
        ninit++;
        while (conc_init != 2 && ninit < P.T) { if (world) drv_resched(); else vs_yield(); }  /* 2: a thread starts as soon as it is ready itself */
    }
    if (world && t == 0) for (int i = 0; i < P.npre; i++) do_op(t, pid, &P.pre[i]);
    for (int i = 0; i < P.nops[t]; i++) {
        if (i) vs_point();
        if (P.late && (P.ops[t][i].inst == 1 || (t == 0 && i >= P.nops[0] / 2))) late_init(t, pid);
        do_op(t, pid, &P.ops[t][i]);
    }
    if (P.late) late_init(t, pid);
    ndone++;
    if (crash) { /* the last one that can still run empties the object */
        int st = 0;
        for (int i = 0; i < P.T; i++) st += vs_is_stalled(i);
        if (ndone + st >= P.T && !progress) final_drain(t, pid);
        return;
    }
    if (drainer) { vs_wait_others(); final_drain(t, pid); }
}
static void worker(int vt, void *arg) { int t = (int)(intptr_t)arg; (void)vt; if (memmode) { mem_worker(t, P.pid[t]); return; } if (adv) { adv_worker(t, P.pid[t]); return; } worker_body(t, P.pid[t], t == 0 && P.drain); }
static void tinit_seq(int vt, void *arg) { /* thread start-up without interleaving, then the program */
    int t = (int)(intptr_t)arg;
    (void)vt;
    if (t != 0) { worker(vt, arg); return; }
    worker(vt, arg);
}
/* all workers initialise under nosched, thread 0 last; it does the prefill and opens the phase */
static int ready;
static void boot_worker(int vt, void *arg) {
    int t = (int)(intptr_t)arg;
    if (t != 0 || P.T == 1) {
        vs_nosched(1);
        if (!conc_init) tinit_all(P.pid[t]);
        vs_nosched(0);
        if (t != 0) { ready++; vs_park(); }
    }
    if (t == 0) {
        vs_nosched(1);
        if (!conc_init && P.T != 1) tinit_all(P.pid[0]);
        if (conc_init) { vs_nosched(0); }
        else {
            for (int i = 0; i < P.npre; i++) do_op(0, P.pid[0], &P.pre[i]);
            vs_nosched(0);
        }
        vs_unpark_all();
        vs_free_choice();
    }
    tinit_seq(vt, arg);
}

/* world mode: through the library's own thread runtime, with fibers */
static void *world_func(void *arg) {
    long pid = (long)arg;
    worker_body((int)pid, (int)pid, 0);
    return NULL;
}
static void world_main(int vt, void *arg) {
    (void)vt; (void)arg;
    drv_start(P.T, world_func, P.fibers);
    drv_join(P.T);
    int pid = P.fibers > 1 ? P.T - P.fibers : P.T - 1;
    final_drain(pid, pid);
}
static void obj_init(int vt, void *arg) {
    (void)vt; (void)arg;
    for (int I = 0; I < P.ni; I++) {
        if (OBJ.kind == K_LOG && !(OBJ.flags & F_LOG_OLD)) { LOGST[I] = vs_alloc(sizeof(drv_log)); memset(LOGST[I], 0, sizeof(drv_log)); } else LOGST[I] = NULL;
        if (!I || !P.late) obj_init1(I);
    }
}

/* ------------------------------------------------------------------ programs */
static int64_t special[] = { 0, -1, 1, INT_MIN, INT_MAX, LONG_MAX, (int64_t)UINT_MAX, -2, LONG_MIN + 2, 1LL << 32, -(1LL << 40), 0x7fff, 255 };
static int forbidden(int64_t v) {
    if (v == LONG_MIN || v == LONG_MIN + 1) return 1;
    if (v == -1 && (OBJ.flags & F_NO_MINUS1)) return 1;
    return 0;
}
/* keys that use all 64 bits, often equal in one half */
static int64_t wide_key(int i) {
    switch (vs_rndn(5)) {
    case 0: return (int64_t)vs_rnd();
    case 1: return (int64_t)(vs_rnd() >> 33);
    case 2: return i > 1 ? (int64_t)((uint64_t)val[1 + vs_rndn(i - 1)] + ((uint64_t)(1 + vs_rndn(3)) << 32)) : (int64_t)vs_rndn(4) - 2;
    case 3: return i > 1 ? -val[1 + vs_rndn(i - 1)] : LONG_MAX;
    default: return special[vs_rndn(sizeof special / sizeof *special)];
    }
}
static void gen_values(int n) {
    int cls = vs_rndn(5);
    for (int i = 1; i <= n; i++) {
        for (int tries = 0;; tries++) {
            int64_t v;
            switch (cls) {
            case 0: v = i; break;
            case 1: v = (int64_t)vs_rnd(); break;
            case 2: v = -(int64_t)(i + 3); break;
            case 3: v = ((int64_t)i << 32) | 7; break;
            default: v = (i <= 13 && tries == 0) ? special[vs_rndn(13)] : (int64_t)(vs_rnd() >> (vs_rndn(60))); break;
            }
            if (tries) v += vs_rnd() >> 20;
            int bad = forbidden(v);
            for (int j = 1; j < i && !bad; j++) if (val[j] == v) bad = 1;
            if (!bad) { val[i] = v; break; }
        }
    }
}
static int small;
static int force_T;   /* long programs for fibers: number of threads chosen before the program */
static int newarg(int t) { int i = ++P.nargs; own_pid[i] = P.pid[t]; return i; }
static void gen_op(Op *o, int t, int pct_add) {
    o->a = o->b = 0; o->op = 0; o->inst = P.ni > 1 ? (int)vs_rndn(P.ni) : 0;
    switch (OBJ.kind) {
    case K_QUEUE: case K_STACK:
        o->op = (int)vs_rndn(100) < pct_add ? 0 : 1;
        if (o->op == 0) o->a = newarg(t);
        break;
    case K_LOG: o->a = newarg(t); break;
    case K_SET: o->op = (int)vs_rndn(100) < pct_add ? 0 : 1 + vs_rndn(2); o->a = 1 + vs_rndn(nkeys); o->b = o->op == 0 ? o->a : 0; break;
    case K_LOCK: break;
    }
}
/* size: 0 small (DFS), 1 medium, 2 long */
static void gen_prog(int size, int big_pids) {
    memset(&P, 0, sizeof P);
    int mt = OBJ.maxthreads ? OBJ.maxthreads : DT;
    int r = vs_rndn(100);
    if (size == 0) P.T = r < 50 ? 2 : 3;
    else if (size == 1) P.T = r < 30 ? 2 : r < 70 ? 3 : r < 93 ? 4 : 5;
    else P.T = force_T ? force_T : r < 75 ? 2 : 3;
    if (P.T > mt) P.T = mt;
    P.nthreads = P.T; P.drain = 1; P.ni = 1;
    if (size == 1 && vs_rndn(5) == 0) P.ni = 2;
    if (force_ni) P.ni = force_ni;
    for (int i = 0; i < P.T; i++) P.pid[i] = i;
    if (size == 1 && !(OBJ.flags & F_EXACT)) {
        int q = vs_rndn(10);
        if (q >= 6) { /* more threads configured than active, arbitrary ids */
            P.nthreads = P.T + 1 + vs_rndn(4);
            if (big_pids && q >= 8) P.nthreads = 60 + vs_rndn(76);
        }
        for (int i = 0; i < P.T; i++) {
            for (;;) {
                int p = vs_rndn(P.nthreads), dup = 0;
                if (P.nthreads > 64 && vs_rndn(2)) { int s[] = { 0, 1, 31, 32, 62, 63, 64, 65, 95, 96, 127, 128 }; p = s[vs_rndn(12)] % P.nthreads; }
                for (int j = 0; j < i; j++) dup |= P.pid[j] == p;
                if (!dup) { P.pid[i] = p; break; }
            }
        }
    }
    cfg_nth[0] = cfg_nth[1] = P.nthreads;
    if (P.ni > 1 && !(OBJ.flags & F_EXACT) && vs_rndn(2)) {
        int m = 0;
        for (int i = 0; i < P.T; i++) if (P.pid[i] > m) m = P.pid[i];
        cfg_nth[1] = m + 1 + vs_rndn(vs_rndn(3) ? 4 : 70);
    }
    P.late = force_ni && size == 1 && !crash && vs_rndn(3) == 0;
    if (OBJ.maxprog && P.T > OBJ.maxprog) P.T = OBJ.maxprog;
    nkeys = OBJ.kind == K_SET ? 3 + vs_rndn(3) : 0;
    int pa = 35 + 10 * vs_rndn(5);
    int total = size == 0 ? P.T + 1 + vs_rndn(small ? 3 : 2) : size == 1 ? (progress ? 30 : 11) : (P.T == 2 ? 56 : 66);
    if (size == 0 && (OBJ.kind == K_LOG || OBJ.kind == K_LOCK)) { int c = P.T + 2; if (total > c) total = c; if (small && P.T == 2) total += vs_rndn(2); }
    if (P.late) { P.npre = 0; }
    P.npre = P.late || (OBJ.kind == K_LOG || OBJ.kind == K_LOCK) ? 0 : vs_rndn(size == 0 ? 3 : 4);
    if (OBJ.kind == K_SET) P.npre = P.late ? 0 : vs_rndn(4);
    for (int i = 0; i < P.npre; i++) { gen_op(&P.pre[i], 0, 100); }
    if (size == 1) { int m = P.T + vs_rndn(total - P.T + 1); total = m; }
    /* small programs are often lopsided: one thread performs several operations during one of another */
    int lop = small && (P.T == 2 || OBJ.kind == K_QUEUE || OBJ.kind == K_STACK) && vs_rndn(3) == 0;
    if (lop) total = P.T + 2 + vs_rndn(2);
    /* ... or many, so that everything a thread reuses in turn (state copies, nodes) comes round */
    int lop2 = small && P.T == 2 && !lop && OBJ.kind != K_LOCK && vs_rndn(3) == 0;
    if (lop2) { lop = 1; total = P.T + 4 + vs_rndn(5); int pc[] = { 100, 100, 50, 30 }; pa = pc[vs_rndn(4)]; }
    int bal[DT] = { 0 };
    for (int i = 0; i < total; i++) {
        int t = size == 2 ? i % P.T : (i < P.T ? i : lop ? 0 : (int)vs_rndn(P.T));
        if (P.nops[t] >= MAXOPS / 2) continue;
        /* long programs keep the structure nearly empty: few orders stay open for the specification */
        int pct = pa;
        if (size == 2 && OBJ.kind != K_SET) pct = vs_rndn(8) ? (P.nops[t] & 1 ? 0 : 100) : bal[t] > 0 ? 0 : 50;
        gen_op(&P.ops[t][P.nops[t]], t, pct);
        bal[t] += P.ops[t][P.nops[t]].op == 0 ? 1 : -1;
        P.nops[t]++;
    }
    if (OBJ.kind == K_SET) {
        P.nargs = nkeys;
        int64_t sz = OBJ.cells ? OBJ.cells : 2;
        int cls = vs_rndn(4);
        for (int i = 1; i <= nkeys; i++) {   /* distinct keys, most of them in one bucket */
            for (;;) {
                int64_t base = cls == 0 ? i : cls == 1 ? sz * i : cls == 2 ? wide_key(i) : (vs_rndn(2) ? sz * (int64_t)vs_rndn(1000) : -(int64_t)vs_rndn(50));
                int dup = 0;
                for (int j = 1; j < i; j++) dup |= val[j] == base;
                if (!dup) { val[i] = base; break; }
                if (cls < 2) cls = 3;
            }
        }
    } else gen_values(P.nargs);
    vs_model = vs_rndn(3);
    conc_init = size == 1 && vs_rndn(5) == 0 && P.npre == 0 ? 1 + vs_rndn(2) : 0;
    cfg_nthreads = P.nthreads; cfg_fibers = 1; cfg_numa = 0; cfg_pin = 0;
    { int bo[] = { 0, 0, 0, 1, 2, 7 }; cfg_backoff = bo[vs_rndn(6)]; }
    vs_ncpus = 8; vs_nnodes = 1; vs_smt = 0;
    if (OBJ.flags & F_TOPO) {
        vs_nnodes = 1 << vs_rndn(3);
        vs_ncpus = vs_nnodes * (1 << vs_rndn(3));
        if (vs_ncpus == 1) vs_ncpus = 2;
        if (vs_ncpus < 2 * vs_nnodes) vs_ncpus = 2 * vs_nnodes;
        vs_smt = vs_rndn(2) && vs_ncpus >= 2 * vs_nnodes;
        cfg_numa = vs_rndn(2) ? 0 : 1 + vs_rndn(4);
        cfg_pin = vs_rndn(6);
        P.numa2 = vs_rndn(3) ? cfg_numa : vs_rndn(2) ? 0 : 1 + vs_rndn(4);
    }
}
static void setup_pidmap(void) { memset(pid2t, 0, sizeof pid2t); for (int i = 0; i < P.T; i++) pid2t[P.pid[i]] = i; }

/* ------------------------------------------------------------------ one execution */
static int run_exec(void) {
    vs_reset();
    adv_done = 0; adv_last = adv_maxgap = 0;
    nev = 0; ninit = ndone = ready = 0; steps_max = 0; cs_data[0] = cs_data[1] = 0;
    memset(lock_phase, 0, sizeof lock_phase); memset(started, 0, sizeof started); late_ready = 0; memset(late_mine, 0, sizeof late_mine);
    setup_pidmap();
    vs_fibers = world && P.fibers > 1;
    vs_on_yield = OBJ.kind == K_LOCK ? on_yield : NULL;
    int rc = vs_run_seq(obj_init, NULL);
    if (rc == VS_OK) {
        if (world) vs_spawn(world_main, NULL);
        else { for (int i = 0; i < P.T; i++) vs_spawn(boot_worker, (void *)(intptr_t)i); vs_start_order = P.T > 1 ? P.T - 1 : 0; }
        vs_seq_boot = !world;
        rc = vs_run();
    }
    if (rc == VS_OK && !vs_conf.stall_forever && ndone < P.T) { rc = VS_HANG; vs_why = "a thread never ran to its end"; }
    if (rc == VS_OK && vs_conf.stall_forever) {
        /* everybody but the stopped thread must be through */
        int left = 0;
        for (int i = 0; i < P.T; i++) if (!vs_is_stalled(i) && !vs_is_done(i)) left++;
        if (left) { rc = VS_HANG; vs_why = "a thread cannot finish while another one is stopped"; }
    }
    if (rc == VS_OK && progress) {
        for (int i = 0; i < P.T; i++) if (vs_is_stalled(i)) for (int I = 0; I < P.ni; I++) add('d', I, i, 0, 0);
        for (int I = 0; I < P.ni; I++) add('q', I, 0, 0, 0);
    }
    if (rc != VS_OK) for (int I = 0; I < P.ni; I++) add('x', I, 0, rc, 0);
    return rc;
}

/* ------------------------------------------------------------------ output */
static int evcmp(const void *a, const void *b) { return ((const Ev *)a)->t - ((const Ev *)b)->t; }
static void canon(void) {
    for (int i = 0; i < nev;) {
        int j = i + 1;
        if (ev[i].ty == 'c' || ev[i].ty == 'r') { while (j < nev && ev[j].ty == ev[i].ty) j++; qsort(ev + i, j - i, sizeof(Ev), evcmp); }
        i = j;
    }
}
static uint64_t *seen; static long seencap, nseen;
static int unseen(uint64_t h) {
    if (!seen) { seencap = 1 << 20; seen = calloc(seencap, 8); }
    if (!h) h = 1;
    if (nseen * 2 > seencap) {
        uint64_t *o = seen; long oc = seencap; seencap *= 2; seen = calloc(seencap, 8);
        for (long i = 0; i < oc; i++) if (o[i]) { long k = o[i] & (seencap - 1); while (seen[k]) k = (k + 1) & (seencap - 1); seen[k] = o[i]; }
        free(o);
    }
    long k = h & (seencap - 1);
    while (seen[k]) { if (seen[k] == h) return 0; k = (k + 1) & (seencap - 1); }
    seen[k] = h; nseen++;
    return 1;
}
static char line[1 << 16];
static int nprint; static long maxprint = 1L << 40;
static void emit(long id, int rc, int always) {
    canon();
    for (int I = 0; I < P.ni; I++) {
        char *p = line;
        *p = 0;
        for (int i = 0; i < nev; i++) {
            Ev *e = &ev[i];
            if (e->inst != I) continue;
            if (progress && (e->ty == 'c' || e->ty == 'r')) e->op = e->a = e->n = 0;
            p += sprintf(p, "%s%c,%d,%d,%d", p > line ? ";" : "", e->ty, e->t, e->op, e->a);
            for (int k = 0; k < e->n; k++) p += sprintf(p, ",%d", e->r[k]);
        }
        if (p == line) continue;
        uint64_t h = 1469598103934665603ULL;
        for (char *q = line; *q; q++) h = (h ^ (unsigned char)*q) * 1099511628211ULL;
        h ^= h >> 29;
        if (unseen(h) || always) {
            if (nprint++ < maxprint) printf("H %ld:%d %d %s\n", id, I, P.T, line);
            if (rc != VS_OK) printf("# %ld %s\n", id, vs_why);
        }
    }
}
static void show_prog(long id) {
    printf("# id=%ld T=%d nthreads=%d fibers=%d ncpus=%d nodes=%d smt=%d numa=%d pin=%d model=%d conc_init=%d strategy=%d\n", id, P.T, P.nthreads, P.fibers, vs_ncpus, vs_nnodes, vs_smt, cfg_numa, cfg_pin, vs_model, conc_init, vs_conf.strategy);
    for (int t = 0; t < P.T; t++) {
        printf("# pid %d:", P.pid[t]);
        if (t == 0) { for (int i = 0; i < P.npre; i++) printf(" pre(%s%d,%ld)", P.pre[i].inst ? "B." : "", P.pre[i].op, P.pre[i].a ? (long)val[P.pre[i].a] : 0L); }
        for (int i = 0; i < P.nops[t]; i++) printf(" (%s%d,%ld)", P.ops[t][i].inst ? "B." : "", P.ops[t][i].op, P.ops[t][i].a ? (long)val[P.ops[t][i].a] : 0);
        printf("\n");
    }
}
/* executions that never end are slow: a few of them are enough */
static int nhang, hang_enough = 6;
static int note_rc(int rc) { if (rc == VS_HANG) { nhang += vs_stuck ? 3 : 1; vs_stuck = 0; } return rc != VS_OK; }
static double now(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void pick_strategy(int size, long est) {
    memset(&vs_conf, 0, sizeof vs_conf);
    int r = vs_rndn(100);
    int means[] = { 2, 4, 10, 30, 100 };
    vs_conf.mean = means[vs_rndn(5)];
    if (r < 40) vs_conf.strategy = VS_RANDOM;
    else if (r < 70) { vs_conf.strategy = VS_PCT; vs_conf.pct_depth = 1 + vs_rndn(4); vs_conf.pct_len = est > 20 ? est : 200; }
    else { vs_conf.strategy = VS_STALL; vs_conf.stall_tid = vs_rndn(P.T); vs_conf.stall_at = 1 + vs_rndn(est / P.T > 10 ? est / P.T : 40); vs_conf.pct_len = 5 + vs_rndn(est > 20 ? est : 200); }
    if (size == 2) { vs_conf.strategy = VS_RANDOM; vs_conf.slow = vs_rndn(4) ? 1 + vs_rndn(P.T) : 0; vs_conf.mean = 5 + vs_rndn(60); }
    vs_conf.hang_fair = 40000; vs_conf.hang_max = 1500000;
}

/* guided runs: behaviours of the specification, one per line:
 * T numa fibers ; op,arg op,arg .. ; .. ; <thread><class> .. ; <thread>:<result> ..   */
static int gsteps[8192], ngsteps; static int gexp[DT][64], ngexp[DT];
static int guide_parse(char *l) {
    static Prog Z; P = Z;
    int numa, fib, off;
    if (sscanf(l, "%d %d %d ;%n", &P.T, &numa, &fib, &off) != 3 || P.T > DT) return 0;
    l += off;
    P.nthreads = P.T; P.drain = 1; P.ni = 1;
    for (int t = 0; t < P.T; t++) {
        P.pid[t] = t;
        int o, a, k;
        while (sscanf(l, " %d,%d%n", &o, &a, &k) == 2) {
            Op *q = &P.ops[t][P.nops[t]++];
            q->op = o; q->a = a; q->b = OBJ.kind == K_SET && o == 0 ? a : 0;
            if (a > P.nargs) P.nargs = a;
            if (a) own_pid[a] = t;
            l += k;
        }
        while (*l && *l != ';') l++;
        if (*l) l++;
    }
    ngsteps = 0;
    for (; *l && *l != ';'; l++) {
        if (*l < '0' || *l > '9') continue;
        int t = *l - '0', c = l[1] == 'r' ? 0 : l[1] == 'w' ? 1 : l[1] == 'x' ? 2 : 3;
        if (ngsteps < 8192) gsteps[ngsteps++] = t | c << 8;
        l++;
    }
    memset(ngexp, 0, sizeof ngexp);
    if (*l) l++;
    int t, r, k;
    while (sscanf(l, " %d:%d%n", &t, &r, &k) == 2) { if (ngexp[t] < 64) gexp[t][ngexp[t]++] = r; l += k; }
    cfg_nthreads = P.T; cfg_nth[0] = cfg_nth[1] = P.T; cfg_fibers = fib; cfg_numa = numa; cfg_pin = 0; cfg_backoff = 0;
    vs_ncpus = 8; vs_nnodes = numa > 1 ? numa : 1; vs_smt = 0; vs_model = 2; conc_init = 0;
    P.fibers = fib;
    return 1;
}
/* small deviations from a schedule: a step comes earlier or is lost */
static void guide_perturb(void) {
    for (int e = 1 + vs_rndn(2); e > 0 && ngsteps > 3; e--) {
        int p = vs_rndn(ngsteps - 1), d = 1 + vs_rndn(6);
        if (p + d >= ngsteps) d = ngsteps - 1 - p;
        if (vs_rndn(3) == 0) { for (int i = p; i + 1 < ngsteps; i++) gsteps[i] = gsteps[i + 1]; ngsteps--; continue; }
        int x = gsteps[p + d];
        for (int i = p + d; i > p; i--) gsteps[i] = gsteps[i - 1];
        gsteps[p] = x;
    }
}
static int guide_match(void) {
    for (int t = 0; t < P.T; t++) {
        int n = 0;
        for (int i = 0; i < nev && n < P.nops[t] && n < ngexp[t]; i++)
            if (ev[i].ty == 'r' && ev[i].t == t) { int r = ev[i].n ? ev[i].r[0] : -9; if (r != gexp[t][n]) return 0; n++; }
        if (n < ngexp[t]) return 0;
    }
    return 1;
}

int main(int argc, char **argv) {
    long execs = 1000, stop_at = -1, cap = 20000, from = 0; uint64_t seed = 1; double tlimit = 1e9; int bound = 2, progs = 5, big = 0;
    const char *mode = "rand", *gfile = NULL; int quiet = 0, fibers = 0, perturb = 0; long matched = 0, gskip = 0, gtot = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--mode")) mode = argv[++i];
        else if (!strcmp(argv[i], "--execs")) execs = atol(argv[++i]);
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--time")) tlimit = stop_at < 0 ? atof(argv[++i]) : (i++, 1e9);
        else if (!strcmp(argv[i], "--stop-at")) stop_at = atol(argv[++i]), hang_enough = 1 << 30, tlimit = 1e9;
        else if (!strcmp(argv[i], "--bound")) bound = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--progs")) progs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--cap")) cap = atol(argv[++i]);
        else if (!strcmp(argv[i], "--from")) from = atol(argv[++i]);
        else if (!strcmp(argv[i], "--big")) big = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--ni")) force_ni = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--progress")) progress = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--fibers")) fibers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--max-print")) maxprint = atol(argv[++i]);
        else if (!strcmp(argv[i], "--guide")) gfile = argv[++i];
        else if (!strcmp(argv[i], "--perturb")) perturb = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--quiet")) quiet = 1;
        else { fprintf(stderr, "bad option %s\n", argv[i]); return 64; }
    }
    (void)from; (void)quiet;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    vs_boot();
    double t0 = now();
    long id = 0, bad = 0, smax = 0, exhausted = 0; double ptsum = 0;
    if (!strcmp(mode, "dfs") && !((OBJ.flags & F_TID) && !drv_can_set_tid())) {
        for (int p = 0; p < progs && now() - t0 < tlimit && nhang < hang_enough; p++) {
            uint64_t ps = seed * 1000003ULL + p;
            vs_srand(ps);
            gen_prog(0, 0);
            if (P.T > 2 && bound > 2) bound = 2;
            Prog keep = P; int64_t kv[MAXOPS + 8]; memcpy(kv, val, sizeof kv);
            long warm = 150;
            for (long w = 0; w < warm; w++, id++) {
                pick_strategy(0, 120);
                int rc = run_exec(); bad += note_rc(rc); ptsum += vs_total_points();
                if (id == stop_at) show_prog(id);
                emit(id, rc, id == stop_at);
                if (id == stop_at) { fflush(stdout); return 0; }
            }
            vs_dfs_begin(bound);
            memset(&vs_conf, 0, sizeof vs_conf);
            vs_conf.strategy = VS_DFS; vs_conf.hang_fair = 40000; vs_conf.hang_max = 1500000;
            long n = 0; int more = 1;
            do {
                P = keep; memcpy(val, kv, sizeof kv);
                int rc = run_exec(); bad += note_rc(rc); ptsum += vs_total_points(); n++;
                if (id == stop_at) show_prog(id);
                emit(id, rc, id == stop_at);
                if (id == stop_at) { fflush(stdout); return 0; }
                id++;
                more = vs_dfs_next();
            } while (more && n < cap && now() - t0 < tlimit && nhang < hang_enough);
            if (!more) exhausted++; else vs_dfs_end();
        }
    } else if (!strcmp(mode, "small") && !((OBJ.flags & F_TID) && !drv_can_set_tid())) {
        /* small programs, very many schedules with few preemptions */
        small = 1;
        for (int p = 0; p < progs && now() - t0 < tlimit && nhang < hang_enough; p++) {
            vs_srand(seed * 1000033ULL + p);
            gen_prog(0, 0);
            Prog keep = P; int64_t kv[MAXOPS + 8]; memcpy(kv, val, sizeof kv);
            long len = 100;
            for (long w = 0; w < cap && nhang < hang_enough && ((w & 255) || now() - t0 < tlimit); w++, id++) {
                P = keep; memcpy(val, kv, sizeof kv);
                memset(&vs_conf, 0, sizeof vs_conf);
                vs_conf.strategy = VS_PREEMPT; vs_conf.hang_fair = 40000; vs_conf.hang_max = 1500000;
                vs_conf.npre = w < 60 ? (int)(w & 1) * 8 : 1 + vs_rndn(vs_rndn(3) ? 3 : 6);
                for (int i = 0; i < vs_conf.npre; i++)  /* some far from, some (log-uniformly) close to the one before */
                    vs_conf.pre_at[i] = i && vs_rndn(2) == 0 ? vs_conf.pre_at[i - 1] + 1 + (long)vs_rndn(2 << vs_rndn(7)) : 1 + (long)vs_rndn(len);
                int rc = run_exec(); bad += note_rc(rc); ptsum += vs_total_points();
                if (rc == VS_OK) { if (w < 60) { if (vs_phase_points() > len && vs_phase_points() < 5000) len = vs_phase_points(); } }
                if (id == stop_at) show_prog(id);
                emit(id, rc, id == stop_at);
                if (id == stop_at) { fflush(stdout); return 0; }
            }
        }
    } else if (gfile) {
        static char gl[1 << 16]; char lastp[4096] = "";
        FILE *f = fopen(gfile, "r");
        if (!f) { perror(gfile); return 65; }
        while (fgets(gl, sizeof gl, f) && now() - t0 < tlimit && nhang < hang_enough) {
            vs_srand(seed * 7919ULL + id * 104729ULL);
            if (!guide_parse(gl)) continue;
            /* learn which locations are shared before a new program is guided */
            int same = 0; { char *q = gl; for (int k = 0; *q && k <= P.T; q++) k += *q == ';'; same = !strncmp(gl, lastp, q - gl) && lastp[q - gl] == 0; if (!same && q - gl < (long)sizeof lastp) { memcpy(lastp, gl, q - gl); lastp[q - gl] = 0; } }
            for (int w = same ? 1 : 61; w > -perturb; w--, id++) {
                if (w < 1) { guide_parse(gl); guide_perturb(); }
                if (OBJ.kind == K_SET) { nkeys = P.nargs; for (int i = 1; i <= nkeys; i++) val[i] = i; } else gen_values(P.nargs);
                if (w > 1) pick_strategy(0, 120);
                else { memset(&vs_conf, 0, sizeof vs_conf); vs_conf.strategy = VS_GUIDED; vs_conf.guide = gsteps; vs_conf.nguide = ngsteps; vs_conf.hang_fair = 8000000; vs_conf.hang_max = 12000000; }
                vs_trace = id == stop_at && w <= 1;
                int rc = run_exec(); bad += note_rc(rc); ptsum += vs_total_points();
                if (w == 1) { gskip += vs_guide_skipped(); gtot += ngsteps; if (rc == VS_OK && guide_match()) matched++; else if (quiet) printf("# %ld mismatch (%ld skipped) %s", id, vs_guide_skipped(), gl); exhausted++; }
                if (id == stop_at) show_prog(id);
                emit(id, rc, id == stop_at || (quiet && w == 1));
                if (id == stop_at) { fflush(stdout); return 0; }
            }
        }
        fclose(f);
        printf("# 0 guided behaviours=%ld matched=%ld steps=%ld skipped=%ld\n", exhausted, matched, gtot, gskip);
    } else {
        int size = !strcmp(mode, "long") ? 2 : 1;
        crash = !strcmp(mode, "stop");
        world = !strcmp(mode, "world") || ((OBJ.flags & F_TID) && !drv_can_set_tid());
        memmode = !strcmp(mode, "mem") && !world;
        adv = !strcmp(mode, "adv") && !world;
        int wl = !strcmp(mode, "worldlong");
        if (wl) { world = 1; size = 2; crash = 0; }
        else if (world) { size = 1; crash = 0; }
        long est = 150;
        for (; id < execs && now() - t0 < tlimit && nhang < hang_enough; id++) {
            vs_srand(seed * 7919ULL + id * 104729ULL);
            int lf = wl ? (fibers ? fibers : OBJ.kind == K_LOG ? 2 + (int)vs_rndn(2) : 2) : 0;
            if (wl) force_T = lf * (1 + (int)(vs_rndn(6) > 0));
            gen_prog(size, big);
            if (world) {
                P.fibers = wl ? lf : fibers ? fibers : 1 + vs_rndn(3);
                int g = P.fibers == 1 ? 2 + vs_rndn(3) : P.fibers == 2 ? 1 + (vs_rndn(3) > 0) + (vs_rndn(12) == 0) : 1 + (vs_rndn(12) == 0);
                int nt = wl ? P.T : g * P.fibers;
                if (OBJ.maxthreads && nt > OBJ.maxthreads) { P.fibers = 1; nt = 2; }
                for (int i = P.T; i < nt; i++) { P.nops[i] = 0; gen_op(&P.ops[i][P.nops[i]++], i, 50); }
                P.T = nt; P.nthreads = nt; for (int i = 0; i < nt; i++) P.pid[i] = i;
                P.late = 0; cfg_nth[0] = cfg_nth[1] = nt; cfg_nthreads = nt; cfg_fibers = P.fibers;
                for (int i = 1; i <= P.nargs; i++) own_pid[i] = -1;
                for (int i = 0; i < P.npre; i++) if (P.pre[i].a) own_pid[P.pre[i].a] = 0;
                for (int t = 0; t < nt; t++) for (int i = 0; i < P.nops[t]; i++) if (P.ops[t][i].a) own_pid[P.ops[t][i].a] = t;
                if (OBJ.kind != K_SET) gen_values(P.nargs);
                conc_init = 1 + (P.npre == 0 && vs_rndn(2));
                if (OBJ.kind == K_LOG) P.npre = 0;
                if (vs_nnodes == 1) vs_ncpus = 1 + vs_rndn(8);
            }
            pick_strategy(size, est);
            if (world) { if (vs_conf.strategy == VS_STALL) vs_conf.strategy = VS_RANDOM; vs_conf.hang_fair = 200000; vs_conf.hang_max = 6000000; }
            if (crash) { vs_conf.strategy = VS_STALL; vs_conf.stall_forever = 1; vs_conf.stall_tid = vs_rndn(P.T); vs_conf.stall_at = 1 + vs_rndn(est / P.T > 10 ? est / P.T : 40); P.drain = 0; conc_init = 0;
                vs_conf.stall_n = vs_rndn(3) ? 0 : vs_rndn(P.T - 1);
                for (int q = 0, o = vs_rndn(P.T); q < vs_conf.stall_n; q++, o++) {
                    if (o % P.T == vs_conf.stall_tid) o++;
                    vs_conf.stall_tids[q] = o % P.T; vs_conf.stall_ats[q] = 1 + vs_rndn(est / P.T > 10 ? est / P.T : 40);
                }
            }
            if (memmode) {
                P.npre = 0; P.ni = 1; conc_init = 0;
                if (vs_rndn(2)) { P.T = 1; if (OBJ.flags & F_EXACT) P.nthreads = cfg_nthreads = cfg_nth[0] = 1; }
                if (P.T > 3 && !(OBJ.flags & F_EXACT)) P.T = 3;
                P.nargs = P.T;
                if (OBJ.kind == K_SET) for (int i = 1; i <= P.T; i++) val[i] = i * 7; else gen_values(P.nargs);
                for (int i = 1; i <= P.T; i++) own_pid[i] = P.pid[i - 1];
                vs_conf.strategy = VS_RANDOM; vs_conf.slow = 0; vs_conf.mean = 3 + vs_rndn(40);
                mem_n = vs_rndn(3) ? 2000 : 9000; mem_ops = 0;
                vs_conf.hang_fair = 1L << 40; vs_conf.hang_max = 30000000;
            }
            if (adv) {
                P.npre = 0; P.ni = 1; conc_init = 0; P.nargs = P.T;
                gen_values(P.nargs);
                for (int i = 1; i <= P.T; i++) own_pid[i] = P.pid[i - 1];
                vs_conf.strategy = VS_ADV; vs_conf.mean = 5 + vs_rndn(60);
                vs_conf.adv_victim = adv_victim = vs_rndn(P.T);
                int gaps[] = { 1, 1, 2, 4, 12 };
                vs_conf.adv_gap = gaps[vs_rndn(5)];
                adv_nops = 100 + vs_rndn(vs_rndn(3) ? 500 : 2500);
                vs_conf.hang_fair = 1L << 40; vs_conf.hang_max = 30000000;
            }
            int rc = run_exec();
            bad += note_rc(rc); ptsum += vs_total_points();
            if (rc == VS_OK) est = (est * 15 + vs_total_points()) / 16;
            if (steps_max > smax) smax = steps_max;
            if (id == stop_at) show_prog(id);
            emit(id, rc, id == stop_at);
            if (id == stop_at) { fflush(stdout); return 0; }
        }
    }
    printf("S execs=%ld unique=%ld bad=%ld points=%.0f maxsteps=%ld exhausted=%ld wall=%.2f\n", id, nseen, bad, ptsum, smax, exhausted, now() - t0);
    fflush(stdout);
    return 0;
}
