#include "case.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#define MAXW 60000
static int w[MAXW]; static int nw, nevs;
static int evpos[8000];
static int NTH, finished;
int case_size;

int ev_count(void) { return nevs; }
void evl(int ty, int t, int op, int a, int n, const int *l) {
    if (nw + n + 6 > MAXW || nevs >= 8000) vs_fail(VS_ASSERT, "history too long");
    evpos[nevs++] = nw;
    w[nw++] = ty; w[nw++] = t; w[nw++] = op; w[nw++] = a; w[nw++] = n;
    for (int i = 0; i < n; i++) w[nw++] = l[i];
}
void ev(int ty, int t, int op, int a, int n, ...) {
    int l[32];
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < n && i < 32; i++) l[i] = va_arg(ap, int);
    va_end(ap);
    evl(ty, t, op, a, n, l);
}
void case_fail(const char *why) { vs_fail(VS_ASSERT, why); }

static void body(int vt, void *arg) {
    (void)vt;
    int t = (int)(intptr_t)arg;
    CASE.thread(t);
    finished++;
    if (t == 0) { vs_wait_others(); if (CASE.fini) CASE.fini(); }
}
static void init_(int vt, void *arg) { (void)vt; (void)arg; if (CASE.init) CASE.init(); }

static uint64_t *seen; static long seencap, nseen;
static int unseen(uint64_t h) {
    if (!seen) { seencap = 1 << 22; seen = calloc(seencap, 8); }
    if (!h) h = 1;
    long k = h & (seencap - 1);
    while (seen[k]) { if (seen[k] == h) return 0; k = (k + 1) & (seencap - 1); }
    if (nseen * 2 < seencap) { seen[k] = h; nseen++; }
    return 1;
}
static void emit(long id, int rc, int always) {
    uint64_t h = 1469598103934665603ULL;
    for (int i = 0; i < nw; i++) h = (h ^ (uint32_t)w[i]) * 1099511628211ULL;
    h ^= h >> 29;
    if (rc != VS_OK) h ^= 0x5555;
    if (!unseen(h) && !always) return;
    if (!nevs && rc == VS_OK) return;
    printf("H %ld:0 %d ", id, NTH);
    for (int i = 0; i < nevs; i++) {
        int *p = w + evpos[i];
        printf("%s%c,%d,%d,%d", i ? ";" : "", p[0], p[1], p[2], p[3]);
        for (int k = 0; k < p[4]; k++) printf(",%d", p[5 + k]);
    }
    if (rc != VS_OK) printf("%sx,0,%d,0", nevs ? ";" : "", rc);
    printf("\n");
    if (rc != VS_OK) printf("# %ld %s\n", id, vs_why);
}
static int threads_left;
static int run_exec(void) {
    vs_reset();
    nw = nevs = finished = 0;
    vs_fibers = (CASE.flags & C_FIBERS) != 0;
    int rc = vs_run_seq(init_, NULL);
    if (rc == VS_OK) {
        for (int i = 0; i < NTH; i++) vs_spawn(body, (void *)(intptr_t)i);
        vs_seq_boot = 0;
        rc = vs_run();
    }
    if (rc == VS_OK && finished < NTH) { rc = VS_HANG; vs_why = "a thread never ran to its end"; }
    (void)threads_left;
    return rc;
}
static void pick_strategy(long est) {
    memset(&vs_conf, 0, sizeof vs_conf);
    int r = vs_rndn(100), means[] = { 2, 4, 10, 30, 100 };
    vs_conf.mean = means[vs_rndn(5)];
    if (r < 40) vs_conf.strategy = VS_RANDOM;
    else if (r < 70) { vs_conf.strategy = VS_PCT; vs_conf.pct_depth = 1 + vs_rndn(4); vs_conf.pct_len = est > 20 ? est : 200; }
    else if (CASE.flags & C_FIBERS) { vs_conf.strategy = VS_RANDOM; }
    else { vs_conf.strategy = VS_STALL; vs_conf.stall_tid = vs_rndn(NTH); vs_conf.stall_at = 1 + vs_rndn(est / NTH > 10 ? est / NTH : 40); vs_conf.pct_len = 5 + vs_rndn(est > 20 ? est : 200); }
    vs_conf.hang_fair = 60000; vs_conf.hang_max = 2000000;
    if (CASE.flags & C_FIBERS) { vs_conf.hang_fair = 300000; vs_conf.hang_max = 8000000; }
    if (CASE.flags & C_LONG) { vs_conf.hang_fair = 1L << 40; vs_conf.hang_max = 1L << 41; }
}
static int nhang, hang_enough = 6;
static double now(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
int main(int argc, char **argv) {
    long execs = 1000, stop_at = -1, cap = 20000; uint64_t seed = 1; int bound = 2, progs = 5; double tlimit = 1e9;
    const char *mode = "rand";
    case_size = 1;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--mode")) mode = argv[++i];
        else if (!strcmp(argv[i], "--execs")) execs = atol(argv[++i]);
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--time")) tlimit = stop_at < 0 ? atof(argv[++i]) : (i++, 1e9);
        else if (!strcmp(argv[i], "--stop-at")) stop_at = atol(argv[++i]), hang_enough = 1 << 30, tlimit = 1e9;
        else if (!strcmp(argv[i], "--bound")) bound = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--progs")) progs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--cap")) cap = atol(argv[++i]);
        else if (!strcmp(argv[i], "--size")) case_size = atoi(argv[++i]);
        else { fprintf(stderr, "bad option %s\n", argv[i]); return 64; }
    }
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    vs_boot();
    double t0 = now(), pts = 0;
    long id = 0, exhausted = 0, est = 150;
    vs_ncpus = 8; vs_nnodes = 1; vs_smt = 0; vs_model = 0;
    if (!strcmp(mode, "dfs") && !(CASE.flags & (C_NODFS | C_SEQ))) {
        case_size = 0;
        for (int p = 0; p < progs && now() - t0 < tlimit && nhang < hang_enough; p++) {
            uint64_t ps = seed * 1000003ULL + p;
            for (int k = 0; k < 100; k++, id++) {
                vs_srand(ps); NTH = CASE.plan(); vs_srand(ps * 31 + k); pick_strategy(120);
                int rc = run_exec(); if (rc == VS_HANG) { nhang += vs_stuck ? 3 : 1; vs_stuck = 0; } pts += vs_total_points();
                emit(id, rc, id == stop_at);
                if (id == stop_at) { fflush(stdout); return 0; }
            }
            vs_dfs_begin(bound);
            long n = 0; int more = 1;
            do {
                vs_srand(ps); NTH = CASE.plan();
                memset(&vs_conf, 0, sizeof vs_conf);
                vs_conf.strategy = VS_DFS; vs_conf.hang_fair = 40000; vs_conf.hang_max = 1500000;
                int rc = run_exec(); if (rc == VS_HANG) { nhang += vs_stuck ? 3 : 1; vs_stuck = 0; } pts += vs_total_points(); n++;
                emit(id, rc, id == stop_at);
                if (id == stop_at) { fflush(stdout); return 0; }
                id++;
                more = vs_dfs_next();
            } while (more && n < cap && now() - t0 < tlimit && nhang < hang_enough);
            if (!more) exhausted++; else vs_dfs_end();
        }
    } else if (strcmp(mode, "dfs")) {
        for (; id < execs && now() - t0 < tlimit && nhang < hang_enough; id++) {
            vs_srand(seed * 7919ULL + id * 104729ULL);
            NTH = CASE.plan();
            pick_strategy(est);
            int rc = run_exec(); if (rc == VS_HANG) { nhang += vs_stuck ? 3 : 1; vs_stuck = 0; } pts += vs_total_points();
            if (rc == VS_OK) est = (est * 15 + vs_total_points()) / 16;
            emit(id, rc, id == stop_at);
            if (id == stop_at) { fflush(stdout); return 0; }
        }
    }
    printf("S execs=%ld unique=%ld bad=0 points=%.0f exhausted=%ld wall=%.2f\n", id, nseen, pts, exhausted, now() - t0);
    fflush(stdout);
    return 0;
}
