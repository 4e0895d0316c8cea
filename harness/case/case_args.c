/* the command line of the benchmarks */
#include "../case.h"
#include <string.h>
#include <stdio.h>
#include <getopt.h>
#include <config.h>
#include <primitives.h>
#include <bench_args.h>
#include <hsynch.h>
#include <threadtools.h>
static int nopt, o[12], form[12]; static long v[12];
static const char *longs[] = { "threads", "fibers", "runs", "max_work", "backoff_high", "backoff_low", "numa_nodes", "backoff" };
static const char shorts[] = "tfrwbln";
static long value(int k) {
    switch (k) {
    case 0: return 1 + RN(RN(2) ? 8 : 200);
    case 1: return RN(3) ? 1 + RN(40) : 1;
    case 2: return RN(4) ? RN(2000) : RN(2) ? 1000000 + RN(100000000) : (long)(vs_rnd() >> (18 + RN(24)));
    case 4: case 5: return RN(2) ? RN(100) : RN(65536);
    case 6: return RN(10);
    }
    return RN(3) ? RN(1000) : RN(2) ? RN(1000000) : RN(INT_MAX);
}
static int plan(void) {
    nopt = RN(4) ? RN(8) : RN(3);
    for (int i = 0; i < nopt; i++) { o[i] = RN(7); v[i] = value(o[i]); form[i] = RN(4); if (o[i] == 4 && form[i] > 1 && RN(2)) form[i] += 2; }
    vs_ncpus = 1 + RN(64);
    return 1;
}
static void thread(int t) {
    static char text[12][2][40]; static char *argv[30];
    SynchBenchArgs a;
    int argc = 0;
    argv[argc++] = "bench";
    for (int i = 0; i < nopt; i++) {
        const char *l = longs[form[i] > 3 ? 7 : o[i]];
        char *x = text[i][0], *y = text[i][1];
        int two = !(form[i] & 1);
        if (form[i] < 2) snprintf(x, 40, two ? "-%c" : "-%c%ld", shorts[o[i]], v[i]);
        else snprintf(x, 40, two ? "--%s" : "--%s=%ld", l, v[i]);
        argv[argc++] = x;
        if (two) { snprintf(y, 40, "%ld", v[i]); argv[argc++] = y; }
        ev('o', form[i], o[i], o[i] == 2 ? (int)(v[i] & 65535) : (int)v[i], 1, o[i] == 2 ? (int)(v[i] >> 16) : 0);
    }
    argv[argc] = NULL;
    memset(&a, 0xa5, sizeof a);
    optind = 0; optarg = NULL;
    synchParseArguments(&a, argc, argv);
    ev('d', vs_ncpus, SYNCH_RUNS & 65535, SYNCH_MAX_WORK, 3, SYNCH_DONT_USE_UTHREADS, HSYNCH_DEFAULT_NUMA_POLICY, SYNCH_RUNS >> 16);
    ev('r', 0, 0, 0, 10, (int)a.nthreads, (int)a.fibers_per_thread, (int)(a.total_runs & 65535), (int)a.max_work, (int)a.backoff_high, (int)a.backoff_low, (int)a.numa_nodes,
       (int)(a.total_runs >> 16), (int)(a.runs & 65535), (int)(a.runs >> 16));
}
case_def CASE = { "args", plan, NULL, thread, NULL, C_NODFS };
