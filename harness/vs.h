/* Virtual scheduler: runs the real library code, compiled with
 * -fsanitize=thread instrumentation (our own runtime behind the __tsan_* calls),
 * on virtual threads whose interleaving is fully controlled and reproducible. */
#ifndef VS_H
#define VS_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#define VS_MAXT 160

/* violation / end codes of one execution */
enum { VS_OK = 0, VS_HANG = 1, VS_CRASH = 2, VS_OOB = 3, VS_UAF = 4, VS_EXIT = 5, VS_STEPBOUND = 6, VS_ASSERT = 7 };

enum { VS_RANDOM = 0, VS_PCT = 1, VS_STALL = 2, VS_DFS = 3, VS_SEQ = 4, VS_GUIDED = 5, VS_SOLO = 6, VS_ADV = 7, VS_PREEMPT = 8 };

/* life cycle */
void vs_boot(void);                       /* once */
void vs_reset(void);                      /* before each execution: memory, globals, TLS */
int  vs_spawn(void (*fn)(int, void *), void *arg); /* create a virtual thread; returns its id */
int  vs_run(void);                        /* run until every vthread is done; returns an end code */
int  vs_run_seq(void (*fn)(int, void *), void *arg); /* fn alone (set-up / sequential runs) */
void vs_wait_others(void);                /* caller waits for all other vthreads */
extern const char *vs_why;                /* text for a non-OK end code */

/* scheduling control */
typedef struct vs_cfg {
    int strategy;
    uint64_t seed;
    int pct_depth;        /* PCT change points */
    long pct_len;         /* estimated length in points */
    int mean;             /* RANDOM: mean distance of preemptions */
    int bound;            /* DFS preemption bound */
    long hang_fair;       /* points after which scheduling becomes fair */
    long hang_max;        /* points after which the execution is a hang */
    int stall_tid;        /* STALL: thread, */
    long stall_at;        /* its own point count where it stops */
    int adv_victim, adv_gap; /* ADV: the victim takes single steps; between them others complete 1..gap operations */
    int stall_n; int stall_tids[8]; long stall_ats[8]; /* STALL: further threads that stop */
    int npre; long pre_at[8]; /* PREEMPT: a few preemptions at these points (counted from the start of the concurrent phase) */
    int slow;             /* RANDOM: 1 + thread that is preempted at (almost) every point; 0 none */
    int stall_forever;    /* never resumes (crash / solo progress runs) */
    int *guide; int nguide; /* GUIDED: thread | class << 8 of every step */
} vs_cfg;
extern vs_cfg vs_conf;

/* DFS: returns 1 if there is a next schedule */
void vs_dfs_begin(int bound);
int  vs_dfs_next(void);
long vs_dfs_cuts(void);

/* called by code running on vthreads */
int  vs_self(void);                       /* -1 outside */
void vs_point(void);                      /* explicit scheduling point */
void vs_op_boundary(void);                /* an operation is about to be called */
long vs_guide_skipped(void);
long vs_phase_points(void);               /* points since the concurrent phase began */
extern int vs_trace;                      /* print the accesses of guided runs */
void vs_yield(void);                      /* voluntary: prefer another thread */
void vs_adv_tick(void);                   /* an operation of another thread than the victim has completed */
extern long vs_adv_ticks;
void vs_park(void);
void vs_unpark_all(void);
extern int vs_start_order, vs_seq_boot;
extern void (*vs_on_yield)(int);
int vs_is_done(int t);
void vs_dfs_end(void);
void vs_free_choice(void);                /* start of the concurrent phase */
void vs_nosched(int on);                  /* nestable: no preemption while on */
void vs_fail(int code, const char *why);  /* end this execution */
long vs_mypoints(void);                   /* scheduling-relevant accesses by the calling vthread */
long vs_total_points(void);
int  vs_alive(void);                      /* vthreads that have not finished */
int  vs_is_stalled(int tid);

/* memory for driver state shared between vthreads */
void *vs_alloc(size_t n);
size_t vs_live_bytes(void);               /* library allocations not freed */
long vs_live_allocs(void);
extern int vs_page_blocks; /* every block starts on a page of its own, as numa_alloc_local does */
long vs_pages(void);                      /* pages of memory ever touched in this execution */

/* RNG of the harness */
uint64_t vs_rnd(void);
uint64_t vs_rndn(uint64_t n);
void vs_srand(uint64_t s);

/* virtual machine topology, used by the wrapped libnuma / sysconf calls */
extern int vs_ncpus, vs_nnodes, vs_smt, vs_model /* 0 = real */;
extern int vs_last_affinity[VS_MAXT];     /* cpu requested by each vthread, -1 none */
extern long vs_yield_calls;
extern int vs_fibers;                     /* the execution uses the fibers of the library */
extern int vs_tso;                        /* simulate x86 store buffers */
extern int vs_track_pthreads;
int vs_pthreads_created(void);

/* low level access log (conformance replay) */
extern int vs_record_rmw;
extern int vs_rmw_log[4096]; extern int vs_rmw_n;
extern int vs_stuck;
#endif
