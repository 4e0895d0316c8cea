#ifndef DRV_H
#define DRV_H
#include "vs.h"
#include <limits.h>
enum { K_QUEUE, K_STACK, K_LOG, K_SET, K_LOCK };
#define R_EMPTY   (-1)
#define R_PENDING (-2)
#define R_GARBAGE 999
#define DRV_EMPTY (LONG_MIN + 1)             /* the documented "empty" return value */
typedef struct drv_obj {
    const char *name;
    int kind;
    void (*init)(int I, int nthreads);              /* shared structure, sequential */
    void (*tinit)(int I, int pid);                  /* called by the thread itself */
    int64_t (*op)(int I, int pid, int op, int64_t a, int64_t b);
    int maxthreads;
    int flags;
    int cells;                               /* hash tables */
    int maxprog;
} drv_obj;
#define F_TID         1     /* uses the thread id of the library runtime */
#define F_NO_MINUS1   2
#define F_EXACT       4     /* nthreads = number of active threads, ids 0..T-1 */
#define F_TOPO        8     /* vary the machine topology */
#define F_LOG_OLD     16    /* LOG whose result is the whole previous state */
#define F_REG         32    /* ... which is a register modulo 3 */
extern drv_obj OBJ;
/* configuration chosen for the current execution */
extern int cfg_nth[];                     /* threads that instance I is set up for */
extern int cfg_nthreads, cfg_fibers, cfg_numa, cfg_pin, cfg_backoff;
/* the shared sequential object of K_LOG drivers */
typedef struct { int64_t len; int64_t e[180]; } drv_log;
#define NI 2                              /* instances of the object, used by the same threads */
extern drv_log *LOGST[NI];
int64_t drv_log_apply(drv_log *l, int64_t arg, int pid);
int64_t drv_old_apply(int64_t state, int64_t arg, int pid, int check_pid);
/* lock drivers */
void drv_cs_enter(int I, int pid);
void drv_cs_exit(int I, int pid);
/* library runtime (world mode), in world.c */
void drv_start(int n, void *(*f)(void *), int fibers);
void drv_join(int n);
void drv_resched(void);
int drv_can_set_tid(void);
void drv_set_tid(int pid);
#endif
