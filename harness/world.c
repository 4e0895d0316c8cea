/* the library's own thread runtime, used by the drivers' world mode */
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
void drv_start(int n, void *(*f)(void *), int fibers) { synchStartThreadsN(n, f, fibers > 1 ? fibers : SYNCH_DONT_USE_UTHREADS); }
void drv_join(int n) { synchJoinThreadsN(n); }
void drv_resched(void) { synchResched(); }
/* stand-alone mode has no library threads: give the virtual thread its id directly, if the library lets us */
extern void setThreadId(int32_t id) __attribute__((weak));
int drv_can_set_tid(void) { return setThreadId != 0; }
void drv_set_tid(int pid) { if (setThreadId && synchGetThreadId() != pid) setThreadId(pid); }
