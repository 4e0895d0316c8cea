/* placement of threads on the cores of machines of every shape */
#include "../case.h"
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
#include <numa.h>
static int pol, order[600], np;
static int plan(void) {
    int per;
    vs_nnodes = 1 + RN(8);
    if (RN(2)) vs_nnodes = 1 << RN(4);
    per = 1 + RN(case_size == 2 ? 32 : 8);
    vs_smt = RN(2);
    if (vs_smt) per = per < 2 ? 2 : per & ~1;
#ifndef SYNCH_NUMA_SUPPORT
    vs_nnodes = 1; vs_smt = 0;          /* all that a build without it can know */
#endif
    vs_ncpus = vs_nnodes * per;
    pol = RN(8);
    np = 0;
    return 1;
}
static void thread(int t) {
    int i, n = vs_ncpus;
    uint32_t p = pol == 7 ? 0x7fffffff : pol;
    ev('m', vs_nnodes, vs_smt, vs_ncpus, 1, (int)synchGetNCores());
    if (pol) { synchSetThreadPlacementPolicy(p); ev('p', 0, 0, (int)p, 1, (int)synchGetThreadPlacementPolicy()); }
    else ev('p', 0, 0, 0, 1, (int)synchGetThreadPlacementPolicy());
    for (i = 0; i < n; i++) {
        uint32_t c = synchPreferredCoreOfThread(i), d = synchPreferredNumaNodeOfThread(i);
        int r = synchThreadPin(i);
        ev('c', 0, i, (int)c, 6, (int)d, numa_node_of_cpu(c), (int)synchGetPreferredCore(), (int)synchGetPreferredNumaNode(), vs_last_affinity[vs_self()], r);
    }
    for (i = 0; i < 6; i++) {
        int q = RN(4) ? n + RN(3 * n) : 4096 + RN(100000);
        uint32_t c = synchPreferredCoreOfThread(q), d = synchPreferredNumaNodeOfThread(q);
        ev('d', 0, q, (int)c, 2, (int)d, numa_node_of_cpu(c));
    }
}
case_def CASE = { "place", plan, NULL, thread, NULL, C_SEQ };
