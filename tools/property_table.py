SCH = ['schedules', 'programs', 'configurations']
QT = 'every program of operations by any number of threads, every interleaving of their memory accesses, every admissible value, every number of threads'
WT = 'the tests only run one workload per object (equal numbers of operations, small positive values) under the schedules the kernel happens to produce, and compare operation counts'

prop('P01', 'Queue-based combining executes every request exactly once and atomically',
     'For the three queue-based combining techniques (centralised, distributed-memory and hierarchical), every request that a thread submits is applied to the shared sequential object exactly once, with the argument that was submitted and on behalf of the thread that submitted it, between the call and its return. Requests are applied one at a time, each on the state left by the previous one, so that the history is linearizable, and each caller gets the result of its own request. Every submitted request returns as long as threads keep being scheduled, whatever the machine topology or the number of threads per cluster.',
     SCH, QT + ', and for the hierarchical technique every machine topology and cluster size',
     WT, [C + 'ccsynch.c', C + 'dsmsynch.c', C + 'hsynch.c', H + 'ccsynch.h', H + 'dsmsynch.h', H + 'hsynch.h'],
     [('Tail', 'last announced request node', 'ccsynch.h, dsmsynch.h, hsynch.h'), ('locked / completed', 'hand-shake of a request', 'node structs')],
     [('swap on the tail, completed written before locked', 'ccsynch.c:CCSynchApplyOp'), ('compare-and-swap on exit', 'dsmsynch.c:DSMSynchApplyOp'), ('central lock between clusters', 'hsynch.c:HSynchApplyOp')],
     ['CCSynchApplyOp', 'DSMSynchApplyOp', 'HSynchApplyOp'])

prop('P02', 'Combining among cooperative fibers executes every request exactly once',
     'With the combining technique for user-level fibers, every request is applied exactly once and atomically to the shared object, with the submitted argument and for the fiber that submitted it, and its caller gets the result of its own request. This holds for any number of kernel threads and any number of fibers per thread, and for fibers of one thread that take turns at any point where they yield. Every request returns as long as threads keep being scheduled.',
     SCH, QT + ', and every number of fibers per thread', WT,
     [C + 'osci.c', H + 'osci.h', P + 'uthreads.c'],
     [('Tail', 'the last group of announced requests', 'osci.h'), ('rec[]', 'requests of the fibers of one thread', 'osci.h')],
     [('group node filled by the fibers of one thread', 'osci.c:OsciApplyOp'), ('door of the group', 'osci.c')], ['OsciApplyOp'])

prop('P03', 'Flat combining and Oyama execute every request exactly once and atomically',
     'With the publication-list and the announcement-stack techniques, every submitted request is applied exactly once to the shared sequential object, in isolation, with the submitted argument and for the thread that submitted it. The caller gets the result of its own request, the history of calls and returns is linearizable, and every request returns as long as threads keep being scheduled.',
     SCH, QT, WT, [C + 'fc.c', C + 'oyama.c', H + 'fc.h', H + 'oyama.h'],
     [('head', 'publication list', 'fc.h'), ('lock', 'who is combining', 'fc.h, oyama.h'), ('tail', 'announced requests', 'oyama.h')],
     [('publication of a record, combining under the lock', 'fc.c:FCApplyOp'), ('announcements are applied by the owner of the lock before it gives it up', 'oyama.c:OyamaApplyOp')],
     ['FCApplyOp', 'OyamaApplyOp'])

prop('P04', 'Universal constructions behave as the atomic sequential object',
     'An object built with the wait-free universal construction or with the simple lock-free one behaves as if each operation were applied atomically, exactly once, to the latest state between its call and its return, with the argument and thread that submitted it. Each caller gets the result that its own operation computed from the state that precedes it. This holds for every number of threads and every assignment of thread ids, also while other threads are suspended at arbitrary points.',
     SCH + ['crash_points'], QT + ', and every point at which other threads are suspended', WT, [C + 'sim.c', H + 'sim.h', H + 'tvec.h', C + 'lfuobject.c', H + 'lfuobject.h'],
     [('sp', 'pointer (with stamp) to the current state record', 'sim.h'), ('a_toggles', 'announcement bits of the threads', 'sim.h'), ('applied', 'bits whose requests are in the state', 'sim.h')],
     [('copy of the state, validation, compare-and-swap of the stamped index', 'sim.c:SimApplyOp'), ('compare-and-swap of the whole state', 'lfuobject.c')],
     ['SimApplyOp', 'LFUObjectApplyOp'])

QS = 'Every history of concurrent {ops} is linearizable to one {obj}: {rule}. An operation on an empty {noun} answers with the documented empty value and never invents, loses or duplicates a value. All representable values other than the documented reserved ones are carried unchanged, every operation returns as long as threads keep being scheduled, and only memory that belongs to the {noun} is touched.'


def q(obj, **kw):
    return QS.format(ops='enqueue and dequeue operations', obj=obj, rule='values leave in the order in which they entered', noun='queue', **kw)


def st(obj, **kw):
    return QS.format(ops='push and pop operations', obj=obj, rule='a pop takes the most recently pushed value that is still there', noun='stack', **kw)


prop('P05', 'Combining-based queues are linearizable FIFO queues',
     q('FIFO queue, for each of the five queues built on combining (two-lock queues over three queue-based techniques, over flat combining, and over fiber combining)'),
     SCH, QT, WT, [C + x + '.c' for x in ('ccqueue', 'dsmqueue', 'hqueue', 'fcqueue', 'osciqueue')] + [P + 'pool.c'],
     [('first / last', 'ends of the list of nodes, with a guard node', '*queue.h'), ('pool_node', 'recycled nodes', '*queue.c')],
     [('serial enqueue and serial dequeue under two combining instances', '*queue.c')], ['CCQueueApplyEnqueue', 'CCQueueApplyDequeue', '...'])
prop('P06', 'The wait-free queue is a linearizable FIFO queue', q('FIFO queue'), SCH + ['crash_points'], QT + ', and every point at which other threads are suspended', WT,
     [C + 'simqueue.c', H + 'simqueue.h', H + 'tvec.h'],
     [('enq_sp / deq_sp', 'stamped index of the current enqueue / dequeue state', 'simqueue.h'), ('link_a / link_b', 'batch of nodes to be linked', 'simqueue.h:EnqState')],
     [('batches of enqueues are linked by every later operation', 'simqueue.c:SimQueueEnqLinkQueue'), ('validated copy and stamped compare-and-swap', 'simqueue.c')],
     ['SimQueueEnqueue', 'SimQueueDequeue'])
prop('P07', 'The ring-based queue is a linearizable FIFO queue',
     q('FIFO queue') + '', SCH + ['crash_points'], QT + ', every ring size, and every point at which other threads are suspended',
     WT, [C + 'lcrq.c', H + 'lcrq.h'],
     [('head / tail', 'tickets of a ring, with the closed bit', 'lcrq.h:RingQueue'), ('array', 'cells (value, index, safe bit)', 'lcrq.h')],
     [('double-word compare-and-swap of a cell', 'lcrq.c'), ('a full ring is closed and a new one linked', 'lcrq.c:LCRQEnqueue')], ['LCRQEnqueue', 'LCRQDequeue'])
prop('P08', 'The Michael-Scott queue is a linearizable FIFO queue', q('FIFO queue'), SCH + ['crash_points'],
     QT + ', and every point at which other threads are suspended', WT + '; no test exercises this queue at all', [C + 'msqueue.c', H + 'msqueue.h'],
     [('head, tail', 'guard node and last node', 'msqueue.h')], [('link by compare-and-swap, swing of a lagging tail', 'msqueue.c')], ['MSQueueEnqueue', 'MSQueueDequeue'])
prop('P09', 'Combining-based stacks are linearizable LIFO stacks',
     st('LIFO stack, for each of the five stacks built on combining (over three queue-based techniques, over flat combining, and over fiber combining)'),
     SCH, QT, WT, [C + x + '.c' for x in ('ccstack', 'dsmstack', 'hstack', 'fcstack', 'oscistack')] + [P + 'pool.c'],
     [('head', 'top of the list of nodes', '*stack.h'), ('pool_node', 'recycled nodes', '*stack.c')], [('serial push / pop under one combining instance', '*stack.c')],
     ['CCStackPush', 'CCStackPop', '...'])
prop('P10', 'The wait-free stack is a linearizable LIFO stack', st('LIFO stack'), SCH + ['crash_points'],
     QT + ', and every point at which other threads are suspended', WT, [C + 'simstack.c', H + 'simstack.h', H + 'tvec.h'],
     [('sp', 'stamped index of the current state', 'simstack.h'), ('head', 'top of the list of nodes', 'simstack.h')],
     [('pushes and pops of announced requests are applied to a copy of the state', 'simstack.c')], ['SimStackPush', 'SimStackPop'])
prop('P11', 'The lock-free stack is a linearizable LIFO stack', st('LIFO stack'), SCH + ['crash_points'],
     QT + ', and every point at which other threads are suspended', WT + '; no test exercises this stack at all', [C + 'lfstack.c', H + 'lfstack.h'],
     [('top', 'top of the list of nodes', 'lfstack.h')], [('compare-and-swap of the top', 'lfstack.c')], ['LFStackPush', 'LFStackPop'])
prop('P12', 'Queue locks admit one thread at a time and always hand over',
     'Between the return of an acquire operation and the call of the matching release, no other thread returns from acquire on the same lock, for both queue locks. Writes made inside one critical section are seen in the next, a lock that is released is granted to a waiting thread, and every acquire returns as long as holders release and threads keep being scheduled.',
     SCH, 'every number of threads, every sequence of acquisitions of one or several locks, every interleaving', WT,
     [C + 'clh.c', C + 'mcs.c', H + 'clh.h', H + 'mcs.h'], [('Tail', 'last waiter', 'clh.h, mcs.h'), ('locked', 'flag on which the successor spins', 'clh.h, mcs.h')],
     [('swap on the tail, hand-over to the successor', 'clh.c, mcs.c')], ['CLHLock', 'CLHUnlock', 'MCSLock', 'MCSUnlock'])
prop('P13', 'Queue locks are first-come first-served',
     'A thread that starts to acquire a queue lock after another thread has been seen waiting for it does not enter its critical section before that other thread. This holds for both queue locks, for every number of threads and for locks that are acquired again and again.',
     SCH, 'every number of threads, every sequence of acquisitions, every interleaving', WT,
     [C + 'clh.c', C + 'mcs.c', H + 'clh.h', H + 'mcs.h'], [('Tail', 'last waiter', 'clh.h, mcs.h')], [('one swap on the tail fixes the place in the queue', 'clh.c, mcs.c')],
     ['CLHLock', 'MCSLock'])
prop('P14', 'Hash tables are linearizable sets of keys',
     'Every history of concurrent insert, delete and search operations on either hash table is linearizable to one set of keys: search reports exactly whether the key is present, also for keys that fall into the same cell, for negative keys and for keys that are inserted twice or deleted while absent. Operations on one key never affect another key, every operation returns as long as threads keep being scheduled, and only memory that belongs to the table is touched.',
     SCH + ['inputs'], 'every program of operations, every interleaving, every key and every number of cells', WT,
     [C + 'clhhash.c', C + 'dsmhash.c', H + 'clhhash.h', H + 'dsmhash.h'], [('cell[]', 'list of the keys of a cell and its lock', 'clhhash.h, dsmhash.h')],
     [('serial list operations under the lock of the cell', 'clhhash.c, dsmhash.c')], ['CLHHashInsert', 'CLHHashDelete', 'CLHHashSearch', 'DSMHash...'])

CASE = 'TLA+ trace specification (TLC) judges recorded event sequences of the real code run under a controlled scheduler'
CASENOTE = ('Every recorded event sequence of the real code is checked by TLC against the TLA+ specification of this component; configurations, programs and '
            'schedules are drawn from the seed (plus preemption-bounded exhaustive schedules of small programs where threads interleave). Sequential '
            'consistency of instrumented accesses is assumed; coverage is bounded by the number of generated cases.')


def case(*a, **k):
    prop(*a, technique=CASE, note=CASENOTE, **k)


case('P15', 'Barriers hold every thread back until all have arrived',
     'No thread goes on from its k-th wait on a barrier before all the threads for which the barrier was set up have called their k-th wait, for every number of threads and for any number of rounds on the same barrier, also when a fast thread enters the next round while slow ones are still leaving the last, and when several barriers are used side by side. Once all have arrived, every one of them goes on as long as threads keep being scheduled. When threads leave a barrier for good instead, the operation for the last one returns only after every other thread has left, and from then on the barrier is touched by nobody. A barrier that is set up again serves the new number of threads.',
     SCH, 'every number of threads and rounds, every interleaving', 'the tests pass through a barrier once or twice per run, under the schedules that happen',
     [P + 'barrier.c', H + 'barrier.h'], [('arrive / leave', 'threads that have come and gone', 'barrier.h')], [('two-phase re-entrant barrier', 'barrier.c:synchBarrierWait'), ('farewell of the threads', 'barrier.c:synchBarrierLastLeave')],
     ['synchBarrierSet', 'synchBarrierWait', 'synchBarrierLeave', 'synchBarrierLastLeave'])
case('P16', 'The thread runtime runs every thread id once and keeps identities',
     'Starting n threads (with f fibers in each kernel thread, n a multiple of f) runs the given function exactly once for every id from 0 to n-1 with its own id as argument. During its whole run the function sees the same own id, the ids of one kernel thread are consecutive and share one kernel-thread id, and different kernel threads have different kernel-thread ids. The core that the library believes a kernel thread runs on is an existing one and is the one it asked the system for. Joining returns only after every one of the functions has ended, and threads can be started and joined again. The runtime reports oversubscription exactly when there are more threads than cores or several fibers share a kernel thread.',
     SCH, 'every number of threads and fibers, every number of cores, every interleaving, repeated starts', 'the tests start threads once per process and never look at identities',
     [P + 'threadtools.c', P + 'uthreads.c', H + 'threadtools.h'], [('__thread_id etc.', 'thread-local identity', 'threadtools.c')], [('start of kernel threads and of the fibers inside them', 'threadtools.c:synchStartThreadsN'), ('join through a barrier', 'threadtools.c:synchJoinThreadsN')],
     ['synchStartThreadsN', 'synchJoinThreadsN', 'synchGetThreadId', 'synchGetPosixThreadId', 'synchGetPreferredCore', 'synchIsSystemOversubscribed'])
case('P17', 'Fibers are cooperative, fair and isolated',
     'Within a kernel thread exactly one fiber runs at a time, and control moves only when a fiber yields, waits or ends. A fiber that yields is not resumed before every other fiber that was active has had a turn, so every active fiber keeps getting turns. Each fiber keeps its own stack, registers, variables and index across yields, whatever the others do, and runs its function exactly once with its own argument. Creating a fiber succeeds exactly when fewer than the agreed maximum are active, and a place is free again when a fiber has ended. Waiting for all fibers returns when every other fiber has ended, and memory use does not grow with the number of fibers that have ended.',
     ['schedules', 'programs', 'inputs'], 'every program of spawning, yielding, ending and waiting, every maximum, several kernel threads', 'the tests only use fibers through the combining objects',
     [P + 'uthreads.c', H + 'uthreads.h'], [('FIBER_LIST', 'fibers of a kernel thread', 'uthreads.c'), ('N_FIBERS', 'active fibers', 'uthreads.c')], [('switching of contexts', 'uthreads.c:switch_to_fiber'), ('release of ended fibers', 'uthreads.c')],
     ['synchInitFibers', 'synchSpawnFiber', 'synchFiberYield', 'synchWaitForAllFibers', 'synchCurrentFiberIndex'])
case('P18', 'The object pool hands out disjoint objects and reuses memory',
     'An object that a pool hands out has the full requested size and overlaps no other object in use, of the same or of another pool, until it is recycled or its allocation is cancelled. Recycled objects and cancelled allocations are handed out again before more memory is taken from the system. Cancelling m allocations gives back exactly the m most recent ones. A pool refuses sizes that it cannot serve, and destroying a pool gives all of its memory back to the system.',
     ['programs', 'inputs'], 'every sequence of allocating, recycling, cancelling and destroying, every object size', 'the tests have no checks of the pool; objects use it with one small size',
     [P + 'pool.c', H + 'pool.h'], [('cur_block / recycle_list', 'block in use, recycled objects', 'pool.h')], [('allocation, recycling and cancelling', 'pool.c')],
     ['synchInitPool', 'synchAllocObj', 'synchRecycleObj', 'synchRollback', 'synchDestroyPool'])
case('P26', 'Toggle vectors behave as sets of thread ids',
     'A toggle vector for n threads behaves as a subset of 0..n-1: setting and reversing a bit, clearing, copying, counting, and the union, intersection and symmetric difference of vectors change exactly the bits they should, for every n, and operations restricted to one bank change exactly the bits of that bank. Enumerating a vector by searching the first set bit of its words visits every member exactly once. A thread that announces itself by atomically adding its signed bit to the shared vector flips its own bit and no other, whatever the interleaving with other threads.',
     SCH + ['inputs'], 'every number of threads, every bit, every sequence of operations, every interleaving of announcements', 'the tests use vectors of one word for all practical purposes and only through the universal constructions',
     [H + 'tvec.h', H + 'primitives.h'], [('cell[]', 'words of a vector', 'tvec.h:ToggleVector')], [('operations word by word', 'tvec.h'), ('announcement by fetch-and-add', 'tvec.h:TVEC_ATOMIC_ADD_BANK')],
     ['TVEC_SET_BIT', 'TVEC_REVERSE_BIT', 'TVEC_OR', 'TVEC_AND', 'TVEC_XOR', 'TVEC_COUNT_BITS', 'TVEC_ATOMIC_ADD_BANK', 'synchBitSearchFirst'])

ADVT = 'the tests measure nothing of the kind, and an unfair schedule that exposes it hardly ever happens by itself'
prop('P19', 'Operations of the wait-free objects end within bounded own steps',
     'An operation on the wait-free universal construction, the wait-free queue or the wait-free stack returns after a number of its own steps that is bounded by a function of the number of threads only (linear in it), however fast, however often and in whatever order the other threads run meanwhile, and even if all of them stop. In particular a thread that is much slower than the others and loses every race still returns, because the others serve its request.',
     SCH + ['crash_points'], QT + ', and every ratio of speeds', ADVT, [C + 'sim.c', C + 'simqueue.c', C + 'simstack.c'],
     [('a_toggles', 'announced requests', 'sim.h, simqueue.h, simstack.h')], [('two attempts suffice because every announced request is served by a successful attempt', 'sim.c:SimApplyOp, simqueue.c, simstack.c')],
     ['SimApplyOp', 'SimQueueEnqueue', 'SimQueueDequeue', 'SimStackPush', 'SimStackPop'])
prop('P20', 'Stopped threads never block operations of the non-blocking objects',
     'When any set of threads stops for ever at any points inside their operations on a wait-free or lock-free object (universal constructions, wait-free queue and stack, ring-based queue, the two lock-free lists), the operations of the threads that go on still return, with linearizable results, and a request of a stopped thread takes effect at most once. While threads run, some operation completes within a bounded number of steps of the system as a whole.',
     SCH + ['crash_points'], QT + ', every set of threads that stop and every point at which they do', ADVT,
     [C + x + '.c' for x in ('sim', 'lfuobject', 'simqueue', 'simstack', 'lcrq', 'msqueue', 'lfstack')],
     [('shared pointers', 'changed by compare-and-swap only', '*.c')], [('helping of unfinished operations (lagging tail, unlinked batch, closed ring)', 'msqueue.c, simqueue.c, lcrq.c')],
     ['SimApplyOp', 'LFUObjectApplyOp', 'SimQueueEnqueue', 'SimStackPush', 'LCRQEnqueue', 'LCRQDequeue', 'MSQueueEnqueue', 'LFStackPush'])
prop('P21', 'A combining thread serves a bounded number of requests per operation',
     'With every combining technique, the thread that serves requests for others does so within one of its own operations only for a bounded number of requests, proportional to the number of threads the object was set up for (at most eleven requests per thread), and then hands the duty over, even if new requests keep coming from the other threads.',
     SCH, QT + ', and every ratio of speeds', ADVT, [C + x + '.c' for x in ('ccsynch', 'dsmsynch', 'hsynch', 'fc', 'oyama', 'osci')],
     [('counter of the combiner', 'requests served so far', '*.c')], [('help bound, handing over of the duty', 'ccsynch.c, dsmsynch.c, hsynch.c, osci.c, fc.c, oyama.c')],
     ['CCSynchApplyOp', 'DSMSynchApplyOp', 'HSynchApplyOp', 'OsciApplyOp', 'FCApplyOp', 'OyamaApplyOp'])
prop('P22', 'Instances of an object are independent of each other',
     'Several objects of one type can be used side by side, also by the same threads, when set up for different numbers of threads, when one of them is set up after operations on the other have taken place, and on every machine topology. The operations on each of them behave as if it were alone: each instance has its own contents, and threads that use one instance in any way never change, delay for ever or damage another.',
     SCH + ['configurations'], QT + ', every pair of numbers of threads', 'the tests use one instance per process', [C + '*.c', P + 'pool.c', H + '*.h'],
     [('thread-local state', 'one record per thread and instance', '*.h'), ('thread-local pools', 'shared by the instances in use by a thread', '*.c')], [('set-up of an instance and of the per-thread state', '*Init, *ThreadStateInit')],
     ['*StructInit', '*ThreadStateInit'])
prop('P23', 'Memory comes in valid disjoint blocks and objects keep their footprint',
     'A block of memory obtained from the library has at least the requested size, is aligned as requested, shares no byte with another live block and can be released, which gives all of it back. The objects that reclaim memory (all combining objects, queues and stacks, both locks, the universal constructions and the wait-free stack) run for ever on balanced workloads without taking more and more memory; the wait-free queue, the lock-free list-based objects and the hash tables take at most one small node per operation. No operation reads or writes released or foreign memory.',
     ['schedules', 'programs', 'inputs'], 'every sequence of requests, sizes, alignments; workloads of any length', 'the tests are too short to notice growth and never look at alignment or release',
     [P + 'primitives.c', P + 'pool.c', C + '*.c'], [('pool blocks and recycle lists', 'free nodes', 'pool.h')], [('allocation and release', 'primitives.c:synchGetAlignedMemory, synchFreeMemory'), ('recycling of nodes', '*.c')],
     ['synchGetMemory', 'synchGetAlignedMemory', 'synchFreeMemory', 'synchRecycleObj'])

case('P24', 'Atomic primitives are atomic and compute exact results',
     'Compare-and-swap on 32-bit, 64-bit, pointer and 128-bit words, swap, 32-bit and 64-bit fetch-and-add and test-and-set of a bit take effect atomically, exactly once, between call and return, on every bit of the word and on nothing else. Compare-and-swap succeeds exactly when the whole word equals the expected value, the other operations return the old value (additions wrap around), also in the variants of the library in which fetch-and-add and swap are emulated or statistics are counted. Every operation returns as long as threads keep being scheduled, and no update is lost when real threads run in parallel.',
     SCH + ['inputs'], 'every value of every width, every interleaving', 'the tests reach the primitives only through the objects, in one variant of the build, with small values',
     [H + 'primitives.h', P + 'primitives.c'], [('A', 'the word', 'primitives.h')], [('one atomic instruction, or a retry loop around compare-and-swap', 'primitives.c:_CAS128, _SWAP, _FAA32, _FAA64, ...')],
     ['synchCAS32', 'synchCAS64', 'synchCASPTR', 'synchCAS128', 'synchSWAP', 'synchFAA32', 'synchFAA64', 'synchBitTAS64'])
case('P25', 'Thread placement uses every core once and follows its policy',
     'On every machine whose cores are spread evenly over its NUMA nodes, with or without two hardware threads per core, and under every policy, the first N thread ids are placed on the N different cores and every further id on an existing core. A thread is pinned to the core that the library reports for it, and the node it reports is the node of that core. The flat policy goes round robin over the cores. The sparse policies spread every initial set of ids over the nodes with counts that differ by at most one; the plain one uses all physical cores before any second hardware thread, the one that prefers SMT uses both hardware threads of a core before the next core of that node. Without hardware threads the dense policy fills one node after the other. The policy that was set is reported, and values beyond the last policy count as the last one.',
     ['configurations', 'inputs'], 'every number of nodes and cores, with and without SMT, every policy, every thread id', 'the tests run on one machine and look at no placement',
     [P + 'threadtools.c', H + 'threadtools.h'], [('__schedule_policy', 'the policy', 'threadtools.c')], [('core of an id', 'threadtools.c:synchPreferredCoreOfThread'), ('node of an id', 'threadtools.c:synchPreferredNumaNodeOfThread')],
     ['synchSetThreadPlacementPolicy', 'synchGetThreadPlacementPolicy', 'synchPreferredCoreOfThread', 'synchPreferredNumaNodeOfThread', 'synchThreadPin', 'synchGetPreferredCore', 'synchGetPreferredNumaNode'])
case('P27', 'Random numbers and backoff stay in range and depend on the seed only',
     'A generator that is given a seed produces the same sequence in every thread, whatever other threads draw at the same time. Every number lies in the documented range, ranges with lower and upper bound included, every value of a small range (except perhaps its upper bound) does come up, and no seed makes a generator repeat only a few values. The value of a backoff object always stays between its lower and upper bound (within one of the documented powers of two); increasing and delaying never make it smaller, reducing never makes it larger, by the configured step until a bound is reached, and resetting restores the initial value.',
     ['inputs', 'schedules'], 'every seed, range and backoff configuration, every sequence of operations', 'the tests use the generators only to vary their workload',
     [P + 'fastrand.c', P + 'backoff.c', H + 'fastrand.h', H + 'backoff.h'], [('__fast_random_next*', 'thread-local state of the generators', 'fastrand.c'), ('backoff', 'current value', 'backoff.h')], [('linear congruential and multiply-with-carry generators', 'fastrand.c'), ('shift and clamp', 'backoff.c')],
     ['synchFastRandom', 'synchFastRandom32', 'synchFastRandomSetSeed', 'synchFastRandomRange', 'synchFastRandomRange32', 'synchInitBackoff', 'synchResetBackoff', 'synchBackoffDelay', 'synchBackoffReduce', 'synchBackoffIncrease'])
prop('P28', 'Build options change speed and statistics only, never behaviour',
     'With each of the documented build options, the library behaves as without it: debug statistics, disabled backoff, disabled recycling of nodes, fetch-and-add and swap emulated by compare-and-swap, no NUMA support, no compact allocation. Every queue, stack, hash table and combined object stays linearizable and executes every request exactly once, locks exclude and serve in order of arrival, barriers separate rounds, fibers and threads run exactly once, memory blocks are valid and disjoint, pools hand out disjoint objects (and reuse them unless recycling is disabled), random numbers keep their ranges, and threads are placed on different cores (on a single node without NUMA support).',
     SCH, QT + ', and every build option', 'the tests are run with one build of the library; what the code does under the other options is not even compiled', ['libconcurrent/config.h', H + '*.h', P + '*.c', C + '*.c'],
     [('DEBUG, SYNCH_EMULATE_FAA, ...', 'options of the build', 'config.h, README.md')],
     [('code under #ifdef', 'primitives.c, pool.c, backoff.h, stats.h, *.c')], ['*'])
case('P29', 'Benchmark options and debug statistics are exact',
     'Every option of the benchmarks has the value that the command line gives it last, in the short, long or joined form, and its documented default otherwise. With fibers, the number of threads counts all fibers, and the runs are divided evenly among the threads. With debug statistics, the printed numbers of executed, successful and failed compare-and-swap, swap and fetch-and-add operations are exactly those that the threads executed between starting and stopping their counters, summed over all threads and rounds, and the ratios follow from them.',
     ['inputs', 'schedules'], 'every command line of valid options, every sequence of operations and every interleaving of threads', 'the tests use few options and compare none of the statistics with what was executed',
     [P + 'bench_args.c', H + 'bench_args.h', P + 'stats.c', H + 'stats.h', P + 'primitives.c'], [('SynchBenchArgs', 'values of the options', 'bench_args.h'), ('__executed_cas etc.', 'thread-local counters and totals', 'stats.c')],
     [('parsing of the options', 'bench_args.c:synchParseArguments'), ('counting of atomics, accumulation', 'primitives.c, stats.c:synchStopCPUCounters')],
     ['synchParseArguments', 'synchStartCPUCounters', 'synchStopCPUCounters', 'synchPrintStats'])
