------------------------------- MODULE AlgFibers -------------------------------
(* The fibers of one kernel thread (libconcurrent/primitives/uthreads.c):     *)
(* a table of MAX slots, round-robin switching, stacks that are given back by *)
(* the fiber that runs next.  Slot 0 is the kernel thread itself.  Every      *)
(* fiber yields at most YIELDS times; the main fiber may spawn a fiber        *)
(* whenever a slot is free (up to SPAWNS times), a fiber may do so, too.      *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS MAX, YIELDS, SPAWNS
Slots == 0..(MAX - 1)
NONE == <<99, 0>>
VARIABLES active,    \* slots in use
          cur,       \* the running fiber
          n,         \* the counter N_FIBERS
          stack,     \* allocated stacks <<slot, generation>>
          recycle,   \* the stack that waits to be given back
          left,      \* remaining yields of every fiber
          spawns,    \* remaining spawns
          runs,      \* generation that runs in a slot
          pend,      \* pend[s][u]: turns of u since the last turn of s
          where,     \* where a fiber goes on: "body" = in its function, "yield" = after a switch inside a yield
          waiting    \* the main fiber waits for all the others
vars == <<active, cur, n, stack, recycle, left, spawns, runs, pend, where, waiting>>

Init == /\ active = {0} /\ cur = 0 /\ n = 1 /\ stack = {} /\ recycle = NONE
        /\ left = [s \in Slots |-> YIELDS] /\ spawns = SPAWNS /\ runs = [s \in Slots |-> 0]
        /\ pend = [s \in Slots |-> [u \in Slots |-> 0]] /\ where = [s \in Slots |-> "body"] /\ waiting = FALSE

RECURSIVE NextActive(_, _)
NextActive(s, A) == LET t == (s + 1) % MAX IN IF t \in A THEN t ELSE NextActive(t, A)

Turn(s, t) == pend' = [u \in Slots |-> IF u = t THEN [w \in Slots |-> 0] ELSE IF u \in active THEN [pend[u] EXCEPT ![t] = @ + 1] ELSE pend[u]]

\* the fiber that has just been switched to goes on inside synchFiberYield: it gives the recycled stack back
Resume == /\ where[cur] = "yield"
          /\ where' = [where EXCEPT ![cur] = "body"]
          /\ IF recycle # NONE THEN stack' = stack \ {recycle} /\ recycle' = NONE ELSE UNCHANGED <<stack, recycle>>
          /\ UNCHANGED <<active, cur, n, left, spawns, runs, pend, waiting>>

SwitchAway(A) == LET t == NextActive(cur, A) IN cur' = t /\ Turn(cur, t)

Yield == /\ where[cur] = "body" /\ n > 1
         /\ IF cur = 0 /\ waiting THEN UNCHANGED left ELSE left[cur] > 0 /\ left' = [left EXCEPT ![cur] = @ - 1]
         /\ where' = [where EXCEPT ![cur] = "yield"]
         /\ SwitchAway(active)
         /\ UNCHANGED <<active, n, stack, recycle, spawns, runs, waiting>>

\* synchSpawnFiber: the new fiber starts on its own stack and returns to the spawner at once, ready to be switched to
Spawn == /\ where[cur] = "body" /\ spawns > 0 /\ n < MAX /\ ~(cur = 0 /\ waiting)
         /\ LET slot == CHOOSE s \in Slots \ {0} : s \notin active /\ \A u \in 1..(s - 1) : u \in active IN
              /\ active' = active \cup {slot}
              /\ stack' = stack \cup {<<slot, runs[slot] + 1>>}
              /\ runs' = [runs EXCEPT ![slot] = @ + 1]
              /\ left' = [left EXCEPT ![slot] = YIELDS]
              /\ where' = [where EXCEPT ![slot] = "body"]
              /\ pend' = [pend EXCEPT ![slot] = [u \in Slots |-> 0]]
         /\ n' = n + 1 /\ spawns' = spawns - 1
         /\ UNCHANGED <<cur, recycle, waiting>>

\* the function of a fiber ends
Finish == /\ where[cur] = "body" /\ cur # 0
          /\ stack' = IF recycle # NONE THEN stack \ {recycle} ELSE stack
          /\ recycle' = <<cur, runs[cur]>>
          /\ active' = active \ {cur} /\ n' = n - 1
          /\ SwitchAway(active \ {cur})
          /\ UNCHANGED <<left, spawns, runs, where, waiting>>

WaitAll == /\ where[0] = "body" /\ cur = 0 /\ ~waiting /\ waiting' = TRUE
           /\ UNCHANGED <<active, cur, n, stack, recycle, left, spawns, runs, pend, where>>
Done == cur = 0 /\ waiting /\ n = 1 /\ where[0] = "body"
Next == Resume \/ Yield \/ Spawn \/ Finish \/ WaitAll \/ (Done /\ UNCHANGED vars)
FairSpec == Init /\ [][Next]_vars /\ WF_vars(Resume) /\ WF_vars(Yield) /\ WF_vars(Finish) /\ WF_vars(WaitAll)

Counted == n = Cardinality(active) /\ 0 \in active /\ cur \in active
\* the running fiber has a stack
Grounded == cur # 0 => <<cur, runs[cur]>> \in stack
\* nobody gets a second turn while another active fiber still waits for its first
Fair == \A s \in active : \A u \in active : pend[s][u] <= 1
\* at most one stack waits to be given back
NoLeak == \A x \in stack : (x[1] \in active /\ x[2] = runs[x[1]]) \/ x = recycle
Terminates == <>Done
================================================================================
