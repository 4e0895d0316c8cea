-------------------------------- MODULE Fibers -------------------------------
(* Trace specification of fibers within kernel threads.  One fiber of a       *)
(* kernel thread runs at a time; control moves only when it yields, waits or  *)
(* ends; a fiber that yields is not resumed before every other fiber that was *)
(* active at that time has had its turn; spawning succeeds exactly when a     *)
(* place is free; waiting ends when only the waiting fiber is left.           *)
EXTENDS TraceLib
VARIABLES n, max, active, fresh, run, since, mainwaits, idx
vars == <<n, max, active, fresh, run, since, mainwaits, idx>>
MF == 40
None == -1
Kt == 0..1
Ids == 0..2 * MF
Main(k) == k * MF
Slack == 2      \* library allocations besides the stacks: list of fibers, one stack that is about to be released

Init == /\ n = 1
        /\ max = [k \in Kt |-> 0] /\ active = [k \in Kt |-> {}] /\ fresh = {}
        /\ run = [k \in Kt |-> None] /\ since = [f \in Ids |-> {}]
        /\ mainwaits = [k \in Kt |-> FALSE] /\ idx = [f \in Ids |-> None]

Ran(s, f) == [g \in Ids |-> IF g = f THEN {} ELSE s[g] \ {f}]
Start(c) == LET k == Op(c) IN
  /\ Ty(c) = T_i
  /\ max' = [max EXCEPT ![k] = Arg(c)]
  /\ active' = [active EXCEPT ![k] = {Main(k)}]
  /\ run' = [run EXCEPT ![k] = Main(k)]
  /\ UNCHANGED <<fresh, since, mainwaits, idx>>
Spawn(c) == LET k == Op(c) IN
  /\ Ty(c) = T_s /\ run[k] = Th(c)
  /\ IF Cardinality(active[k]) < max[k]
     THEN /\ Res(c)[1] = 1
          /\ active' = [active EXCEPT ![k] = @ \cup {Arg(c)}]
          /\ fresh' = fresh \cup {Arg(c)}
     ELSE Res(c)[1] = -1 /\ UNCHANGED <<active, fresh>>
  /\ UNCHANGED <<max, run, since, mainwaits, idx>>
Begin(c) == LET k == Op(c) f == Th(c) IN
  /\ Ty(c) = T_b /\ run[k] = None /\ f \in fresh /\ f \in active[k]
  /\ fresh' = fresh \ {f}
  /\ run' = [run EXCEPT ![k] = f]
  /\ since' = Ran(since, f)
  /\ UNCHANGED <<max, active, mainwaits, idx>>
Yield(c) == LET k == Op(c) f == Th(c) IN
  /\ Ty(c) = T_y /\ run[k] = f
  /\ run' = [run EXCEPT ![k] = None]
  /\ since' = [since EXCEPT ![f] = active[k] \ ({f} \cup (IF mainwaits[k] THEN {Main(k)} ELSE {}))]
  /\ UNCHANGED <<max, active, fresh, mainwaits, idx>>
Resume(c) == LET k == Op(c) f == Th(c) IN
  /\ Ty(c) = T_z /\ run[k] = None /\ f \in active[k] \ fresh
  /\ since[f] = {}
  /\ run' = [run EXCEPT ![k] = f]
  /\ since' = Ran(since, f)
  /\ UNCHANGED <<max, active, fresh, mainwaits, idx>>
End(c) == LET k == Op(c) f == Th(c) IN
  /\ Ty(c) = T_e /\ run[k] = f /\ f # Main(k)
  /\ run' = [run EXCEPT ![k] = None]
  /\ active' = [active EXCEPT ![k] = @ \ {f}]
  /\ since' = Ran(since, f)
  /\ idx' = [idx EXCEPT ![f] = None]
  /\ UNCHANGED <<max, fresh, mainwaits>>
\* every fiber keeps its index, and no two active ones share one
Index(c) == LET k == Op(c) f == Th(c) IN
  /\ Ty(c) = T_k /\ run[k] = f
  /\ Arg(c) \in 0..max[k] - 1
  /\ f = Main(k) <=> Arg(c) = 0
  /\ idx[f] \in {None, Arg(c)}
  /\ \A g \in active[k] : g # f => idx[g] # Arg(c)
  /\ idx' = [idx EXCEPT ![f] = Arg(c)]
  /\ UNCHANGED <<max, active, fresh, run, since, mainwaits>>
Wait(c) == LET k == Op(c) IN
  /\ Ty(c) = T_w /\ run[k] = Main(k)
  /\ run' = [run EXCEPT ![k] = None]
  /\ mainwaits' = [mainwaits EXCEPT ![k] = TRUE]
  /\ since' = Ran(since, Main(k))
  /\ UNCHANGED <<max, active, fresh, idx>>
Waited(c) == LET k == Op(c) IN
  /\ Ty(c) = T_v /\ run[k] = None /\ mainwaits[k]
  /\ active[k] = {Main(k)}
  /\ Arg(c) <= max[k] + Slack   \* memory does not grow with the number of fibers that have ended
  /\ run' = [run EXCEPT ![k] = Main(k)]
  /\ mainwaits' = [mainwaits EXCEPT ![k] = FALSE]
  /\ UNCHANGED <<max, active, fresh, since, idx>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Start(c) \/ Spawn(c) \/ Begin(c) \/ Yield(c) \/ Resume(c) \/ End(c) \/ Index(c) \/ Wait(c) \/ Waited(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
