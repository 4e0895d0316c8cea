----------------------------- MODULE Footprint -------------------------------
(* Trace specification of the memory used by long runs in which every thread  *)
(* adds and removes in turn, so that the object stays small.                  *)
(*   m(phase, pages touched so far, <<threads, pairs of operations so far,    *)
(*     blocks obtained from the system>>), phase 0 after a quarter, 1 at end  *)
(* Objects that reclaim memory: use no more memory than they did before, up   *)
(* to Base pages and one page per Per operations (which thread gets back a    *)
(* node is a matter of chance).  The others need one node per operation.      *)
EXTENDS TraceLib
CONSTANTS Base, Per
VARIABLES n, p, o, b
vars == <<n, p, o, b>>
Init == n = 1 /\ p = 0 /\ o = 0 /\ b = 0
First(c) == Op(c) = 0
Last(c) == /\ Op(c) = 1
           /\ Arg(c) - p <= Base + (Res(c)[2] - o) \div Per
           /\ Res(c)[3] = b
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Ty(c) = T_m /\ (First(c) \/ Last(c))
          /\ p' = Arg(c) /\ o' = Res(c)[2] /\ b' = Res(c)[3]
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
