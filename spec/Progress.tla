------------------------------ MODULE Progress -------------------------------
(* Trace specification of non-blocking progress.                              *)
(*   c, r  an operation of a thread starts / returns                          *)
(*   d     this thread was stopped for good at some point of its code         *)
(*   q     the end: no thread that may still run has anything left to do      *)
(* Whatever threads are stopped, wherever: at the end only operations of      *)
(* stopped threads are pending.                                               *)
EXTENDS TraceLib
VARIABLES n, pending, stopped
vars == <<n, pending, stopped>>
Init == n = 1 /\ pending = {} /\ stopped = {}
Call(c) == Ty(c) = T_c /\ Th(c) \notin pending /\ pending' = pending \cup {Th(c)} /\ UNCHANGED stopped
Return(c) == Ty(c) = T_r /\ Th(c) \in pending /\ pending' = pending \ {Th(c)} /\ UNCHANGED stopped
Stopped(c) == Ty(c) = T_d /\ stopped' = stopped \cup {Th(c)} /\ UNCHANGED pending
End(c) == Ty(c) = T_q /\ pending \subseteq stopped /\ UNCHANGED <<pending, stopped>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Call(c) \/ Return(c) \/ Stopped(c) \/ End(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
