------------------------------- MODULE Barrier -------------------------------
(* Trace specification of the re-entrant barrier.                             *)
(*   init(b, n)            the barrier is set up for n threads                *)
(*   call(t, b) / ret(t, b)   a thread waits / goes on                        *)
(*   leave, lastcall, lastret: leaving for good                               *)
(* Nobody goes on from its k-th wait before n threads have called their k-th  *)
(* wait; the last leave returns when everybody has left, and from then on      *)
(* nobody touches the memory of the barrier (a second p event: bytes changed). *)
EXTENDS TraceLib

VARIABLES n, size, calls, rets, left
vars == <<n, size, calls, rets, left>>
Bars == 0..2
Threads == 0..7

Init == /\ n = 1
        /\ size = [b \in Bars |-> 0]
        /\ calls = [b \in Bars |-> [t \in Threads |-> 0]]
        /\ rets = [b \in Bars |-> [t \in Threads |-> 0]]
        /\ left = [b \in Bars |-> {}]

Setup(c) == /\ Ty(c) = T_i /\ size' = [size EXCEPT ![Op(c)] = Arg(c)]
            /\ UNCHANGED <<calls, rets, left>>
Call(c) == LET b == Op(c) t == Th(c) IN
  /\ Ty(c) = T_c /\ calls[b][t] = rets[b][t]
  /\ calls' = [calls EXCEPT ![b][t] = @ + 1]
  /\ UNCHANGED <<size, rets, left>>
Ret(c) == LET b == Op(c) t == Th(c) IN
  /\ Ty(c) = T_r /\ rets[b][t] < calls[b][t]
  /\ Cardinality({u \in Threads : calls[b][u] >= calls[b][t]}) = size[b]
  /\ rets' = [rets EXCEPT ![b][t] = @ + 1]
  /\ UNCHANGED <<size, calls, left>>
\* the moment a thread leaves lies between the two events of its leave operation
LeaveCall(c) == /\ Ty(c) \in {T_l, T_o} /\ left' = [left EXCEPT ![Op(c)] = @ \cup {Th(c)}]
                /\ UNCHANGED <<size, calls, rets>>
LeaveRet(c) == /\ Ty(c) = T_m /\ UNCHANGED <<size, calls, rets, left>>
LastRet(c) == /\ Ty(c) = T_p /\ Cardinality(left[Op(c)]) = size[Op(c)]
              /\ Arg(c) = 0
              /\ UNCHANGED <<size, calls, rets, left>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Setup(c) \/ Call(c) \/ Ret(c) \/ LeaveCall(c) \/ LeaveRet(c) \/ LastRet(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
