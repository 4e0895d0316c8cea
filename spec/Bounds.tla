------------------------------- MODULE Bounds --------------------------------
(* Trace specification of the bounds that the algorithms promise, measured    *)
(* under a scheduler that gives one thread a single step at a time while the  *)
(* others perform whole operations in between:                                *)
(*   b  an operation of the slow thread: Arg = its own steps                  *)
(*   s  Arg = the most requests that a thread served within one operation     *)
(*   g  Arg = the most steps of all threads without any operation completing  *)
(* Res = <<number of threads N that the object was set up for, ...>>          *)
(* Constants (A, B) give the bound A + B * N; a very large A: not bounded.           *)
EXTENDS TraceLib
CONSTANTS StepsA, StepsB, ServedA, ServedB, GapA, GapB
VARIABLE n
N(c) == Res(c)[1]
Within(c, a, b) == Arg(c) <= a + b * N(c)
Init == n = 1
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ \/ Ty(c) = T_b /\ Within(c, StepsA, StepsB)
             \/ Ty(c) = T_s /\ Within(c, ServedA, ServedB)
             \/ Ty(c) = T_g /\ Within(c, GapA, GapB)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_n
Accepted == AllAccepted
=============================================================================
