------------------------------- MODULE Conserve ------------------------------
(* Trace specification of real threads on the real machine: what successful   *)
(* atomic operations put into a word is exactly what is found in the end.     *)
EXTENDS TraceLib
VARIABLES n, total
Init == n = 1 /\ total = <<0, 0>>
Run(c) == /\ Ty(c) = T_n
          /\ total' = <<Arg(c), Res(c)[1]>>
          /\ <<Res(c)[2], Res(c)[3]>> = total'
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN Run(c) /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_<<n, total>>
Accepted == AllAccepted
=============================================================================
