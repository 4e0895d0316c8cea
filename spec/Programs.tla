------------------------------ MODULE Programs -------------------------------
(* Small programs for the algorithm specifications: one sequence of           *)
(* operations <<code, argument>> per thread; code 0 = enqueue / push /        *)
(* request, code 1 = dequeue / pop.  Arguments are numbered in the order of   *)
(* the text, so that the conformance driver can replay the same program.      *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL A(v) == <<0, v>>
LOCAL R == <<1, 0>>
CollProg == <<
  << <<A(1), R>>, <<A(2), R>> >>,
  << <<A(1), R>>, <<A(2)>>, <<R>> >>,
  << <<A(1), A(2)>>, <<R, R>>, <<R>> >>,
  << <<A(1), R, A(2)>>, <<A(3), R, R>> >>,
  << <<R, A(1)>>, <<R, A(2)>>, <<A(3), R>> >>,
  << <<A(1), A(2), R>>, <<A(3), R, A(4)>>, <<R, R>> >>,
  << <<A(1), A(2), A(3)>>, <<R, R, R>> >>,
  << <<A(1)>>, <<A(2)>>, <<A(3), R>>, <<R>> >>,
  << <<A(1)>>, <<R>> >>,
  << <<A(1)>>, <<A(2)>> >>,
  << <<A(1), R>>, <<R>> >>,
  << <<A(1), R>>, <<A(2)>> >>,
  << <<A(1)>>, <<A(2)>>, <<R>> >>,
  << <<R>>, <<R>> >>,
  << <<A(1), R, A(2)>>, <<R>> >>,
  << <<A(1), A(2), R>>, <<R>> >>,
  << <<A(1), A(2), A(3), A(4), A(5), A(6)>>, <<R>> >>,
  << <<A(1), R, A(2), R, A(3), R, A(4)>>, <<R>> >>,
  << <<A(1), R, A(2), R, A(3), R, A(4)>>, <<A(5)>> >>,
  << <<A(1), R, R, R, R, R, A(2)>>, <<R>> >>,
  << <<A(1), A(2), A(3), A(4), A(5)>>, <<R, R, R, R, R>> >> >>
LogProg == <<
  << <<A(1)>>, <<A(2)>> >>,
  << <<A(1), A(2)>>, <<A(3)>> >>,
  << <<A(1)>>, <<A(2)>>, <<A(3)>> >>,
  << <<A(1), A(2)>>, <<A(3), A(4)>> >>,
  << <<A(1), A(2)>>, <<A(3)>>, <<A(4)>> >>,
  << <<A(1), A(2), A(3)>>, <<A(4), A(5), A(6)>> >>,
  << <<A(1)>>, <<A(2)>>, <<A(3)>>, <<A(4)>> >>,
  << <<A(1), A(2), A(3)>>, <<A(4)>> >>,
  << <<A(1), A(2), A(3), A(4)>>, <<A(5)>> >>,
  << <<A(1), A(2), A(3), A(4), A(5), A(6)>>, <<A(7)>> >> >>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
NumOps(P) == Sum([t \in DOMAIN P |-> Len(P[t])], DOMAIN P)
NumAdds(P) == Sum([t \in DOMAIN P |-> Cardinality({ j \in 1..Len(P[t]) : P[t][j][1] = 0 })], DOMAIN P)
=============================================================================
