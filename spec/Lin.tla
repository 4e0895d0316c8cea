--------------------------------- MODULE Lin ---------------------------------
(* Trace specification: is an observed history of calls and returns of the    *)
(* real library a behaviour of the atomic object Objects!Apply?               *)
(*                                                                            *)
(* All recorded histories are merged into a prefix tree.  A behaviour of this *)
(* specification walks down the tree; between a call and its return, each     *)
(* operation takes effect atomically exactly once (action Lin).  To keep the  *)
(* search small, operations take effect as late as possible: only when the    *)
(* next event is the return of an operation that has not taken effect yet.    *)
(* An operation that never returns (its thread was stopped) may or may not    *)
(* take effect.  A history is accepted iff its last node is reachable.        *)
(* Events "x" (crash, corruption, no progress) are never allowed.             *)
EXTENDS Objects, TLC, IOUtils, Json

CONSTANT Kind
Nodes == ndJsonDeserialize(IOEnv.TRACE)
NLeaves == atoi(IOEnv.LEAVES)

VARIABLES n,      \* position in the prefix tree
          st,     \* abstract state
          pend    \* pend[t]: pending operation of thread t

vars == <<n, st, pend>>
Threads == 0..15
NoOp == << >>

Ty(c) == Nodes[c][1]
Th(c) == Nodes[c][2]
Op(c) == Nodes[c][3]
Arg(c) == Nodes[c][4]
Res(c) == Nodes[c][5]
Kids(c) == Nodes[c][6]
Leaf(c) == Nodes[c][7]
\* the result that the pending operation of t returns in every history below node c (if there is only one):
\* nothing is gained by letting the operation take effect with another result
Foreseen(c, t) == IF t < Len(Nodes[c][8]) THEN Nodes[c][8][t + 1] ELSE <<-98>>

CALL == 0  RET == 1  FIN == 2  BAD == 3

\* pend[t] = << op, arg >> before, << op, arg, result >> after taking effect
Init == /\ n = 1
        /\ st = InitObj(Kind)
        /\ pend = [t \in Threads |-> NoOp]

Accept(c) == IF Leaf(c) > 0 THEN TLCSet(Leaf(c), TRUE) ELSE TRUE

Call(c) == /\ Ty(c) = CALL
           /\ pend[Th(c)] = NoOp
           /\ pend' = [pend EXCEPT ![Th(c)] = <<Op(c), Arg(c)>>]
           /\ UNCHANGED st

Return(c) == /\ Ty(c) = RET
             /\ Len(pend[Th(c)]) = 3
             /\ pend[Th(c)][3] = Res(c)
             /\ pend' = [pend EXCEPT ![Th(c)] = NoOp]
             /\ UNCHANGED st

\* what the shared sequential object of a log looked like when everything was over:
\* Res(c) is the part starting at offset Op(c), Arg(c) the total length
Final(c) == /\ Ty(c) = FIN
            /\ \A t \in Threads : pend[t] = NoOp
            /\ Arg(c) = Len(st)
            /\ \A i \in 1..Len(Res(c)) : st[Op(c) + i] = Res(c)[i]
            /\ UNCHANGED <<st, pend>>

Step == \E i \in 1..Len(Kids(n)) :
           LET c == Kids(n)[i] IN
             /\ Call(c) \/ Return(c) \/ Final(c)
             /\ n' = c
             /\ Accept(c)

Waiting == \E i \in 1..Len(Kids(n)) :
             LET c == Kids(n)[i] IN Ty(c) = RET /\ Len(pend[Th(c)]) = 2

Lin == /\ Waiting
       /\ \E t \in Threads :
            /\ Len(pend[t]) = 2
            /\ LET e == Apply(Kind, st, pend[t][1], pend[t][2])
                   f == Foreseen(n, t) IN
                 /\ f = <<-98>> \/ f = e.r
                 /\ st' = e.s
                 /\ pend' = [pend EXCEPT ![t] = <<pend[t][1], pend[t][2], e.r>>]
            /\ UNCHANGED n

Next == Step \/ Lin
Spec == Init /\ [][Next]_vars

ASSUME \A l \in 1..NLeaves : TLCSet(l, FALSE)
\* every recorded history is a behaviour of the specification
Accepted == \A l \in 1..NLeaves : TLCGet(l) = TRUE \/ PrintT(<<"REJECTED", l>>)
=============================================================================
