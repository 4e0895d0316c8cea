--------------------------------- MODULE Pool --------------------------------
(* Trace specification of the object pool: an allocated object overlaps no    *)
(* live object of any pool; recycled and cancelled objects are used again     *)
(* before more memory is taken; destroying a pool gives all its memory back.  *)
EXTENDS TraceLib
VARIABLES n, size, live, order, peak, mem, own
\* live[k]: function object -> address; order[k]: live objects, oldest allocation first
vars == <<n, size, live, order, peak, mem, own>>
Pools == 0..1
Init == /\ n = 1 /\ size = [k \in Pools |-> 0] /\ live = [k \in Pools |-> << >>]
        /\ order = [k \in Pools |-> << >>] /\ peak = [k \in Pools |-> 0]
        /\ mem = 0 /\ own = [k \in Pools |-> 0]
New(c) == LET k == Op(c) IN
  /\ Ty(c) = T_i /\ Arg(c) = 0
  /\ size' = [size EXCEPT ![k] = Res(c)[1]]
  /\ own' = [own EXCEPT ![k] = Res(c)[2] - mem]
  /\ mem' = Res(c)[2]
  /\ UNCHANGED <<live, order, peak>>
Refused(c) == Ty(c) = T_k /\ Arg(c) = -1 /\ UNCHANGED <<size, live, order, peak, mem, own>>
Disjoint(k, a) == \A j \in Pools : \A o \in DOMAIN live[j] : a + size[k] <= live[j][o] \/ live[j][o] + size[j] <= a
Alloc(c) == LET k == Op(c) o == Arg(c) a == Res(c)[1] m == Res(c)[2] IN
  /\ Ty(c) = T_a
  /\ Disjoint(k, a)
  /\ m > mem => Cardinality(DOMAIN live[k]) + 1 > peak[k]     \* all memory of the pool was in use
  /\ live' = [live EXCEPT ![k] = @ @@ (o :> a)]
  /\ order' = [order EXCEPT ![k] = Append(@, o)]
  /\ peak' = [peak EXCEPT ![k] = IF Cardinality(DOMAIN live[k]) + 1 > @ THEN Cardinality(DOMAIN live[k]) + 1 ELSE @]
  /\ own' = [own EXCEPT ![k] = @ + (m - mem)]
  /\ mem' = m
  /\ UNCHANGED size
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Recycle(c) == LET k == Op(c) o == Arg(c) IN
  /\ Ty(c) = T_d /\ o \in DOMAIN live[k]
  /\ live' = [live EXCEPT ![k] = Without(@, {o})]
  /\ order' = [order EXCEPT ![k] = SelectSeq(@, LAMBDA x : x # o)]
  /\ UNCHANGED <<size, peak, mem, own>>
Rollback(c) == LET k == Op(c) m == Arg(c) l == Len(order[k]) IN
  /\ Ty(c) = T_b
  /\ live' = [live EXCEPT ![k] = Without(@, {order[k][i] : i \in l - m + 1..l})]
  /\ order' = [order EXCEPT ![k] = SubSeq(@, 1, l - m)]
  /\ UNCHANGED <<size, peak, mem, own>>
Destroy(c) == LET k == Op(c) IN
  /\ Ty(c) = T_q
  /\ Arg(c) = mem - own[k]
  /\ mem' = Arg(c) /\ own' = [own EXCEPT ![k] = 0]
  /\ live' = [live EXCEPT ![k] = << >>] /\ order' = [order EXCEPT ![k] = << >>]
  /\ UNCHANGED <<size, peak>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ New(c) \/ Refused(c) \/ Alloc(c) \/ Recycle(c) \/ Rollback(c) \/ Destroy(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
