------------------------------- MODULE Blocks --------------------------------
(* Trace specification of the allocation primitives: a block has the size and *)
(* alignment asked for, overlaps no other live block, keeps its content (the  *)
(* driver reports damage as an event that no action allows), and goes back to *)
(* the system when it is freed.                                               *)
(*   a(block, address, <<size, alignment>>)   d(block, bytes given back)      *)
(*   q(bytes still held when every block has been freed)                      *)
EXTENDS TraceLib
VARIABLES n, addr, size
vars == <<n, addr, size>>
Init == n = 1 /\ addr = << >> /\ size = << >>
Alloc(c) == LET a == Arg(c) s == Res(c)[1] al == Res(c)[2] IN
  /\ Ty(c) = T_a
  /\ Op(c) \notin DOMAIN addr
  /\ al > 0 => a % al = 0
  /\ \A k \in DOMAIN addr : a + s <= addr[k] \/ addr[k] + size[k] <= a
  /\ addr' = addr @@ (Op(c) :> a) /\ size' = size @@ (Op(c) :> s)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Free(c) == /\ Ty(c) = T_d /\ Op(c) \in DOMAIN addr
           /\ Arg(c) >= size[Op(c)]
           /\ addr' = Without(addr, Op(c)) /\ size' = Without(size, Op(c))
End(c) == Ty(c) = T_q /\ DOMAIN addr = {} /\ Arg(c) = 0 /\ UNCHANGED <<addr, size>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Alloc(c) \/ Free(c) \/ End(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
