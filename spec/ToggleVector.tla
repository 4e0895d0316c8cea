----------------------------- MODULE ToggleVector ----------------------------
(* Trace specification of toggle vectors: a vector for n threads is a subset  *)
(* of 0..n-1.  Operations on whole vectors and on the 64-bit bank that holds  *)
(* a given bit; flipping one's own bit by adding and subtracting it never     *)
(* disturbs another bit, whatever the interleaving.                           *)
EXTENDS TraceLib
VARIABLES n, size, vec, toggled
vars == <<n, size, vec, toggled>>
V == 0..3
Init == /\ n = 1 /\ size = 0 /\ vec = [v \in V |-> {}] /\ toggled = {}
Range(s) == {s[i] : i \in 1..Len(s)}
Bank(b) == {x \in 0..size - 1 : x \div 64 = b \div 64}
Flip(s, b) == IF b \in s THEN s \ {b} ELSE s \cup {b}
Xor(a, b) == (a \ b) \cup (b \ a)

Setup(c) == Ty(c) = T_i /\ size' = Arg(c) /\ UNCHANGED <<vec, toggled>>
Single(c) == /\ Ty(c) = T_s
             /\ vec' = [vec EXCEPT ![Th(c)] = IF Op(c) = 0 THEN @ \cup {Arg(c)} ELSE Flip(@, Arg(c))]
             /\ UNCHANGED <<size, toggled>>
Whole(c) == LET a == vec[Arg(c)] b == vec[Res(c)[1]] IN
  /\ Ty(c) = T_o
  /\ vec' = [vec EXCEPT ![Th(c)] = CASE Op(c) = 0 -> a
                                     [] Op(c) = 1 -> a \cup b
                                     [] Op(c) = 2 -> a \cap b
                                     [] Op(c) = 3 -> Xor(a, b)
                                     [] Op(c) = 4 -> {}]
  /\ UNCHANGED <<size, toggled>>
OneBank(c) == LET a == vec[Arg(c)] b == vec[Res(c)[1]] k == Bank(Res(c)[2])
                  r == CASE Op(c) = 0 -> Xor(a, b) [] Op(c) = 1 -> a \cap b [] Op(c) = 2 -> a IN
  /\ Ty(c) = T_k
  /\ vec' = [vec EXCEPT ![Th(c)] = (@ \ k) \cup (r \cap k)]
  /\ UNCHANGED <<size, toggled>>
Look(c) == /\ Ty(c) = T_f
           /\ Range(Res(c)) = vec[Th(c)]
           /\ Op(c) = Cardinality(vec[Th(c)])
           /\ Len(Res(c)) = Cardinality(vec[Th(c)])
           /\ UNCHANGED <<size, vec, toggled>>
Toggle(c) == /\ Ty(c) = T_t
             /\ toggled' = Flip(toggled, Arg(c))
             /\ Res(c)[1] = (IF Arg(c) \in toggled THEN 0 ELSE 1)
             /\ UNCHANGED <<size, vec>>
Toggled(c) == Ty(c) = T_g /\ Range(Res(c)) = toggled /\ UNCHANGED <<size, vec, toggled>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Setup(c) \/ Single(c) \/ Whole(c) \/ OneBank(c) \/ Look(c) \/ Toggle(c) \/ Toggled(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
