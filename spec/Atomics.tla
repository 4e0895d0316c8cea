------------------------------- MODULE Atomics -------------------------------
(* Trace specification of the atomic primitives: words are sequences of       *)
(* 16-bit limbs (least significant first).  Between its call and its return   *)
(* every operation takes effect atomically once.                              *)
EXTENDS TraceLib
VARIABLES n, mem, pend
vars == <<n, mem, pend>>
Threads == 0..3
Width(w) == CASE w = 0 -> 2 [] w = 3 -> 8 [] OTHER -> 4
Off(w) == CASE w = 0 -> 0 [] w = 1 -> 2 [] w = 2 -> 6 [] w = 3 -> 10
Word(s, w) == SubSeq(s, Off(w) + 1, Off(w) + Width(w))
Limb == 65536
RECURSIVE Add(_, _, _)
Add(a, b, carry) == IF a = << >> THEN << >>
                    ELSE LET x == Head(a) + Head(b) + carry IN
                         <<x % Limb>> \o Add(Tail(a), Tail(b), x \div Limb)
Bit(a, k) == (a[(k \div 16) + 1] \div 2 ^ (k % 16)) % 2
SetBit(a, k) == IF Bit(a, k) = 1 THEN a ELSE [a EXCEPT ![(k \div 16) + 1] = @ + 2 ^ (k % 16)]
Zero == <<0, 0, 0, 0>>

\* effect of operation op with operands x on the value a: <<value, set of allowed results>>
Effect(op, w, a, x) ==
  CASE op = 0 -> IF SubSeq(x, 1, Width(w)) = a THEN <<SubSeq(x, Width(w) + 1, 2 * Width(w)), {<<1>>}>> ELSE <<a, {<<0>>}>>
    [] op = 1 -> <<Add(a, x, 0), {a}>>
    [] op = 2 -> <<x, {a}>>
    \* the bit as it was, alone or within the word
    [] op = 3 -> <<SetBit(a, x[1]), {a, [Zero EXCEPT ![1] = Bit(a, x[1])], [Zero EXCEPT ![(x[1] \div 16) + 1] = Bit(a, x[1]) * 2 ^ (x[1] % 16)]}>>

Init == n = 1 /\ mem = << >> /\ pend = [t \in Threads |-> << >>]
Look(c) == /\ Ty(c) = T_f /\ Op(c) = 1
           /\ \A t \in Threads : pend[t] = << >>
           /\ \/ mem = << >> /\ mem' = [w \in 0..3 |-> Word(Res(c), w)]
              \/ mem # << >> /\ mem = [w \in 0..3 |-> Word(Res(c), w)] /\ UNCHANGED mem
           /\ UNCHANGED pend
Call(c) == /\ Ty(c) = T_c /\ pend[Th(c)] = << >>
           /\ pend' = [pend EXCEPT ![Th(c)] = <<Op(c), Arg(c), Res(c)>>]
           /\ UNCHANGED mem
Return(c) == /\ Ty(c) = T_r /\ Len(pend[Th(c)]) = 4
             /\ Res(c) \in pend[Th(c)][4]
             /\ pend' = [pend EXCEPT ![Th(c)] = << >>]
             /\ UNCHANGED mem
Step == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Look(c) \/ Call(c) \/ Return(c)
          /\ n' = c /\ Accept(c)
Waiting == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN Ty(c) = T_r /\ Len(pend[Th(c)]) = 3
Lin == /\ Waiting
       /\ \E t \in Threads :
            /\ Len(pend[t]) = 3
            /\ LET p == pend[t] e == Effect(p[1], p[2], mem[p[2]], p[3]) IN
                 /\ mem' = [mem EXCEPT ![p[2]] = e[1]]
                 /\ pend' = [pend EXCEPT ![t] = Append(p, e[2])]
       /\ UNCHANGED n
Next == Step \/ Lin
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
