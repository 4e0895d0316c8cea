-------------------------------- MODULE Random -------------------------------
(* Trace specification of the pseudo-random generators and of backoff.        *)
(*  - a seed determines the sequence, whatever other threads draw meanwhile   *)
(*  - every number lies in its range; small ranges are used up in the long run*)
(*  - no seed makes a generator stick to a few values                         *)
(*  - a backoff value stays between its bounds, moves in the right direction  *)
(*    and returns to its initial value on reset                               *)
EXTENDS TraceLib
VARIABLES n, seqs, floor, cap, shift, cur
vars == <<n, seqs, floor, cap, shift, cur>>
Init == n = 1 /\ seqs = << >> /\ floor = 0 /\ cap = 0 /\ shift = 1 /\ cur = 0
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Prefix(s, t) == \A i \in 1..Min(Len(s), Len(t)) : s[i] = t[i]
Varied(s, from, least) == Cardinality({s[2 * i + from] : i \in 0..(Len(s) \div 2) - 1}) >= least
Seeded(c) == /\ Ty(c) \in {T_a, T_b}
             \* seen before: same seed, same generator
             /\ \A i \in 1..Len(seqs) : seqs[i][1] = Ty(c) /\ seqs[i][2] = <<Op(c), Arg(c)>> => Prefix(seqs[i][3], Res(c))
             /\ Ty(c) = T_a => \A i \in 1..Len(Res(c)) : Res(c)[i] \in 0..32768
             /\ Ty(c) = T_a /\ Len(Res(c)) > 40 => Cardinality({Res(c)[i] : i \in 1..Len(Res(c))}) >= 20
             /\ Ty(c) = T_b => Varied(Res(c), 1, 16) /\ Varied(Res(c), 2, 16)
             /\ seqs' = Append(seqs, <<Ty(c), <<Op(c), Arg(c)>>, Res(c)>>)
             /\ UNCHANGED <<floor, cap, shift, cur>>
Ranged(c) == LET lo == Th(c) hi == Op(c) vals == {Res(c)[i] : i \in 1..Len(Res(c))} IN
  /\ Ty(c) = T_g
  /\ vals \subseteq lo..hi
  /\ hi - lo <= 9 => lo..(hi - 1) \subseteq vals
  /\ UNCHANGED <<seqs, floor, cap, shift, cur>>
Wide(c) == Ty(c) = T_h /\ Op(c) = 0 /\ Arg(c) = 0 /\ UNCHANGED <<seqs, floor, cap, shift, cur>>
\* the bounds are 2^base and 2^cap, give or take one
Setup(c) == /\ Ty(c) = T_i
            /\ Arg(c) \in {2 ^ Th(c) - 1, 2 ^ Th(c)}
            /\ floor' = Arg(c) /\ cur' = Arg(c) /\ cap' = 2 ^ Op(c) /\ shift' = 2 ^ Res(c)[1]
            /\ UNCHANGED seqs
Backoff(c) == LET v == Arg(c) IN
  /\ Ty(c) = T_o
  /\ v \in floor..Max(floor, cap)
  /\ CASE Op(c) = 0 -> v = floor
       [] Op(c) = 1 -> v >= Min(cur * shift, cap - 1) /\ v >= cur /\ (cur < cap - 1 => v > cur)
       [] Op(c) = 2 -> v <= Max(cur \div shift, floor) /\ v <= cur
       [] Op(c) = 3 -> v >= cur
  /\ cur' = v
  /\ UNCHANGED <<seqs, floor, cap, shift>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Seeded(c) \/ Ranged(c) \/ Wide(c) \/ Setup(c) \/ Backoff(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
