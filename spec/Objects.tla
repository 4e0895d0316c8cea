------------------------------- MODULE Objects -------------------------------
(* Sequential specifications of the abstract objects that the library        *)
(* implements.  Apply(kind, s, op, a) is the atomic effect of one operation:  *)
(* [s |-> next abstract state, r |-> result].  Results are sequences: <<>> =  *)
(* no observable result, <<-1>> = "empty".                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

EMPTY == -1

InitObj(kind) ==
  CASE kind = "set"   -> {}
    [] kind \in {"chain", "reg"} -> <<0>>
    [] OTHER        -> << >>

QueueApply(s, op, a) ==
  IF op = 0 THEN [s |-> Append(s, a), r |-> << >>]
  ELSE IF s = << >> THEN [s |-> s, r |-> <<EMPTY>>]
  ELSE [s |-> Tail(s), r |-> <<Head(s)>>]

StackApply(s, op, a) ==
  IF op = 0 THEN [s |-> <<a>> \o s, r |-> << >>]
  ELSE IF s = << >> THEN [s |-> s, r |-> <<EMPTY>>]
  ELSE [s |-> Tail(s), r |-> <<Head(s)>>]

(* A log answers with the position at which the request was served.           *)
LogApply(s, op, a) == [s |-> Append(s, a), r |-> <<Len(s)>>]
(* ... or with the state before it, which is a digest of everything served    *)
(* so far.                                                                    *)
ChainApply(s, op, a) == [s |-> <<(s[1] * 37 + a) % 1000003>>, r |-> s]

(* ... or a register modulo 3 that is read, incremented or cleared: its states *)
(* come back again and again.                                                 *)
RegApply(s, op, a) ==
  [s |-> IF a % 3 = 0 THEN s ELSE IF a % 3 = 1 THEN <<(s[1] + 1) % 3>> ELSE <<0>>, r |-> s]

SetApply(s, op, a) ==
  CASE op = 0 -> [s |-> s \cup {a}, r |-> << >>]
    [] op = 1 -> [s |-> s, r |-> <<IF a \in s THEN 1 ELSE 0>>]
    [] OTHER  -> [s |-> s \ {a}, r |-> << >>]

Apply(kind, s, op, a) ==
  CASE kind = "queue"  -> QueueApply(s, op, a)
    [] kind = "stack"  -> StackApply(s, op, a)
    [] kind = "log"    -> LogApply(s, op, a)
    [] kind = "chain"  -> ChainApply(s, op, a)
    [] kind = "reg"    -> RegApply(s, op, a)
    [] kind = "set"    -> SetApply(s, op, a)
=============================================================================
