--------------------------------- MODULE Args --------------------------------
(* Trace specification of the command line of the benchmarks.  An option has  *)
(* the value that it was given last, in whichever form, and its documented    *)
(* default otherwise; threads are counted in fibers when there are any, and   *)
(* the runs are divided evenly among the threads.                             *)
EXTENDS TraceLib
VARIABLES n, given, dflt, out
vars == <<n, given, dflt, out>>
None == -1
\* threads, fibers, runs (its lower 16 bits), max_work, backoff_high, backoff_low, numa_nodes, the upper bits of runs
Values == 0..7
Init == n = 1 /\ given = [o \in Values |-> None] /\ dflt = << >> /\ out = FALSE
Option(c) == /\ Ty(c) = T_o /\ ~out
             /\ given' = IF Op(c) = 2 THEN [given EXCEPT ![2] = Arg(c), ![7] = Res(c)[1]] ELSE [given EXCEPT ![Op(c)] = Arg(c)]
             /\ UNCHANGED <<dflt, out>>
Defaults(c) == /\ Ty(c) = T_d /\ dflt = << >>
               /\ dflt' = <<Th(c), Res(c)[1], Op(c), Arg(c), 0, 0, Res(c)[2], Res(c)[3]>>
               /\ UNCHANGED <<given, out>>
Value(o) == IF given[o] # None THEN given[o] ELSE dflt[o + 1]
Threads == IF Value(1) = dflt[2] THEN Value(0) ELSE Value(0) * Value(1)
\* long division in base 2^16
Upper == Value(7) \div Threads
Lower == ((Value(7) % Threads) * 65536 + Value(2)) \div Threads
Result(c) == /\ Ty(c) = T_r /\ dflt # << >> /\ ~out
             /\ Res(c) = <<Threads, Value(1), Value(2), Value(3), Value(4), Value(5), Value(6), Value(7), Lower, Upper>>
             /\ out' = TRUE /\ UNCHANGED <<given, dflt>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Option(c) \/ Defaults(c) \/ Result(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
