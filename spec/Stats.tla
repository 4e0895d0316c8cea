-------------------------------- MODULE Stats --------------------------------
(* Trace specification of the statistics of a DEBUG build: what is printed is *)
(* exactly what the threads executed between starting and stopping their      *)
(* counters, over all threads and all rounds, and nothing else.               *)
EXTENDS TraceLib
VARIABLES n, on, mine, tot
vars == <<n, on, mine, tot>>
Threads == 0..7
Zero == [cas |-> 0, fail |-> 0, swap |-> 0, faa |-> 0]
Add(a, b) == [cas |-> a.cas + b.cas, fail |-> a.fail + b.fail, swap |-> a.swap + b.swap, faa |-> a.faa + b.faa]
Init == n = 1 /\ on = [t \in Threads |-> FALSE] /\ mine = [t \in Threads |-> Zero] /\ tot = Zero
One(c) == [cas |-> IF Op(c) = 0 THEN 1 ELSE 0, fail |-> IF Op(c) = 0 /\ Arg(c) = 0 THEN 1 ELSE 0, swap |-> IF Op(c) = 1 THEN 1 ELSE 0, faa |-> IF Op(c) = 2 THEN 1 ELSE 0]
Start(c) == Ty(c) = T_b /\ on' = [on EXCEPT ![Th(c)] = TRUE] /\ mine' = [mine EXCEPT ![Th(c)] = Zero] /\ UNCHANGED tot
Stop(c) == Ty(c) = T_e /\ on' = [on EXCEPT ![Th(c)] = FALSE] /\ tot' = Add(tot, mine[Th(c)]) /\ UNCHANGED mine
Oper(c) == /\ Ty(c) = T_o
           /\ mine' = IF on[Th(c)] THEN [mine EXCEPT ![Th(c)] = Add(@, One(c))] ELSE mine
           /\ UNCHANGED <<on, tot>>
Near(a, b) == a - b \in -1..1
Report(c) == LET all == tot.cas + tot.swap + tot.faa ok == tot.cas - tot.fail IN
  /\ Ty(c) = T_p
  /\ \A t \in Threads : ~on[t]
  /\ SubSeq(Res(c), 1, 5) = <<tot.cas, ok, tot.swap, tot.faa, all>>
  /\ Near(Res(c)[6], (tot.fail * 1000000) \div Op(c))
  /\ Near(Res(c)[7], (all * 100) \div Op(c))
  /\ ok > 0 => Near(Res(c)[8], (Op(c) * 100) \div ok)
  /\ UNCHANGED <<on, mine, tot>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Start(c) \/ Stop(c) \/ Oper(c) \/ Report(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
