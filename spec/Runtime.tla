------------------------------- MODULE Runtime -------------------------------
(* Trace specification of the thread runtime: start(n, fibers) runs the       *)
(* function once for every id 0..n-1; fibers of consecutive ids share one     *)
(* kernel thread; every observation of its own id by a thread is that id;     *)
(* join returns when everything has ended; all of it again and again.         *)
EXTENDS TraceLib

VARIABLES n, num, fib, cpus, begun, ended, kthread
vars == <<n, num, fib, cpus, begun, ended, kthread>>

Init == /\ n = 1 /\ num = 0 /\ fib = 1 /\ cpus = 1
        /\ begun = {} /\ ended = {} /\ kthread = << >>

Ids == 0..num - 1
Group(t) == t \div fib
Start(c) == /\ Ty(c) = T_s
            /\ begun = ended           \* nothing of an earlier round runs any more
            /\ num' = Arg(c) /\ fib' = Res(c)[1] /\ cpus' = Res(c)[2]
            /\ begun' = {} /\ ended' = {}
            /\ kthread' = [g \in 0..(Arg(c) \div Res(c)[1]) - 1 |-> -1]
\* an observation of its identity by the thread with id t
Ident(c) == LET t == Th(c) g == Group(Th(c)) IN
  /\ Arg(c) = t
  /\ Res(c)[2] = g * fib
  /\ kthread[g] \in {-1, Res(c)[1]}
  /\ \A h \in DOMAIN kthread : h # g => kthread[h] # Res(c)[1]
  /\ kthread' = [kthread EXCEPT ![g] = Res(c)[1]]
Begin(c) == LET t == Th(c) IN
  /\ Ty(c) = T_b
  /\ t \in Ids \ begun
  /\ Ident(c)
  /\ begun' = begun \cup {t}
  /\ UNCHANGED <<num, fib, cpus, ended>>
Keep(c) == /\ Ty(c) = T_k /\ Th(c) \in begun \ ended /\ Ident(c)
           /\ UNCHANGED <<num, fib, cpus, begun, ended>>
\* the core the library believes in is the one the kernel thread was pinned to
Pinned(c) == /\ Ty(c) = T_a /\ Th(c) \in begun \ ended /\ Arg(c) = Res(c)[1] /\ Arg(c) \in 0..cpus - 1
             /\ UNCHANGED <<num, fib, cpus, begun, ended, kthread>>
End(c) == LET t == Th(c) IN
  /\ Ty(c) = T_e /\ t \in begun \ ended
  /\ ended' = ended \cup {t}
  /\ UNCHANGED <<num, fib, cpus, begun, kthread>>
System(c) == /\ Ty(c) = T_u
             /\ Arg(c) = IF fib > 1 \/ num > cpus THEN 1 ELSE 0
             /\ Res(c)[1] = cpus
             /\ UNCHANGED <<num, fib, cpus, begun, ended, kthread>>
Join(c) == /\ Ty(c) = T_j /\ ended = Ids
           /\ UNCHANGED <<num, fib, cpus, begun, ended, kthread>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Start(c) \/ Begin(c) \/ Keep(c) \/ Pinned(c) \/ End(c) \/ System(c) \/ Join(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
