------------------------------ MODULE AlgOyama ------------------------------
(* The combining technique of libconcurrent/concurrent/oyama.c: requests are  *)
(* pushed on an announcement list, the owner of the lock takes the whole list *)
(* and serves it, again and again up to HELP requests, before it gives the    *)
(* lock up.                                                                   *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG
Kind == "log"
Prog == LogProg[PROG]
Threads == DOMAIN Prog
NULL == -1
CONSTANT HELP
Nodes == Threads
(* --algorithm Oyama {
variables tail = NULL, next = [n \in Nodes |-> NULL], completed = [n \in Nodes |-> FALSE], lock = 0,
          arg = [n \in Nodes |-> 0], log = << >>, inside = 0, served = [t \in Threads |-> 0],
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
  macro Sf1() { k := Len(log); }
  macro Sf2(a, q) { log := Append(SubSeq(log, 1, k), a); arg[q] := k; }
process (T \in Threads)
variables i = 1, p = 0, tmp = 0, k = 0, count = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done; else Call();
ini_w:   arg[self] := Prog[self][i][2]; completed[self] := FALSE;
top_r:   next[self] := tail;
push_x:  if (tail = next[self]) tail := self; else goto top_r;
lock_r:  if (lock # 0) goto wait_r;
lock_x:  if (lock # 0) goto wait_r; else { lock := 1; count := 0; inside := inside + 1; };
take_x:  if (count >= HELP) goto rel_w;
         else { p := tail; tail := NULL; if (p = NULL) goto rel_w; };
next_r:  tmp := next[p]; count := count + 1;
sf1:     Sf1();
sf2:     Sf2(arg[p], p);
compl_w: completed[p] := TRUE; p := tmp;
         if (p # NULL) goto next_r; else goto take_x;
rel_w:   lock := 0; inside := inside - 1;
         if (count > served[self]) served[self] := count;
         Ret(<<arg[self]>>);
wait_r:  await completed[self] \/ lock = 0;
done_r:  if (completed[self]) { Ret(<<arg[self]>>); } else goto lock_r;
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "1d8f90bc" /\ chksum(tla) = "ef81051a")
VARIABLES pc, tail, next, completed, lock, arg, log, inside, served, mon, res, 
          i, p, tmp, k, count

vars == << pc, tail, next, completed, lock, arg, log, inside, served, mon, 
           res, i, p, tmp, k, count >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ tail = NULL
        /\ next = [n \in Nodes |-> NULL]
        /\ completed = [n \in Nodes |-> FALSE]
        /\ lock = 0
        /\ arg = [n \in Nodes |-> 0]
        /\ log = << >>
        /\ inside = 0
        /\ served = [t \in Threads |-> 0]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ p = [self \in Threads |-> 0]
        /\ tmp = [self \in Threads |-> 0]
        /\ k = [self \in Threads |-> 0]
        /\ count = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ mon' = mon
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ pc' = [pc EXCEPT ![self] = "ini_w"]
              /\ UNCHANGED << tail, next, completed, lock, arg, log, inside, 
                              served, res, i, p, tmp, k, count >>

ini_w(self) == /\ pc[self] = "ini_w"
               /\ arg' = [arg EXCEPT ![self] = Prog[self][i[self]][2]]
               /\ completed' = [completed EXCEPT ![self] = FALSE]
               /\ pc' = [pc EXCEPT ![self] = "top_r"]
               /\ UNCHANGED << tail, next, lock, log, inside, served, mon, res, 
                               i, p, tmp, k, count >>

top_r(self) == /\ pc[self] = "top_r"
               /\ next' = [next EXCEPT ![self] = tail]
               /\ pc' = [pc EXCEPT ![self] = "push_x"]
               /\ UNCHANGED << tail, completed, lock, arg, log, inside, served, 
                               mon, res, i, p, tmp, k, count >>

push_x(self) == /\ pc[self] = "push_x"
                /\ IF tail = next[self]
                      THEN /\ tail' = self
                           /\ pc' = [pc EXCEPT ![self] = "lock_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "top_r"]
                           /\ tail' = tail
                /\ UNCHANGED << next, completed, lock, arg, log, inside, 
                                served, mon, res, i, p, tmp, k, count >>

lock_r(self) == /\ pc[self] = "lock_r"
                /\ IF lock # 0
                      THEN /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "lock_x"]
                /\ UNCHANGED << tail, next, completed, lock, arg, log, inside, 
                                served, mon, res, i, p, tmp, k, count >>

lock_x(self) == /\ pc[self] = "lock_x"
                /\ IF lock # 0
                      THEN /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                           /\ UNCHANGED << lock, inside, count >>
                      ELSE /\ lock' = 1
                           /\ count' = [count EXCEPT ![self] = 0]
                           /\ inside' = inside + 1
                           /\ pc' = [pc EXCEPT ![self] = "take_x"]
                /\ UNCHANGED << tail, next, completed, arg, log, served, mon, 
                                res, i, p, tmp, k >>

take_x(self) == /\ pc[self] = "take_x"
                /\ IF count[self] >= HELP
                      THEN /\ pc' = [pc EXCEPT ![self] = "rel_w"]
                           /\ UNCHANGED << tail, p >>
                      ELSE /\ p' = [p EXCEPT ![self] = tail]
                           /\ tail' = NULL
                           /\ IF p'[self] = NULL
                                 THEN /\ pc' = [pc EXCEPT ![self] = "rel_w"]
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "next_r"]
                /\ UNCHANGED << next, completed, lock, arg, log, inside, 
                                served, mon, res, i, tmp, k, count >>

next_r(self) == /\ pc[self] = "next_r"
                /\ tmp' = [tmp EXCEPT ![self] = next[p[self]]]
                /\ count' = [count EXCEPT ![self] = count[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "sf1"]
                /\ UNCHANGED << tail, next, completed, lock, arg, log, inside, 
                                served, mon, res, i, p, k >>

sf1(self) == /\ pc[self] = "sf1"
             /\ k' = [k EXCEPT ![self] = Len(log)]
             /\ pc' = [pc EXCEPT ![self] = "sf2"]
             /\ UNCHANGED << tail, next, completed, lock, arg, log, inside, 
                             served, mon, res, i, p, tmp, count >>

sf2(self) == /\ pc[self] = "sf2"
             /\ log' = Append(SubSeq(log, 1, k[self]), (arg[p[self]]))
             /\ arg' = [arg EXCEPT ![p[self]] = k[self]]
             /\ pc' = [pc EXCEPT ![self] = "compl_w"]
             /\ UNCHANGED << tail, next, completed, lock, inside, served, mon, 
                             res, i, p, tmp, k, count >>

compl_w(self) == /\ pc[self] = "compl_w"
                 /\ completed' = [completed EXCEPT ![p[self]] = TRUE]
                 /\ p' = [p EXCEPT ![self] = tmp[self]]
                 /\ IF p'[self] # NULL
                       THEN /\ pc' = [pc EXCEPT ![self] = "next_r"]
                       ELSE /\ pc' = [pc EXCEPT ![self] = "take_x"]
                 /\ UNCHANGED << tail, next, lock, arg, log, inside, served, 
                                 mon, res, i, tmp, k, count >>

rel_w(self) == /\ pc[self] = "rel_w"
               /\ lock' = 0
               /\ inside' = inside - 1
               /\ IF count[self] > served[self]
                     THEN /\ served' = [served EXCEPT ![self] = count[self]]
                     ELSE /\ TRUE
                          /\ UNCHANGED served
               /\ mon' = MonRet(Kind, mon, self, (<<arg[self]>>))
               /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[self]>>))]
               /\ i' = [i EXCEPT ![self] = i[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "op_c"]
               /\ UNCHANGED << tail, next, completed, arg, log, p, tmp, k, 
                               count >>

wait_r(self) == /\ pc[self] = "wait_r"
                /\ completed[self] \/ lock = 0
                /\ pc' = [pc EXCEPT ![self] = "done_r"]
                /\ UNCHANGED << tail, next, completed, lock, arg, log, inside, 
                                served, mon, res, i, p, tmp, k, count >>

done_r(self) == /\ pc[self] = "done_r"
                /\ IF completed[self]
                      THEN /\ mon' = MonRet(Kind, mon, self, (<<arg[self]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[self]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "lock_r"]
                           /\ UNCHANGED << mon, res, i >>
                /\ UNCHANGED << tail, next, completed, lock, arg, log, inside, 
                                served, p, tmp, k, count >>

T(self) == op_c(self) \/ ini_w(self) \/ top_r(self) \/ push_x(self)
              \/ lock_r(self) \/ lock_x(self) \/ take_x(self)
              \/ next_r(self) \/ sf1(self) \/ sf2(self) \/ compl_w(self)
              \/ rel_w(self) \/ wait_r(self) \/ done_r(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
OneCombiner == inside <= 1
\* a list that has been taken is served to its end: a little more than HELP
Bounded == \A t \in Threads : served[t] <= HELP + Cardinality(Threads)
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
