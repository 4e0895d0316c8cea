------------------------------ MODULE AlgDSMSynch ------------------------------
(* The combining technique of libconcurrent/concurrent/dsmsynch.c: as CCSynch, *)
(* but every thread spins on its own node (two nodes per thread, used in      *)
(* turn); an empty queue is a null tail, a combiner that sees the end of the  *)
(* queue has to take its node out again.                                      *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG
Kind == "log"
Prog == LogProg[PROG]
Threads == DOMAIN Prog
NULL == -1
CONSTANT HELP
Nodes == { <<t, b>> : t \in Threads, b \in {0, 1} }
NIL == <<0, 0>>
(* --algorithm DSMSynch {
variables tail = NIL, next = [n \in Nodes |-> NIL], locked = [n \in Nodes |-> FALSE], completed = [n \in Nodes |-> FALSE],
          arg = [n \in Nodes |-> 0], log = << >>, inside = 0, served = [t \in Threads |-> 0],
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
  macro Sf1() { k := Len(log); }
  macro Sf2(a, q) { log := Append(SubSeq(log, 1, k), a); arg[q] := k; }
process (T \in Threads)
variables i = 1, tog = 0, my = NIL, pred = NIL, p = NIL, k = 0, count = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done;
         else { Call(); tog := 1 - tog; };
ini_w:   my := <<self, tog>>;
         next[my] := NIL; arg[my] := Prog[self][i][2]; locked[my] := TRUE; completed[my] := FALSE;
swap_x:  pred := tail; tail := my; p := my; count := 0;
         if (pred = NIL) { inside := inside + 1; goto sf1; };
link_w:  next[pred] := my;
spin_r:  await ~locked[my];
help_r:  if (completed[my]) { Ret(<<arg[my]>>); } else { inside := inside + 1; };
sf1:     Sf1(); count := count + 1;
sf2:     Sf2(arg[p], p);
compl_w: completed[p] := TRUE;
unl_w:   locked[p] := FALSE;
nx1_r:   if (next[p] = NIL \/ count >= HELP) { goto end_r; };
nx2_r:   if (next[next[p]] # NIL) { p := next[p]; goto sf1; };
end_r:   if (next[p] # NIL) goto pass_w;
         else if (tail # p) goto wait_r;
out_x:   if (tail = p) {
           tail := NIL; inside := inside - 1;
           if (count > served[self]) served[self] := count;
           Ret(<<arg[my]>>);
         };
wait_r:  await next[p] # NIL;
pass_w:  inside := inside - 1;
         if (count > served[self]) served[self] := count;
         locked[next[p]] := FALSE;
         Ret(<<arg[my]>>);
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "ac460dbf" /\ chksum(tla) = "9907a83a")
VARIABLES pc, tail, next, locked, completed, arg, log, inside, served, mon, 
          res, i, tog, my, pred, p, k, count

vars == << pc, tail, next, locked, completed, arg, log, inside, served, mon, 
           res, i, tog, my, pred, p, k, count >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ tail = NIL
        /\ next = [n \in Nodes |-> NIL]
        /\ locked = [n \in Nodes |-> FALSE]
        /\ completed = [n \in Nodes |-> FALSE]
        /\ arg = [n \in Nodes |-> 0]
        /\ log = << >>
        /\ inside = 0
        /\ served = [t \in Threads |-> 0]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ tog = [self \in Threads |-> 0]
        /\ my = [self \in Threads |-> NIL]
        /\ pred = [self \in Threads |-> NIL]
        /\ p = [self \in Threads |-> NIL]
        /\ k = [self \in Threads |-> 0]
        /\ count = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << mon, tog >>
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ tog' = [tog EXCEPT ![self] = 1 - tog[self]]
                         /\ pc' = [pc EXCEPT ![self] = "ini_w"]
              /\ UNCHANGED << tail, next, locked, completed, arg, log, inside, 
                              served, res, i, my, pred, p, k, count >>

ini_w(self) == /\ pc[self] = "ini_w"
               /\ my' = [my EXCEPT ![self] = <<self, tog[self]>>]
               /\ next' = [next EXCEPT ![my'[self]] = NIL]
               /\ arg' = [arg EXCEPT ![my'[self]] = Prog[self][i[self]][2]]
               /\ locked' = [locked EXCEPT ![my'[self]] = TRUE]
               /\ completed' = [completed EXCEPT ![my'[self]] = FALSE]
               /\ pc' = [pc EXCEPT ![self] = "swap_x"]
               /\ UNCHANGED << tail, log, inside, served, mon, res, i, tog, 
                               pred, p, k, count >>

swap_x(self) == /\ pc[self] = "swap_x"
                /\ pred' = [pred EXCEPT ![self] = tail]
                /\ tail' = my[self]
                /\ p' = [p EXCEPT ![self] = my[self]]
                /\ count' = [count EXCEPT ![self] = 0]
                /\ IF pred'[self] = NIL
                      THEN /\ inside' = inside + 1
                           /\ pc' = [pc EXCEPT ![self] = "sf1"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "link_w"]
                           /\ UNCHANGED inside
                /\ UNCHANGED << next, locked, completed, arg, log, served, mon, 
                                res, i, tog, my, k >>

link_w(self) == /\ pc[self] = "link_w"
                /\ next' = [next EXCEPT ![pred[self]] = my[self]]
                /\ pc' = [pc EXCEPT ![self] = "spin_r"]
                /\ UNCHANGED << tail, locked, completed, arg, log, inside, 
                                served, mon, res, i, tog, my, pred, p, k, 
                                count >>

spin_r(self) == /\ pc[self] = "spin_r"
                /\ ~locked[my[self]]
                /\ pc' = [pc EXCEPT ![self] = "help_r"]
                /\ UNCHANGED << tail, next, locked, completed, arg, log, 
                                inside, served, mon, res, i, tog, my, pred, p, 
                                k, count >>

help_r(self) == /\ pc[self] = "help_r"
                /\ IF completed[my[self]]
                      THEN /\ mon' = MonRet(Kind, mon, self, (<<arg[my[self]]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[my[self]]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                           /\ UNCHANGED inside
                      ELSE /\ inside' = inside + 1
                           /\ pc' = [pc EXCEPT ![self] = "sf1"]
                           /\ UNCHANGED << mon, res, i >>
                /\ UNCHANGED << tail, next, locked, completed, arg, log, 
                                served, tog, my, pred, p, k, count >>

sf1(self) == /\ pc[self] = "sf1"
             /\ k' = [k EXCEPT ![self] = Len(log)]
             /\ count' = [count EXCEPT ![self] = count[self] + 1]
             /\ pc' = [pc EXCEPT ![self] = "sf2"]
             /\ UNCHANGED << tail, next, locked, completed, arg, log, inside, 
                             served, mon, res, i, tog, my, pred, p >>

sf2(self) == /\ pc[self] = "sf2"
             /\ log' = Append(SubSeq(log, 1, k[self]), (arg[p[self]]))
             /\ arg' = [arg EXCEPT ![p[self]] = k[self]]
             /\ pc' = [pc EXCEPT ![self] = "compl_w"]
             /\ UNCHANGED << tail, next, locked, completed, inside, served, 
                             mon, res, i, tog, my, pred, p, k, count >>

compl_w(self) == /\ pc[self] = "compl_w"
                 /\ completed' = [completed EXCEPT ![p[self]] = TRUE]
                 /\ pc' = [pc EXCEPT ![self] = "unl_w"]
                 /\ UNCHANGED << tail, next, locked, arg, log, inside, served, 
                                 mon, res, i, tog, my, pred, p, k, count >>

unl_w(self) == /\ pc[self] = "unl_w"
               /\ locked' = [locked EXCEPT ![p[self]] = FALSE]
               /\ pc' = [pc EXCEPT ![self] = "nx1_r"]
               /\ UNCHANGED << tail, next, completed, arg, log, inside, served, 
                               mon, res, i, tog, my, pred, p, k, count >>

nx1_r(self) == /\ pc[self] = "nx1_r"
               /\ IF next[p[self]] = NIL \/ count[self] >= HELP
                     THEN /\ pc' = [pc EXCEPT ![self] = "end_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "nx2_r"]
               /\ UNCHANGED << tail, next, locked, completed, arg, log, inside, 
                               served, mon, res, i, tog, my, pred, p, k, count >>

nx2_r(self) == /\ pc[self] = "nx2_r"
               /\ IF next[next[p[self]]] # NIL
                     THEN /\ p' = [p EXCEPT ![self] = next[p[self]]]
                          /\ pc' = [pc EXCEPT ![self] = "sf1"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "end_r"]
                          /\ p' = p
               /\ UNCHANGED << tail, next, locked, completed, arg, log, inside, 
                               served, mon, res, i, tog, my, pred, k, count >>

end_r(self) == /\ pc[self] = "end_r"
               /\ IF next[p[self]] # NIL
                     THEN /\ pc' = [pc EXCEPT ![self] = "pass_w"]
                     ELSE /\ IF tail # p[self]
                                THEN /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "out_x"]
               /\ UNCHANGED << tail, next, locked, completed, arg, log, inside, 
                               served, mon, res, i, tog, my, pred, p, k, count >>

out_x(self) == /\ pc[self] = "out_x"
               /\ IF tail = p[self]
                     THEN /\ tail' = NIL
                          /\ inside' = inside - 1
                          /\ IF count[self] > served[self]
                                THEN /\ served' = [served EXCEPT ![self] = count[self]]
                                ELSE /\ TRUE
                                     /\ UNCHANGED served
                          /\ mon' = MonRet(Kind, mon, self, (<<arg[my[self]]>>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[my[self]]>>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                          /\ UNCHANGED << tail, inside, served, mon, res, i >>
               /\ UNCHANGED << next, locked, completed, arg, log, tog, my, 
                               pred, p, k, count >>

wait_r(self) == /\ pc[self] = "wait_r"
                /\ next[p[self]] # NIL
                /\ pc' = [pc EXCEPT ![self] = "pass_w"]
                /\ UNCHANGED << tail, next, locked, completed, arg, log, 
                                inside, served, mon, res, i, tog, my, pred, p, 
                                k, count >>

pass_w(self) == /\ pc[self] = "pass_w"
                /\ inside' = inside - 1
                /\ IF count[self] > served[self]
                      THEN /\ served' = [served EXCEPT ![self] = count[self]]
                      ELSE /\ TRUE
                           /\ UNCHANGED served
                /\ locked' = [locked EXCEPT ![next[p[self]]] = FALSE]
                /\ mon' = MonRet(Kind, mon, self, (<<arg[my[self]]>>))
                /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[my[self]]>>))]
                /\ i' = [i EXCEPT ![self] = i[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "op_c"]
                /\ UNCHANGED << tail, next, completed, arg, log, tog, my, pred, 
                                p, k, count >>

T(self) == op_c(self) \/ ini_w(self) \/ swap_x(self) \/ link_w(self)
              \/ spin_r(self) \/ help_r(self) \/ sf1(self) \/ sf2(self)
              \/ compl_w(self) \/ unl_w(self) \/ nx1_r(self) \/ nx2_r(self)
              \/ end_r(self) \/ out_x(self) \/ wait_r(self) \/ pass_w(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
OneCombiner == inside <= 1
Bounded == \A t \in Threads : served[t] <= HELP
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
