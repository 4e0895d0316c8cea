------------------------------- MODULE AlgOsci --------------------------------
(* Combining for fibers, libconcurrent/concurrent/osci.c.  The fibers of one  *)
(* kernel thread put their requests into one group node: the first of them    *)
(* opens it (door), the others join, then the first closes the door and       *)
(* appends the node to the queue of groups.  The first fiber of a group to    *)
(* find itself unlocked but not completed serves the queue.                   *)
(* GROUPS[t] is the group (kernel thread) of fiber t.  The fibers of a group  *)
(* are modelled as ordinary processes: their interleaving at the yields of    *)
(* the real code is a subset of this.                                         *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG, HELP, FIBERS
Kind == "log"
Prog == LogProg[PROG]
Threads == DOMAIN Prog
Group(t) == (t - 1) \div FIBERS
Off(t) == (t - 1) % FIBERS
Groups == { Group(t) : t \in Threads }
Offs == 0..FIBERS - 1
Nodes == { <<t, b>> : t \in Threads, b \in {0, 1} }
NIL == <<0, 0>>
(* --algorithm Osci {
variables tail = NIL, current = [g \in Groups |-> NIL], next = [n \in Nodes |-> NIL], door = [n \in Nodes |-> "init"],
          locked = [n \in Nodes |-> [oo \in Offs |-> TRUE]], completed = [n \in Nodes |-> [oo \in Offs |-> TRUE]],
          arg = [n \in Nodes |-> [oo \in Offs |-> 0]],
          log = << >>, inside = 0,
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
process (T \in Threads)
variables i = 1, tog = 0, my = NIL, cur = NIL, pred = NIL, p = NIL, k = 0, count = 0, o = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done; else Call();
start:   my := <<self, tog>>;
         \* try to become the fiber that opens the group node, or join the open one
grab_x:  if (current[Group(self)] = NIL) { current[Group(self)] := my || cur := my; } else cur := current[Group(self)];
         if (cur # my) goto join_x; else tog := 1 - tog;
req_w:   arg[cur][Off(self)] := Prog[self][i][2]; locked[cur][Off(self)] := TRUE; completed[cur][Off(self)] := FALSE;
         next[cur] := NIL;
open_w:  door[cur] := "open";
free_w:  current[Group(self)] := NIL;
close_x: await door[cur] = "open"; door[cur] := "init";
swap_x:  pred := tail; tail := cur;
         if (pred = NIL) goto comb;
link_w:  next[pred] := cur; goto spin_r;
join_x:  if (door[cur] = "open") { door[cur] := "locked"; }
         else if (door[cur] = "init") goto start; else goto join_x;
jreq_w:  arg[cur][Off(self)] := Prog[self][i][2]; locked[cur][Off(self)] := TRUE; completed[cur][Off(self)] := FALSE;
jop_w:   door[cur] := "open";
spin_r:  await ~locked[cur][Off(self)];
help_r:  if (completed[cur][Off(self)]) { Ret(<<arg[cur][Off(self)]>>); };
comb:    p := cur; count := 0; inside := inside + 1;
rec0:    o := 0;
rec_r:   if (o = FIBERS) { count := count + FIBERS; goto nx1_r; } else if (completed[p][o]) { o := o + 1; goto rec_r; };
sf1:     k := Len(log);
sf2:     log := Append(SubSeq(log, 1, k), arg[p][o]); arg[p][o] := k;
compl_w: completed[p][o] := TRUE;
unl_w:   locked[p][o] := FALSE; o := o + 1; goto rec_r;
nx1_r:   if (next[p] = NIL \/ count >= HELP) goto end_r;
nx2_r:   if (next[next[p]] # NIL) { p := next[p]; goto rec0; };
end_r:   if (next[p] # NIL) goto pass;
         else if (tail # p) goto wait_r;
out_x:   if (tail = p) { tail := NIL; inside := inside - 1; Ret(<<arg[cur][Off(self)]>>); };
wait_r:  await next[p] # NIL;
pass:    o := 0;
pass_r:  if (completed[next[p]][o]) { o := o + 1; goto pass_r; };
pass_w:  locked[next[p]][o] := FALSE; inside := inside - 1;
         Ret(<<arg[cur][Off(self)]>>);
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, tail, current, next, door, locked, completed, arg, log, inside, 
          mon, res, i, tog, my, cur, pred, p, k, count, o

vars == << pc, tail, current, next, door, locked, completed, arg, log, inside, 
           mon, res, i, tog, my, cur, pred, p, k, count, o >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ tail = NIL
        /\ current = [g \in Groups |-> NIL]
        /\ next = [n \in Nodes |-> NIL]
        /\ door = [n \in Nodes |-> "init"]
        /\ locked = [n \in Nodes |-> [oo \in Offs |-> TRUE]]
        /\ completed = [n \in Nodes |-> [oo \in Offs |-> TRUE]]
        /\ arg = [n \in Nodes |-> [oo \in Offs |-> 0]]
        /\ log = << >>
        /\ inside = 0
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ tog = [self \in Threads |-> 0]
        /\ my = [self \in Threads |-> NIL]
        /\ cur = [self \in Threads |-> NIL]
        /\ pred = [self \in Threads |-> NIL]
        /\ p = [self \in Threads |-> NIL]
        /\ k = [self \in Threads |-> 0]
        /\ count = [self \in Threads |-> 0]
        /\ o = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ mon' = mon
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ pc' = [pc EXCEPT ![self] = "start"]
              /\ UNCHANGED << tail, current, next, door, locked, completed, 
                              arg, log, inside, res, i, tog, my, cur, pred, p, 
                              k, count, o >>

start(self) == /\ pc[self] = "start"
               /\ my' = [my EXCEPT ![self] = <<self, tog[self]>>]
               /\ pc' = [pc EXCEPT ![self] = "grab_x"]
               /\ UNCHANGED << tail, current, next, door, locked, completed, 
                               arg, log, inside, mon, res, i, tog, cur, pred, 
                               p, k, count, o >>

grab_x(self) == /\ pc[self] = "grab_x"
                /\ IF current[Group(self)] = NIL
                      THEN /\ /\ cur' = [cur EXCEPT ![self] = my[self]]
                              /\ current' = [current EXCEPT ![Group(self)] = my[self]]
                      ELSE /\ cur' = [cur EXCEPT ![self] = current[Group(self)]]
                           /\ UNCHANGED current
                /\ IF cur'[self] # my[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "join_x"]
                           /\ tog' = tog
                      ELSE /\ tog' = [tog EXCEPT ![self] = 1 - tog[self]]
                           /\ pc' = [pc EXCEPT ![self] = "req_w"]
                /\ UNCHANGED << tail, next, door, locked, completed, arg, log, 
                                inside, mon, res, i, my, pred, p, k, count, o >>

req_w(self) == /\ pc[self] = "req_w"
               /\ arg' = [arg EXCEPT ![cur[self]][Off(self)] = Prog[self][i[self]][2]]
               /\ locked' = [locked EXCEPT ![cur[self]][Off(self)] = TRUE]
               /\ completed' = [completed EXCEPT ![cur[self]][Off(self)] = FALSE]
               /\ next' = [next EXCEPT ![cur[self]] = NIL]
               /\ pc' = [pc EXCEPT ![self] = "open_w"]
               /\ UNCHANGED << tail, current, door, log, inside, mon, res, i, 
                               tog, my, cur, pred, p, k, count, o >>

open_w(self) == /\ pc[self] = "open_w"
                /\ door' = [door EXCEPT ![cur[self]] = "open"]
                /\ pc' = [pc EXCEPT ![self] = "free_w"]
                /\ UNCHANGED << tail, current, next, locked, completed, arg, 
                                log, inside, mon, res, i, tog, my, cur, pred, 
                                p, k, count, o >>

free_w(self) == /\ pc[self] = "free_w"
                /\ current' = [current EXCEPT ![Group(self)] = NIL]
                /\ pc' = [pc EXCEPT ![self] = "close_x"]
                /\ UNCHANGED << tail, next, door, locked, completed, arg, log, 
                                inside, mon, res, i, tog, my, cur, pred, p, k, 
                                count, o >>

close_x(self) == /\ pc[self] = "close_x"
                 /\ door[cur[self]] = "open"
                 /\ door' = [door EXCEPT ![cur[self]] = "init"]
                 /\ pc' = [pc EXCEPT ![self] = "swap_x"]
                 /\ UNCHANGED << tail, current, next, locked, completed, arg, 
                                 log, inside, mon, res, i, tog, my, cur, pred, 
                                 p, k, count, o >>

swap_x(self) == /\ pc[self] = "swap_x"
                /\ pred' = [pred EXCEPT ![self] = tail]
                /\ tail' = cur[self]
                /\ IF pred'[self] = NIL
                      THEN /\ pc' = [pc EXCEPT ![self] = "comb"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "link_w"]
                /\ UNCHANGED << current, next, door, locked, completed, arg, 
                                log, inside, mon, res, i, tog, my, cur, p, k, 
                                count, o >>

link_w(self) == /\ pc[self] = "link_w"
                /\ next' = [next EXCEPT ![pred[self]] = cur[self]]
                /\ pc' = [pc EXCEPT ![self] = "spin_r"]
                /\ UNCHANGED << tail, current, door, locked, completed, arg, 
                                log, inside, mon, res, i, tog, my, cur, pred, 
                                p, k, count, o >>

join_x(self) == /\ pc[self] = "join_x"
                /\ IF door[cur[self]] = "open"
                      THEN /\ door' = [door EXCEPT ![cur[self]] = "locked"]
                           /\ pc' = [pc EXCEPT ![self] = "jreq_w"]
                      ELSE /\ IF door[cur[self]] = "init"
                                 THEN /\ pc' = [pc EXCEPT ![self] = "start"]
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "join_x"]
                           /\ door' = door
                /\ UNCHANGED << tail, current, next, locked, completed, arg, 
                                log, inside, mon, res, i, tog, my, cur, pred, 
                                p, k, count, o >>

jreq_w(self) == /\ pc[self] = "jreq_w"
                /\ arg' = [arg EXCEPT ![cur[self]][Off(self)] = Prog[self][i[self]][2]]
                /\ locked' = [locked EXCEPT ![cur[self]][Off(self)] = TRUE]
                /\ completed' = [completed EXCEPT ![cur[self]][Off(self)] = FALSE]
                /\ pc' = [pc EXCEPT ![self] = "jop_w"]
                /\ UNCHANGED << tail, current, next, door, log, inside, mon, 
                                res, i, tog, my, cur, pred, p, k, count, o >>

jop_w(self) == /\ pc[self] = "jop_w"
               /\ door' = [door EXCEPT ![cur[self]] = "open"]
               /\ pc' = [pc EXCEPT ![self] = "spin_r"]
               /\ UNCHANGED << tail, current, next, locked, completed, arg, 
                               log, inside, mon, res, i, tog, my, cur, pred, p, 
                               k, count, o >>

spin_r(self) == /\ pc[self] = "spin_r"
                /\ ~locked[cur[self]][Off(self)]
                /\ pc' = [pc EXCEPT ![self] = "help_r"]
                /\ UNCHANGED << tail, current, next, door, locked, completed, 
                                arg, log, inside, mon, res, i, tog, my, cur, 
                                pred, p, k, count, o >>

help_r(self) == /\ pc[self] = "help_r"
                /\ IF completed[cur[self]][Off(self)]
                      THEN /\ mon' = MonRet(Kind, mon, self, (<<arg[cur[self]][Off(self)]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[cur[self]][Off(self)]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "comb"]
                           /\ UNCHANGED << mon, res, i >>
                /\ UNCHANGED << tail, current, next, door, locked, completed, 
                                arg, log, inside, tog, my, cur, pred, p, k, 
                                count, o >>

comb(self) == /\ pc[self] = "comb"
              /\ p' = [p EXCEPT ![self] = cur[self]]
              /\ count' = [count EXCEPT ![self] = 0]
              /\ inside' = inside + 1
              /\ pc' = [pc EXCEPT ![self] = "rec0"]
              /\ UNCHANGED << tail, current, next, door, locked, completed, 
                              arg, log, mon, res, i, tog, my, cur, pred, k, o >>

rec0(self) == /\ pc[self] = "rec0"
              /\ o' = [o EXCEPT ![self] = 0]
              /\ pc' = [pc EXCEPT ![self] = "rec_r"]
              /\ UNCHANGED << tail, current, next, door, locked, completed, 
                              arg, log, inside, mon, res, i, tog, my, cur, 
                              pred, p, k, count >>

rec_r(self) == /\ pc[self] = "rec_r"
               /\ IF o[self] = FIBERS
                     THEN /\ count' = [count EXCEPT ![self] = count[self] + FIBERS]
                          /\ pc' = [pc EXCEPT ![self] = "nx1_r"]
                          /\ o' = o
                     ELSE /\ IF completed[p[self]][o[self]]
                                THEN /\ o' = [o EXCEPT ![self] = o[self] + 1]
                                     /\ pc' = [pc EXCEPT ![self] = "rec_r"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "sf1"]
                                     /\ o' = o
                          /\ count' = count
               /\ UNCHANGED << tail, current, next, door, locked, completed, 
                               arg, log, inside, mon, res, i, tog, my, cur, 
                               pred, p, k >>

sf1(self) == /\ pc[self] = "sf1"
             /\ k' = [k EXCEPT ![self] = Len(log)]
             /\ pc' = [pc EXCEPT ![self] = "sf2"]
             /\ UNCHANGED << tail, current, next, door, locked, completed, arg, 
                             log, inside, mon, res, i, tog, my, cur, pred, p, 
                             count, o >>

sf2(self) == /\ pc[self] = "sf2"
             /\ log' = Append(SubSeq(log, 1, k[self]), arg[p[self]][o[self]])
             /\ arg' = [arg EXCEPT ![p[self]][o[self]] = k[self]]
             /\ pc' = [pc EXCEPT ![self] = "compl_w"]
             /\ UNCHANGED << tail, current, next, door, locked, completed, 
                             inside, mon, res, i, tog, my, cur, pred, p, k, 
                             count, o >>

compl_w(self) == /\ pc[self] = "compl_w"
                 /\ completed' = [completed EXCEPT ![p[self]][o[self]] = TRUE]
                 /\ pc' = [pc EXCEPT ![self] = "unl_w"]
                 /\ UNCHANGED << tail, current, next, door, locked, arg, log, 
                                 inside, mon, res, i, tog, my, cur, pred, p, k, 
                                 count, o >>

unl_w(self) == /\ pc[self] = "unl_w"
               /\ locked' = [locked EXCEPT ![p[self]][o[self]] = FALSE]
               /\ o' = [o EXCEPT ![self] = o[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "rec_r"]
               /\ UNCHANGED << tail, current, next, door, completed, arg, log, 
                               inside, mon, res, i, tog, my, cur, pred, p, k, 
                               count >>

nx1_r(self) == /\ pc[self] = "nx1_r"
               /\ IF next[p[self]] = NIL \/ count[self] >= HELP
                     THEN /\ pc' = [pc EXCEPT ![self] = "end_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "nx2_r"]
               /\ UNCHANGED << tail, current, next, door, locked, completed, 
                               arg, log, inside, mon, res, i, tog, my, cur, 
                               pred, p, k, count, o >>

nx2_r(self) == /\ pc[self] = "nx2_r"
               /\ IF next[next[p[self]]] # NIL
                     THEN /\ p' = [p EXCEPT ![self] = next[p[self]]]
                          /\ pc' = [pc EXCEPT ![self] = "rec0"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "end_r"]
                          /\ p' = p
               /\ UNCHANGED << tail, current, next, door, locked, completed, 
                               arg, log, inside, mon, res, i, tog, my, cur, 
                               pred, k, count, o >>

end_r(self) == /\ pc[self] = "end_r"
               /\ IF next[p[self]] # NIL
                     THEN /\ pc' = [pc EXCEPT ![self] = "pass"]
                     ELSE /\ IF tail # p[self]
                                THEN /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "out_x"]
               /\ UNCHANGED << tail, current, next, door, locked, completed, 
                               arg, log, inside, mon, res, i, tog, my, cur, 
                               pred, p, k, count, o >>

out_x(self) == /\ pc[self] = "out_x"
               /\ IF tail = p[self]
                     THEN /\ tail' = NIL
                          /\ inside' = inside - 1
                          /\ mon' = MonRet(Kind, mon, self, (<<arg[cur[self]][Off(self)]>>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[cur[self]][Off(self)]>>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                          /\ UNCHANGED << tail, inside, mon, res, i >>
               /\ UNCHANGED << current, next, door, locked, completed, arg, 
                               log, tog, my, cur, pred, p, k, count, o >>

wait_r(self) == /\ pc[self] = "wait_r"
                /\ next[p[self]] # NIL
                /\ pc' = [pc EXCEPT ![self] = "pass"]
                /\ UNCHANGED << tail, current, next, door, locked, completed, 
                                arg, log, inside, mon, res, i, tog, my, cur, 
                                pred, p, k, count, o >>

pass(self) == /\ pc[self] = "pass"
              /\ o' = [o EXCEPT ![self] = 0]
              /\ pc' = [pc EXCEPT ![self] = "pass_r"]
              /\ UNCHANGED << tail, current, next, door, locked, completed, 
                              arg, log, inside, mon, res, i, tog, my, cur, 
                              pred, p, k, count >>

pass_r(self) == /\ pc[self] = "pass_r"
                /\ IF completed[next[p[self]]][o[self]]
                      THEN /\ o' = [o EXCEPT ![self] = o[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "pass_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "pass_w"]
                           /\ o' = o
                /\ UNCHANGED << tail, current, next, door, locked, completed, 
                                arg, log, inside, mon, res, i, tog, my, cur, 
                                pred, p, k, count >>

pass_w(self) == /\ pc[self] = "pass_w"
                /\ locked' = [locked EXCEPT ![next[p[self]]][o[self]] = FALSE]
                /\ inside' = inside - 1
                /\ mon' = MonRet(Kind, mon, self, (<<arg[cur[self]][Off(self)]>>))
                /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[cur[self]][Off(self)]>>))]
                /\ i' = [i EXCEPT ![self] = i[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "op_c"]
                /\ UNCHANGED << tail, current, next, door, completed, arg, log, 
                                tog, my, cur, pred, p, k, count, o >>

T(self) == op_c(self) \/ start(self) \/ grab_x(self) \/ req_w(self)
              \/ open_w(self) \/ free_w(self) \/ close_x(self)
              \/ swap_x(self) \/ link_w(self) \/ join_x(self)
              \/ jreq_w(self) \/ jop_w(self) \/ spin_r(self)
              \/ help_r(self) \/ comb(self) \/ rec0(self) \/ rec_r(self)
              \/ sf1(self) \/ sf2(self) \/ compl_w(self) \/ unl_w(self)
              \/ nx1_r(self) \/ nx2_r(self) \/ end_r(self) \/ out_x(self)
              \/ wait_r(self) \/ pass(self) \/ pass_r(self) \/ pass_w(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
OneCombiner == inside <= 1
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
