------------------------------ MODULE AlgCCSynch ------------------------------
(* The combining technique of libconcurrent/concurrent/ccsynch.c: a queue of  *)
(* requests, a swap on the tail hands the spare node of the caller to its     *)
(* successor; whoever finds its node unlocked but not completed is the        *)
(* combiner and serves the queue (at most HELP requests), then unlocks the    *)
(* next node.  The shared sequential object is a log that is not atomic.      *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG
Kind == "log"
Prog == LogProg[PROG]
Threads == DOMAIN Prog
NULL == -1
CONSTANT HELP
Nodes == {0} \cup Threads
(* --algorithm CCSynch {
variables tail = 0, next = [n \in Nodes |-> NULL], locked = [n \in Nodes |-> FALSE], completed = [n \in Nodes |-> FALSE],
          arg = [n \in Nodes |-> 0], log = << >>, inside = 0, served = [t \in Threads |-> 0],
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
  macro Sf1() { k := Len(log); }
  macro Sf2(a, q) { log := Append(SubSeq(log, 1, k), a); arg[q] := k; }
process (T \in Threads)
variables i = 1, mine = self, cur = 0, p = 0, tmp = 0, k = 0, count = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done; else Call();
ini_w:   next[mine] := NULL; locked[mine] := TRUE; completed[mine] := FALSE;
swap_x:  cur := tail; tail := mine;
arg_w:   arg[cur] := Prog[self][i][2];
link_w:  next[cur] := mine || mine := cur;
spin_r:  await ~locked[cur];
help_r:  if (completed[cur]) { Ret(<<arg[cur]>>); }
         else { p := cur; count := 0; inside := inside + 1; };
comb_r:  if (next[p] = NULL \/ count >= HELP) goto last_w;
         else { tmp := next[p]; count := count + 1; };
sf1:     Sf1();
sf2:     Sf2(arg[p], p);
compl_w: completed[p] := TRUE;
unl_w:   locked[p] := FALSE; p := tmp; goto comb_r;
last_w:  locked[p] := FALSE; inside := inside - 1;
         if (count > served[self]) served[self] := count;
         Ret(<<arg[cur]>>);
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "baa5162a" /\ chksum(tla) = "dd1b3541")
VARIABLES pc, tail, next, locked, completed, arg, log, inside, served, mon, 
          res, i, mine, cur, p, tmp, k, count

vars == << pc, tail, next, locked, completed, arg, log, inside, served, mon, 
           res, i, mine, cur, p, tmp, k, count >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ tail = 0
        /\ next = [n \in Nodes |-> NULL]
        /\ locked = [n \in Nodes |-> FALSE]
        /\ completed = [n \in Nodes |-> FALSE]
        /\ arg = [n \in Nodes |-> 0]
        /\ log = << >>
        /\ inside = 0
        /\ served = [t \in Threads |-> 0]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ mine = [self \in Threads |-> self]
        /\ cur = [self \in Threads |-> 0]
        /\ p = [self \in Threads |-> 0]
        /\ tmp = [self \in Threads |-> 0]
        /\ k = [self \in Threads |-> 0]
        /\ count = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ mon' = mon
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ pc' = [pc EXCEPT ![self] = "ini_w"]
              /\ UNCHANGED << tail, next, locked, completed, arg, log, inside, 
                              served, res, i, mine, cur, p, tmp, k, count >>

ini_w(self) == /\ pc[self] = "ini_w"
               /\ next' = [next EXCEPT ![mine[self]] = NULL]
               /\ locked' = [locked EXCEPT ![mine[self]] = TRUE]
               /\ completed' = [completed EXCEPT ![mine[self]] = FALSE]
               /\ pc' = [pc EXCEPT ![self] = "swap_x"]
               /\ UNCHANGED << tail, arg, log, inside, served, mon, res, i, 
                               mine, cur, p, tmp, k, count >>

swap_x(self) == /\ pc[self] = "swap_x"
                /\ cur' = [cur EXCEPT ![self] = tail]
                /\ tail' = mine[self]
                /\ pc' = [pc EXCEPT ![self] = "arg_w"]
                /\ UNCHANGED << next, locked, completed, arg, log, inside, 
                                served, mon, res, i, mine, p, tmp, k, count >>

arg_w(self) == /\ pc[self] = "arg_w"
               /\ arg' = [arg EXCEPT ![cur[self]] = Prog[self][i[self]][2]]
               /\ pc' = [pc EXCEPT ![self] = "link_w"]
               /\ UNCHANGED << tail, next, locked, completed, log, inside, 
                               served, mon, res, i, mine, cur, p, tmp, k, 
                               count >>

link_w(self) == /\ pc[self] = "link_w"
                /\ /\ mine' = [mine EXCEPT ![self] = cur[self]]
                   /\ next' = [next EXCEPT ![cur[self]] = mine[self]]
                /\ pc' = [pc EXCEPT ![self] = "spin_r"]
                /\ UNCHANGED << tail, locked, completed, arg, log, inside, 
                                served, mon, res, i, cur, p, tmp, k, count >>

spin_r(self) == /\ pc[self] = "spin_r"
                /\ ~locked[cur[self]]
                /\ pc' = [pc EXCEPT ![self] = "help_r"]
                /\ UNCHANGED << tail, next, locked, completed, arg, log, 
                                inside, served, mon, res, i, mine, cur, p, tmp, 
                                k, count >>

help_r(self) == /\ pc[self] = "help_r"
                /\ IF completed[cur[self]]
                      THEN /\ mon' = MonRet(Kind, mon, self, (<<arg[cur[self]]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[cur[self]]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                           /\ UNCHANGED << inside, p, count >>
                      ELSE /\ p' = [p EXCEPT ![self] = cur[self]]
                           /\ count' = [count EXCEPT ![self] = 0]
                           /\ inside' = inside + 1
                           /\ pc' = [pc EXCEPT ![self] = "comb_r"]
                           /\ UNCHANGED << mon, res, i >>
                /\ UNCHANGED << tail, next, locked, completed, arg, log, 
                                served, mine, cur, tmp, k >>

comb_r(self) == /\ pc[self] = "comb_r"
                /\ IF next[p[self]] = NULL \/ count[self] >= HELP
                      THEN /\ pc' = [pc EXCEPT ![self] = "last_w"]
                           /\ UNCHANGED << tmp, count >>
                      ELSE /\ tmp' = [tmp EXCEPT ![self] = next[p[self]]]
                           /\ count' = [count EXCEPT ![self] = count[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "sf1"]
                /\ UNCHANGED << tail, next, locked, completed, arg, log, 
                                inside, served, mon, res, i, mine, cur, p, k >>

sf1(self) == /\ pc[self] = "sf1"
             /\ k' = [k EXCEPT ![self] = Len(log)]
             /\ pc' = [pc EXCEPT ![self] = "sf2"]
             /\ UNCHANGED << tail, next, locked, completed, arg, log, inside, 
                             served, mon, res, i, mine, cur, p, tmp, count >>

sf2(self) == /\ pc[self] = "sf2"
             /\ log' = Append(SubSeq(log, 1, k[self]), (arg[p[self]]))
             /\ arg' = [arg EXCEPT ![p[self]] = k[self]]
             /\ pc' = [pc EXCEPT ![self] = "compl_w"]
             /\ UNCHANGED << tail, next, locked, completed, inside, served, 
                             mon, res, i, mine, cur, p, tmp, k, count >>

compl_w(self) == /\ pc[self] = "compl_w"
                 /\ completed' = [completed EXCEPT ![p[self]] = TRUE]
                 /\ pc' = [pc EXCEPT ![self] = "unl_w"]
                 /\ UNCHANGED << tail, next, locked, arg, log, inside, served, 
                                 mon, res, i, mine, cur, p, tmp, k, count >>

unl_w(self) == /\ pc[self] = "unl_w"
               /\ locked' = [locked EXCEPT ![p[self]] = FALSE]
               /\ p' = [p EXCEPT ![self] = tmp[self]]
               /\ pc' = [pc EXCEPT ![self] = "comb_r"]
               /\ UNCHANGED << tail, next, completed, arg, log, inside, served, 
                               mon, res, i, mine, cur, tmp, k, count >>

last_w(self) == /\ pc[self] = "last_w"
                /\ locked' = [locked EXCEPT ![p[self]] = FALSE]
                /\ inside' = inside - 1
                /\ IF count[self] > served[self]
                      THEN /\ served' = [served EXCEPT ![self] = count[self]]
                      ELSE /\ TRUE
                           /\ UNCHANGED served
                /\ mon' = MonRet(Kind, mon, self, (<<arg[cur[self]]>>))
                /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[cur[self]]>>))]
                /\ i' = [i EXCEPT ![self] = i[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "op_c"]
                /\ UNCHANGED << tail, next, completed, arg, log, mine, cur, p, 
                                tmp, k, count >>

T(self) == op_c(self) \/ ini_w(self) \/ swap_x(self) \/ arg_w(self)
              \/ link_w(self) \/ spin_r(self) \/ help_r(self)
              \/ comb_r(self) \/ sf1(self) \/ sf2(self) \/ compl_w(self)
              \/ unl_w(self) \/ last_w(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
\* one combiner at a time, and nobody serves more than HELP requests in one go
OneCombiner == inside <= 1
Bounded == \A t \in Threads : served[t] <= HELP
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
