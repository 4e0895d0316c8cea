------------------------------ MODULE AlgFC ------------------------------
(* Flat combining, libconcurrent/concurrent/fc.c: every thread owns a record  *)
(* that it puts into the publication list once; the owner of the lock scans   *)
(* the list ROUNDS times and serves every pending record.                     *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG
Kind == "log"
Prog == LogProg[PROG]
Threads == DOMAIN Prog
NULL == -1
CONSTANT ROUNDS
Nodes == Threads
(* --algorithm FC {
variables head = NULL, next = [n \in Nodes |-> NULL], pending = [n \in Nodes |-> FALSE], active = [n \in Nodes |-> FALSE], lock = 0,
          arg = [n \in Nodes |-> 0], log = << >>, inside = 0, served = [t \in Threads |-> 0],
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
  macro Sf1() { k := Len(log); }
  macro Sf2(a, q) { log := Append(SubSeq(log, 1, k), a); arg[q] := k; }
process (T \in Threads)
variables i = 1, cur = 0, k = 0, count = 0, round = 0, owner = FALSE;
{
op_c:    if (i > Len(Prog[self])) goto Done; else { Call(); owner := FALSE; count := 0; round := 0; };
val_w:   arg[self] := Prog[self][i][2];
pend_w:  pending[self] := TRUE;
lock_r:  if (lock # 0) goto wait_r;
lock_x:  if (lock # 0) goto wait_r; else { lock := 1; owner := TRUE; inside := inside + 1; goto act_r; };
wait_r:  await lock = 0 \/ ~pending[self] \/ ~active[self];
done_r:  if (~pending[self]) { Ret(<<arg[self]>>); } else if (active[self]) goto lock_r;
enl_w:   active[self] := TRUE;
enh_r:   next[self] := head;
enc_x:   if (head = next[self]) { head := self; } else goto enh_r;
enr:     if (owner) goto scan_r; else goto lock_r;
act_r:   if (~active[self]) goto enl_w;
scan_r:  cur := head;
rec_r:   if (cur = NULL) { round := round + 1; if (round < ROUNDS) goto scan_r; else goto rel_w; }
         else if (~pending[cur]) { cur := next[cur]; goto rec_r; };
sf1:     Sf1(); count := count + 1;
sf2:     Sf2(arg[cur], cur);
unp_w:   pending[cur] := FALSE;
nxt_r:   cur := next[cur]; goto rec_r;
rel_w:   lock := 0; inside := inside - 1;
         if (count > served[self]) served[self] := count;
         Ret(<<arg[self]>>);
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "2fef6d93" /\ chksum(tla) = "4091a9ef")
VARIABLES pc, head, next, pending, active, lock, arg, log, inside, served, 
          mon, res, i, cur, k, count, round, owner

vars == << pc, head, next, pending, active, lock, arg, log, inside, served, 
           mon, res, i, cur, k, count, round, owner >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ head = NULL
        /\ next = [n \in Nodes |-> NULL]
        /\ pending = [n \in Nodes |-> FALSE]
        /\ active = [n \in Nodes |-> FALSE]
        /\ lock = 0
        /\ arg = [n \in Nodes |-> 0]
        /\ log = << >>
        /\ inside = 0
        /\ served = [t \in Threads |-> 0]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ cur = [self \in Threads |-> 0]
        /\ k = [self \in Threads |-> 0]
        /\ count = [self \in Threads |-> 0]
        /\ round = [self \in Threads |-> 0]
        /\ owner = [self \in Threads |-> FALSE]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << mon, count, round, owner >>
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ owner' = [owner EXCEPT ![self] = FALSE]
                         /\ count' = [count EXCEPT ![self] = 0]
                         /\ round' = [round EXCEPT ![self] = 0]
                         /\ pc' = [pc EXCEPT ![self] = "val_w"]
              /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                              inside, served, res, i, cur, k >>

val_w(self) == /\ pc[self] = "val_w"
               /\ arg' = [arg EXCEPT ![self] = Prog[self][i[self]][2]]
               /\ pc' = [pc EXCEPT ![self] = "pend_w"]
               /\ UNCHANGED << head, next, pending, active, lock, log, inside, 
                               served, mon, res, i, cur, k, count, round, 
                               owner >>

pend_w(self) == /\ pc[self] = "pend_w"
                /\ pending' = [pending EXCEPT ![self] = TRUE]
                /\ pc' = [pc EXCEPT ![self] = "lock_r"]
                /\ UNCHANGED << head, next, active, lock, arg, log, inside, 
                                served, mon, res, i, cur, k, count, round, 
                                owner >>

lock_r(self) == /\ pc[self] = "lock_r"
                /\ IF lock # 0
                      THEN /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "lock_x"]
                /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                                inside, served, mon, res, i, cur, k, count, 
                                round, owner >>

lock_x(self) == /\ pc[self] = "lock_x"
                /\ IF lock # 0
                      THEN /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                           /\ UNCHANGED << lock, inside, owner >>
                      ELSE /\ lock' = 1
                           /\ owner' = [owner EXCEPT ![self] = TRUE]
                           /\ inside' = inside + 1
                           /\ pc' = [pc EXCEPT ![self] = "act_r"]
                /\ UNCHANGED << head, next, pending, active, arg, log, served, 
                                mon, res, i, cur, k, count, round >>

wait_r(self) == /\ pc[self] = "wait_r"
                /\ lock = 0 \/ ~pending[self] \/ ~active[self]
                /\ pc' = [pc EXCEPT ![self] = "done_r"]
                /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                                inside, served, mon, res, i, cur, k, count, 
                                round, owner >>

done_r(self) == /\ pc[self] = "done_r"
                /\ IF ~pending[self]
                      THEN /\ mon' = MonRet(Kind, mon, self, (<<arg[self]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[self]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ IF active[self]
                                 THEN /\ pc' = [pc EXCEPT ![self] = "lock_r"]
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "enl_w"]
                           /\ UNCHANGED << mon, res, i >>
                /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                                inside, served, cur, k, count, round, owner >>

enl_w(self) == /\ pc[self] = "enl_w"
               /\ active' = [active EXCEPT ![self] = TRUE]
               /\ pc' = [pc EXCEPT ![self] = "enh_r"]
               /\ UNCHANGED << head, next, pending, lock, arg, log, inside, 
                               served, mon, res, i, cur, k, count, round, 
                               owner >>

enh_r(self) == /\ pc[self] = "enh_r"
               /\ next' = [next EXCEPT ![self] = head]
               /\ pc' = [pc EXCEPT ![self] = "enc_x"]
               /\ UNCHANGED << head, pending, active, lock, arg, log, inside, 
                               served, mon, res, i, cur, k, count, round, 
                               owner >>

enc_x(self) == /\ pc[self] = "enc_x"
               /\ IF head = next[self]
                     THEN /\ head' = self
                          /\ pc' = [pc EXCEPT ![self] = "enr"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "enh_r"]
                          /\ head' = head
               /\ UNCHANGED << next, pending, active, lock, arg, log, inside, 
                               served, mon, res, i, cur, k, count, round, 
                               owner >>

enr(self) == /\ pc[self] = "enr"
             /\ IF owner[self]
                   THEN /\ pc' = [pc EXCEPT ![self] = "scan_r"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "lock_r"]
             /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                             inside, served, mon, res, i, cur, k, count, round, 
                             owner >>

act_r(self) == /\ pc[self] = "act_r"
               /\ IF ~active[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "enl_w"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "scan_r"]
               /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                               inside, served, mon, res, i, cur, k, count, 
                               round, owner >>

scan_r(self) == /\ pc[self] = "scan_r"
                /\ cur' = [cur EXCEPT ![self] = head]
                /\ pc' = [pc EXCEPT ![self] = "rec_r"]
                /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                                inside, served, mon, res, i, k, count, round, 
                                owner >>

rec_r(self) == /\ pc[self] = "rec_r"
               /\ IF cur[self] = NULL
                     THEN /\ round' = [round EXCEPT ![self] = round[self] + 1]
                          /\ IF round'[self] < ROUNDS
                                THEN /\ pc' = [pc EXCEPT ![self] = "scan_r"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "rel_w"]
                          /\ cur' = cur
                     ELSE /\ IF ~pending[cur[self]]
                                THEN /\ cur' = [cur EXCEPT ![self] = next[cur[self]]]
                                     /\ pc' = [pc EXCEPT ![self] = "rec_r"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "sf1"]
                                     /\ cur' = cur
                          /\ round' = round
               /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                               inside, served, mon, res, i, k, count, owner >>

sf1(self) == /\ pc[self] = "sf1"
             /\ k' = [k EXCEPT ![self] = Len(log)]
             /\ count' = [count EXCEPT ![self] = count[self] + 1]
             /\ pc' = [pc EXCEPT ![self] = "sf2"]
             /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                             inside, served, mon, res, i, cur, round, owner >>

sf2(self) == /\ pc[self] = "sf2"
             /\ log' = Append(SubSeq(log, 1, k[self]), (arg[cur[self]]))
             /\ arg' = [arg EXCEPT ![cur[self]] = k[self]]
             /\ pc' = [pc EXCEPT ![self] = "unp_w"]
             /\ UNCHANGED << head, next, pending, active, lock, inside, served, 
                             mon, res, i, cur, k, count, round, owner >>

unp_w(self) == /\ pc[self] = "unp_w"
               /\ pending' = [pending EXCEPT ![cur[self]] = FALSE]
               /\ pc' = [pc EXCEPT ![self] = "nxt_r"]
               /\ UNCHANGED << head, next, active, lock, arg, log, inside, 
                               served, mon, res, i, cur, k, count, round, 
                               owner >>

nxt_r(self) == /\ pc[self] = "nxt_r"
               /\ cur' = [cur EXCEPT ![self] = next[cur[self]]]
               /\ pc' = [pc EXCEPT ![self] = "rec_r"]
               /\ UNCHANGED << head, next, pending, active, lock, arg, log, 
                               inside, served, mon, res, i, k, count, round, 
                               owner >>

rel_w(self) == /\ pc[self] = "rel_w"
               /\ lock' = 0
               /\ inside' = inside - 1
               /\ IF count[self] > served[self]
                     THEN /\ served' = [served EXCEPT ![self] = count[self]]
                     ELSE /\ TRUE
                          /\ UNCHANGED served
               /\ mon' = MonRet(Kind, mon, self, (<<arg[self]>>))
               /\ res' = [res EXCEPT ![self] = Append(res[self], (<<arg[self]>>))]
               /\ i' = [i EXCEPT ![self] = i[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "op_c"]
               /\ UNCHANGED << head, next, pending, active, arg, log, cur, k, 
                               count, round, owner >>

T(self) == op_c(self) \/ val_w(self) \/ pend_w(self) \/ lock_r(self)
              \/ lock_x(self) \/ wait_r(self) \/ done_r(self)
              \/ enl_w(self) \/ enh_r(self) \/ enc_x(self) \/ enr(self)
              \/ act_r(self) \/ scan_r(self) \/ rec_r(self) \/ sf1(self)
              \/ sf2(self) \/ unp_w(self) \/ nxt_r(self) \/ rel_w(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
OneCombiner == inside <= 1
Bounded == \A t \in Threads : served[t] <= ROUNDS * Cardinality(Threads)
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
