-------------------------------- MODULE AlgHash --------------------------------
(* The hash tables of clhhash.c and dsmhash.c: one list of keys per cell,     *)
(* every cell behind its own exclusion (AlgCLH, AlgDSMSynch); one shared      *)
(* access per step.  Negative keys fall into cells, too.                      *)
EXTENDS Objects, LinMonitor, Integers, TLC
CONSTANTS PROG, CELLS
\* <<0, k>> insert, <<1, k>> search, <<2, k>> delete
I(k) == <<0, k>>  S(k) == <<1, k>>  D(k) == <<2, k>>
P == << << <<I(1), S(1), D(1)>>, <<I(1), D(1), S(1)>> >>,
        << <<I(1), I(3), D(1)>>, <<I(5), S(3), S(1)>> >>,
        << <<I(1), I(3), I(-1), D(3), S(1)>>, <<D(1), D(-1), S(3)>> >>,
        << <<I(2), D(2), I(2)>>, <<S(2), I(-2)>>, <<D(2), S(-2)>> >>,
        << <<I(1), I(3), I(5), D(5), D(1), D(3), S(1), S(3), S(5)>>, <<I(3), D(3)>> >> >>[PROG]
Threads == DOMAIN P
NULL == 0
Cells == 0..(CELLS - 1)
\* C: the sign of the remainder is the sign of the key
CMod(k, m) == IF k >= 0 THEN k % m ELSE 0 - ((0 - k) % m)
Cell(k) == LET c == CMod(k, CELLS) IN IF c < 0 THEN c + CELLS ELSE c
Nodes == 1..20
(* --algorithm Hash {
variables top = [c \in Cells |-> NULL], lock = [c \in Cells |-> NULL], key = [n \in Nodes |-> 0], next = [n \in Nodes |-> NULL], fresh = 0,
          mon = MonInit("set", Threads), res = [t \in Threads |-> << >>];
process (T \in Threads)
variables i = 1, op = 0, k = 0, cell = 0, node = 0, t0 = 0, cur = 0, prev = 0, found = FALSE;
{
op_c:    if (i > Len(P[self])) goto Done;
         else {
           op := P[self][i][1]; k := P[self][i][2];
           mon := MonCall(mon, self, op, k);
         };
hash:    cell := Cell(k); fresh := fresh + 1; node := fresh;
lock_x:  await lock[cell] = NULL; lock[cell] := self;
top_r:   t0 := top[cell]; cur := t0; prev := t0; found := FALSE;
walk_r:  if (cur = NULL) goto act;
         else if (key[cur] = k) { found := TRUE; goto act; };
step_r:  if (cur # t0) prev := next[prev];
adv_r:   cur := next[cur];
         goto walk_r;
act:     if (op = 0 /\ ~found) goto key_w;
         else if (op = 2 /\ found) { if (cur # t0) goto cut_w; else goto pop_w; }
         else goto unl_w;
key_w:   key[node] := k;
next_w:  next[node] := t0;
top_w:   top[cell] := node; goto unl_w;
cut_w:   next[prev] := next[cur]; goto unl_w;
pop_w:   top[cell] := next[cur];
unl_w:   lock[cell] := NULL;
ret:     with (r = IF op = 1 THEN << IF found THEN 1 ELSE 0 >> ELSE << >>) {
           mon := MonRet("set", mon, self, r);
           res[self] := Append(res[self], r);
         };
         cur := 0; prev := 0; t0 := 0; node := 0; i := i + 1;
         goto op_c;
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, top, lock, key, next, fresh, mon, res, i, op, k, cell, node, t0, 
          cur, prev, found

vars == << pc, top, lock, key, next, fresh, mon, res, i, op, k, cell, node, 
           t0, cur, prev, found >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ top = [c \in Cells |-> NULL]
        /\ lock = [c \in Cells |-> NULL]
        /\ key = [n \in Nodes |-> 0]
        /\ next = [n \in Nodes |-> NULL]
        /\ fresh = 0
        /\ mon = MonInit("set", Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ op = [self \in Threads |-> 0]
        /\ k = [self \in Threads |-> 0]
        /\ cell = [self \in Threads |-> 0]
        /\ node = [self \in Threads |-> 0]
        /\ t0 = [self \in Threads |-> 0]
        /\ cur = [self \in Threads |-> 0]
        /\ prev = [self \in Threads |-> 0]
        /\ found = [self \in Threads |-> FALSE]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(P[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << mon, op, k >>
                    ELSE /\ op' = [op EXCEPT ![self] = P[self][i[self]][1]]
                         /\ k' = [k EXCEPT ![self] = P[self][i[self]][2]]
                         /\ mon' = MonCall(mon, self, op'[self], k'[self])
                         /\ pc' = [pc EXCEPT ![self] = "hash"]
              /\ UNCHANGED << top, lock, key, next, fresh, res, i, cell, node, 
                              t0, cur, prev, found >>

hash(self) == /\ pc[self] = "hash"
              /\ cell' = [cell EXCEPT ![self] = Cell(k[self])]
              /\ fresh' = fresh + 1
              /\ node' = [node EXCEPT ![self] = fresh']
              /\ pc' = [pc EXCEPT ![self] = "lock_x"]
              /\ UNCHANGED << top, lock, key, next, mon, res, i, op, k, t0, 
                              cur, prev, found >>

lock_x(self) == /\ pc[self] = "lock_x"
                /\ lock[cell[self]] = NULL
                /\ lock' = [lock EXCEPT ![cell[self]] = self]
                /\ pc' = [pc EXCEPT ![self] = "top_r"]
                /\ UNCHANGED << top, key, next, fresh, mon, res, i, op, k, 
                                cell, node, t0, cur, prev, found >>

top_r(self) == /\ pc[self] = "top_r"
               /\ t0' = [t0 EXCEPT ![self] = top[cell[self]]]
               /\ cur' = [cur EXCEPT ![self] = t0'[self]]
               /\ prev' = [prev EXCEPT ![self] = t0'[self]]
               /\ found' = [found EXCEPT ![self] = FALSE]
               /\ pc' = [pc EXCEPT ![self] = "walk_r"]
               /\ UNCHANGED << top, lock, key, next, fresh, mon, res, i, op, k, 
                               cell, node >>

walk_r(self) == /\ pc[self] = "walk_r"
                /\ IF cur[self] = NULL
                      THEN /\ pc' = [pc EXCEPT ![self] = "act"]
                           /\ found' = found
                      ELSE /\ IF key[cur[self]] = k[self]
                                 THEN /\ found' = [found EXCEPT ![self] = TRUE]
                                      /\ pc' = [pc EXCEPT ![self] = "act"]
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "step_r"]
                                      /\ found' = found
                /\ UNCHANGED << top, lock, key, next, fresh, mon, res, i, op, 
                                k, cell, node, t0, cur, prev >>

step_r(self) == /\ pc[self] = "step_r"
                /\ IF cur[self] # t0[self]
                      THEN /\ prev' = [prev EXCEPT ![self] = next[prev[self]]]
                      ELSE /\ TRUE
                           /\ prev' = prev
                /\ pc' = [pc EXCEPT ![self] = "adv_r"]
                /\ UNCHANGED << top, lock, key, next, fresh, mon, res, i, op, 
                                k, cell, node, t0, cur, found >>

adv_r(self) == /\ pc[self] = "adv_r"
               /\ cur' = [cur EXCEPT ![self] = next[cur[self]]]
               /\ pc' = [pc EXCEPT ![self] = "walk_r"]
               /\ UNCHANGED << top, lock, key, next, fresh, mon, res, i, op, k, 
                               cell, node, t0, prev, found >>

act(self) == /\ pc[self] = "act"
             /\ IF op[self] = 0 /\ ~found[self]
                   THEN /\ pc' = [pc EXCEPT ![self] = "key_w"]
                   ELSE /\ IF op[self] = 2 /\ found[self]
                              THEN /\ IF cur[self] # t0[self]
                                         THEN /\ pc' = [pc EXCEPT ![self] = "cut_w"]
                                         ELSE /\ pc' = [pc EXCEPT ![self] = "pop_w"]
                              ELSE /\ pc' = [pc EXCEPT ![self] = "unl_w"]
             /\ UNCHANGED << top, lock, key, next, fresh, mon, res, i, op, k, 
                             cell, node, t0, cur, prev, found >>

key_w(self) == /\ pc[self] = "key_w"
               /\ key' = [key EXCEPT ![node[self]] = k[self]]
               /\ pc' = [pc EXCEPT ![self] = "next_w"]
               /\ UNCHANGED << top, lock, next, fresh, mon, res, i, op, k, 
                               cell, node, t0, cur, prev, found >>

next_w(self) == /\ pc[self] = "next_w"
                /\ next' = [next EXCEPT ![node[self]] = t0[self]]
                /\ pc' = [pc EXCEPT ![self] = "top_w"]
                /\ UNCHANGED << top, lock, key, fresh, mon, res, i, op, k, 
                                cell, node, t0, cur, prev, found >>

top_w(self) == /\ pc[self] = "top_w"
               /\ top' = [top EXCEPT ![cell[self]] = node[self]]
               /\ pc' = [pc EXCEPT ![self] = "unl_w"]
               /\ UNCHANGED << lock, key, next, fresh, mon, res, i, op, k, 
                               cell, node, t0, cur, prev, found >>

cut_w(self) == /\ pc[self] = "cut_w"
               /\ next' = [next EXCEPT ![prev[self]] = next[cur[self]]]
               /\ pc' = [pc EXCEPT ![self] = "unl_w"]
               /\ UNCHANGED << top, lock, key, fresh, mon, res, i, op, k, cell, 
                               node, t0, cur, prev, found >>

pop_w(self) == /\ pc[self] = "pop_w"
               /\ top' = [top EXCEPT ![cell[self]] = next[cur[self]]]
               /\ pc' = [pc EXCEPT ![self] = "unl_w"]
               /\ UNCHANGED << lock, key, next, fresh, mon, res, i, op, k, 
                               cell, node, t0, cur, prev, found >>

unl_w(self) == /\ pc[self] = "unl_w"
               /\ lock' = [lock EXCEPT ![cell[self]] = NULL]
               /\ pc' = [pc EXCEPT ![self] = "ret"]
               /\ UNCHANGED << top, key, next, fresh, mon, res, i, op, k, cell, 
                               node, t0, cur, prev, found >>

ret(self) == /\ pc[self] = "ret"
             /\ LET r == IF op[self] = 1 THEN << IF found[self] THEN 1 ELSE 0 >> ELSE << >> IN
                  /\ mon' = MonRet("set", mon, self, r)
                  /\ res' = [res EXCEPT ![self] = Append(res[self], r)]
             /\ cur' = [cur EXCEPT ![self] = 0]
             /\ prev' = [prev EXCEPT ![self] = 0]
             /\ t0' = [t0 EXCEPT ![self] = 0]
             /\ node' = [node EXCEPT ![self] = 0]
             /\ i' = [i EXCEPT ![self] = i[self] + 1]
             /\ pc' = [pc EXCEPT ![self] = "op_c"]
             /\ UNCHANGED << top, lock, key, next, fresh, op, k, cell, found >>

T(self) == op_c(self) \/ hash(self) \/ lock_x(self) \/ top_r(self)
              \/ walk_r(self) \/ step_r(self) \/ adv_r(self) \/ act(self)
              \/ key_w(self) \/ next_w(self) \/ top_w(self) \/ cut_w(self)
              \/ pop_w(self) \/ unl_w(self) \/ ret(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Correct == Linearizable(mon)
RECURSIVE Keys(_)
Keys(n) == IF n = NULL THEN << >> ELSE <<key[n]>> \o Keys(next[n])
\* every key lies in its cell, once
CellsOK == \A c \in Cells : lock[c] = NULL =>
             LET q == Keys(top[c]) IN \A j \in 1..Len(q) : Cell(q[j]) = c /\ \A l \in 1..Len(q) : q[j] = q[l] => j = l
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ \A t \in Threads : WF_vars(T(t))
================================================================================
