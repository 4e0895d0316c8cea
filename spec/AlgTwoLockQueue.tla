---------------------------- MODULE AlgTwoLockQueue ----------------------------
(* The two-lock queue behind CC-Queue, DSM-Queue, H-Queue, FC-Queue and       *)
(* Osci-Queue: enqueues and dequeues run one at a time among themselves (the  *)
(* combining techniques give that: AlgCCSynch ...), but concurrently with     *)
(* each other.  Nodes come from the pool of the thread that runs the          *)
(* operation, and a removed node goes into the pool of the thread that        *)
(* removed it, whose first word links the recycled nodes (it overwrites val). *)
(* Any thread may run the operation of any other one (combining).             *)
EXTENDS Programs, LinMonitor, Integers, TLC
CONSTANTS PROG
P == CollProg[PROG]
Threads == DOMAIN P
NULL == 0
GUARD == 1
JUNK == -99
Nodes == 1..(NumAdds(P) + 1)
(* --algorithm TwoLockQueue {
variables first = GUARD, last = GUARD, enq = NULL, deq = NULL, fresh = GUARD,
          next = [n \in Nodes |-> NULL], val = [n \in Nodes |-> JUNK],
          free = [t \in Threads |-> << >>], mon = MonInit("queue", Threads), res = [t \in Threads |-> << >>];
process (T \in Threads)
variables i = 1, by = 0, node = 0, h = 0, v = 0;
{
op_c:    if (i > Len(P[self])) goto Done;
         else {
           mon := MonCall(mon, self, P[self][i][1], P[self][i][2]);
           with (c \in Threads) { by := c; };
           if (P[self][i][1] = 1) goto dlk_x;
         };
elk_x:   await enq = NULL; enq := self;
alloc:   if (free[by] # << >>) { node := Head(free[by]); free[by] := Tail(free[by]); }
         else { fresh := fresh + 1; node := fresh; };
nil_w:   next[node] := NULL;
val_w:   val[node] := P[self][i][2];
link_w:  next[last] := node;
last_w:  last := node;
eul_w:   enq := NULL; node := 0;
eret:    mon := MonRet("queue", mon, self, << >>);
         res[self] := Append(res[self], << >>);
         goto fin;
dlk_x:   await deq = NULL; deq := self;
peek_r:  h := first; node := next[h];
         if (node = NULL) { v := EMPTY; goto dul_w; };
move_w:  first := node;
get_r:   v := val[node];
rec_w:   val[h] := JUNK; free[by] := <<h>> \o free[by];
dul_w:   deq := NULL; node := 0; h := 0;
dret:    mon := MonRet("queue", mon, self, <<v>>);
         res[self] := Append(res[self], <<v>>);
         v := 0;
fin:     i := i + 1; by := 0;
         goto op_c;
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, first, last, enq, deq, fresh, next, val, free, mon, res, i, by, 
          node, h, v

vars == << pc, first, last, enq, deq, fresh, next, val, free, mon, res, i, by, 
           node, h, v >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ first = GUARD
        /\ last = GUARD
        /\ enq = NULL
        /\ deq = NULL
        /\ fresh = GUARD
        /\ next = [n \in Nodes |-> NULL]
        /\ val = [n \in Nodes |-> JUNK]
        /\ free = [t \in Threads |-> << >>]
        /\ mon = MonInit("queue", Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ by = [self \in Threads |-> 0]
        /\ node = [self \in Threads |-> 0]
        /\ h = [self \in Threads |-> 0]
        /\ v = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(P[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << mon, by >>
                    ELSE /\ mon' = MonCall(mon, self, P[self][i[self]][1], P[self][i[self]][2])
                         /\ \E c \in Threads:
                              by' = [by EXCEPT ![self] = c]
                         /\ IF P[self][i[self]][1] = 1
                               THEN /\ pc' = [pc EXCEPT ![self] = "dlk_x"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "elk_x"]
              /\ UNCHANGED << first, last, enq, deq, fresh, next, val, free, 
                              res, i, node, h, v >>

elk_x(self) == /\ pc[self] = "elk_x"
               /\ enq = NULL
               /\ enq' = self
               /\ pc' = [pc EXCEPT ![self] = "alloc"]
               /\ UNCHANGED << first, last, deq, fresh, next, val, free, mon, 
                               res, i, by, node, h, v >>

alloc(self) == /\ pc[self] = "alloc"
               /\ IF free[by[self]] # << >>
                     THEN /\ node' = [node EXCEPT ![self] = Head(free[by[self]])]
                          /\ free' = [free EXCEPT ![by[self]] = Tail(free[by[self]])]
                          /\ fresh' = fresh
                     ELSE /\ fresh' = fresh + 1
                          /\ node' = [node EXCEPT ![self] = fresh']
                          /\ free' = free
               /\ pc' = [pc EXCEPT ![self] = "nil_w"]
               /\ UNCHANGED << first, last, enq, deq, next, val, mon, res, i, 
                               by, h, v >>

nil_w(self) == /\ pc[self] = "nil_w"
               /\ next' = [next EXCEPT ![node[self]] = NULL]
               /\ pc' = [pc EXCEPT ![self] = "val_w"]
               /\ UNCHANGED << first, last, enq, deq, fresh, val, free, mon, 
                               res, i, by, node, h, v >>

val_w(self) == /\ pc[self] = "val_w"
               /\ val' = [val EXCEPT ![node[self]] = P[self][i[self]][2]]
               /\ pc' = [pc EXCEPT ![self] = "link_w"]
               /\ UNCHANGED << first, last, enq, deq, fresh, next, free, mon, 
                               res, i, by, node, h, v >>

link_w(self) == /\ pc[self] = "link_w"
                /\ next' = [next EXCEPT ![last] = node[self]]
                /\ pc' = [pc EXCEPT ![self] = "last_w"]
                /\ UNCHANGED << first, last, enq, deq, fresh, val, free, mon, 
                                res, i, by, node, h, v >>

last_w(self) == /\ pc[self] = "last_w"
                /\ last' = node[self]
                /\ pc' = [pc EXCEPT ![self] = "eul_w"]
                /\ UNCHANGED << first, enq, deq, fresh, next, val, free, mon, 
                                res, i, by, node, h, v >>

eul_w(self) == /\ pc[self] = "eul_w"
               /\ enq' = NULL
               /\ node' = [node EXCEPT ![self] = 0]
               /\ pc' = [pc EXCEPT ![self] = "eret"]
               /\ UNCHANGED << first, last, deq, fresh, next, val, free, mon, 
                               res, i, by, h, v >>

eret(self) == /\ pc[self] = "eret"
              /\ mon' = MonRet("queue", mon, self, << >>)
              /\ res' = [res EXCEPT ![self] = Append(res[self], << >>)]
              /\ pc' = [pc EXCEPT ![self] = "fin"]
              /\ UNCHANGED << first, last, enq, deq, fresh, next, val, free, i, 
                              by, node, h, v >>

dlk_x(self) == /\ pc[self] = "dlk_x"
               /\ deq = NULL
               /\ deq' = self
               /\ pc' = [pc EXCEPT ![self] = "peek_r"]
               /\ UNCHANGED << first, last, enq, fresh, next, val, free, mon, 
                               res, i, by, node, h, v >>

peek_r(self) == /\ pc[self] = "peek_r"
                /\ h' = [h EXCEPT ![self] = first]
                /\ node' = [node EXCEPT ![self] = next[h'[self]]]
                /\ IF node'[self] = NULL
                      THEN /\ v' = [v EXCEPT ![self] = EMPTY]
                           /\ pc' = [pc EXCEPT ![self] = "dul_w"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "move_w"]
                           /\ v' = v
                /\ UNCHANGED << first, last, enq, deq, fresh, next, val, free, 
                                mon, res, i, by >>

move_w(self) == /\ pc[self] = "move_w"
                /\ first' = node[self]
                /\ pc' = [pc EXCEPT ![self] = "get_r"]
                /\ UNCHANGED << last, enq, deq, fresh, next, val, free, mon, 
                                res, i, by, node, h, v >>

get_r(self) == /\ pc[self] = "get_r"
               /\ v' = [v EXCEPT ![self] = val[node[self]]]
               /\ pc' = [pc EXCEPT ![self] = "rec_w"]
               /\ UNCHANGED << first, last, enq, deq, fresh, next, val, free, 
                               mon, res, i, by, node, h >>

rec_w(self) == /\ pc[self] = "rec_w"
               /\ val' = [val EXCEPT ![h[self]] = JUNK]
               /\ free' = [free EXCEPT ![by[self]] = <<h[self]>> \o free[by[self]]]
               /\ pc' = [pc EXCEPT ![self] = "dul_w"]
               /\ UNCHANGED << first, last, enq, deq, fresh, next, mon, res, i, 
                               by, node, h, v >>

dul_w(self) == /\ pc[self] = "dul_w"
               /\ deq' = NULL
               /\ node' = [node EXCEPT ![self] = 0]
               /\ h' = [h EXCEPT ![self] = 0]
               /\ pc' = [pc EXCEPT ![self] = "dret"]
               /\ UNCHANGED << first, last, enq, fresh, next, val, free, mon, 
                               res, i, by, v >>

dret(self) == /\ pc[self] = "dret"
              /\ mon' = MonRet("queue", mon, self, <<v[self]>>)
              /\ res' = [res EXCEPT ![self] = Append(res[self], <<v[self]>>)]
              /\ v' = [v EXCEPT ![self] = 0]
              /\ pc' = [pc EXCEPT ![self] = "fin"]
              /\ UNCHANGED << first, last, enq, deq, fresh, next, val, free, i, 
                              by, node, h >>

fin(self) == /\ pc[self] = "fin"
             /\ i' = [i EXCEPT ![self] = i[self] + 1]
             /\ by' = [by EXCEPT ![self] = 0]
             /\ pc' = [pc EXCEPT ![self] = "op_c"]
             /\ UNCHANGED << first, last, enq, deq, fresh, next, val, free, 
                             mon, res, node, h, v >>

T(self) == op_c(self) \/ elk_x(self) \/ alloc(self) \/ nil_w(self)
              \/ val_w(self) \/ link_w(self) \/ last_w(self) \/ eul_w(self)
              \/ eret(self) \/ dlk_x(self) \/ peek_r(self) \/ move_w(self)
              \/ get_r(self) \/ rec_w(self) \/ dul_w(self) \/ dret(self)
              \/ fin(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Correct == Linearizable(mon)
\* a node lies in at most one pool and not in the list, and two pools are never used at once for the same list operation
RECURSIVE Reach(_)
Reach(n) == IF n = NULL THEN {} ELSE {n} \cup Reach(next[n])
FreeSet == UNION { { free[t][j] : j \in 1..Len(free[t]) } : t \in Threads }
NodesOK == /\ Reach(first) \cap FreeSet = {}
           /\ \A t \in Threads : Cardinality({ free[t][j] : j \in 1..Len(free[t]) }) = Len(free[t])
           /\ \A t, u \in Threads : t # u => { free[t][j] : j \in 1..Len(free[t]) } \cap { free[u][j] : j \in 1..Len(free[u]) } = {}
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ \A t \in Threads : WF_vars(T(t))
================================================================================
