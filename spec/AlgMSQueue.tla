------------------------------ MODULE AlgMSQueue ------------------------------
(* The lock-free queue of libconcurrent/concurrent/msqueue.c.  One label per  *)
(* access of shared memory (suffix r, w, x = read, write, read-modify-write;  *)
(* c = call).  Nodes are never recycled by the library; node 0 is the dummy.  *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG
Kind == "queue"
Prog == CollProg[PROG]
Threads == DOMAIN Prog
NULL == -1
Nodes == 0..NumAdds(Prog)
(* --algorithm MSQueue {
variables head = 0, tail = 0, next = [n \in Nodes |-> NULL], val = [n \in Nodes |-> 0], free = 1,
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
process (T \in Threads)
variables i = 1, p = 0, first = 0, last = 0, nx = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done;
         else {
           Call();
           if (Prog[self][i][1] = 1) goto dHead_r;
           else { p := free; free := free + 1; val[p] := Prog[self][i][2]; next[p] := NULL; }
         };
eTail_r: last := tail;
eNext_r: nx := next[last];
eChk_r:  if (last # tail) goto eTail_r; else if (nx # NULL) goto eHelp_x;
eLink_x: if (next[last] = NULL) { next[last] := p; goto eSwing_x; } else goto eTail_r;
eHelp_x: if (tail = last) tail := nx;
         goto eTail_r;
eSwing_x: if (tail = last) tail := p;
         Ret(<< >>);
dHead_r: first := head;
dTail_r: last := tail;
dNext_r: nx := next[first];
dChk_r:  if (first # head) goto dHead_r;
         else if (first = last) { if (nx = NULL) { Ret(<<EMPTY>>); } else goto dHelp_x; };
dCut_x:  if (head = first) { head := nx; Ret(<<val[nx]>>); } else goto dHead_r;
dHelp_x: if (tail = last) tail := nx;
         goto dHead_r;
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "136c7c41" /\ chksum(tla) = "60a02faa")
VARIABLES pc, head, tail, next, val, free, mon, res, i, p, first, last, nx

vars == << pc, head, tail, next, val, free, mon, res, i, p, first, last, nx
        >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ head = 0
        /\ tail = 0
        /\ next = [n \in Nodes |-> NULL]
        /\ val = [n \in Nodes |-> 0]
        /\ free = 1
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ p = [self \in Threads |-> 0]
        /\ first = [self \in Threads |-> 0]
        /\ last = [self \in Threads |-> 0]
        /\ nx = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << next, val, free, mon, p >>
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ IF Prog[self][i[self]][1] = 1
                               THEN /\ pc' = [pc EXCEPT ![self] = "dHead_r"]
                                    /\ UNCHANGED << next, val, free, p >>
                               ELSE /\ p' = [p EXCEPT ![self] = free]
                                    /\ free' = free + 1
                                    /\ val' = [val EXCEPT ![p'[self]] = Prog[self][i[self]][2]]
                                    /\ next' = [next EXCEPT ![p'[self]] = NULL]
                                    /\ pc' = [pc EXCEPT ![self] = "eTail_r"]
              /\ UNCHANGED << head, tail, res, i, first, last, nx >>

eTail_r(self) == /\ pc[self] = "eTail_r"
                 /\ last' = [last EXCEPT ![self] = tail]
                 /\ pc' = [pc EXCEPT ![self] = "eNext_r"]
                 /\ UNCHANGED << head, tail, next, val, free, mon, res, i, p, 
                                 first, nx >>

eNext_r(self) == /\ pc[self] = "eNext_r"
                 /\ nx' = [nx EXCEPT ![self] = next[last[self]]]
                 /\ pc' = [pc EXCEPT ![self] = "eChk_r"]
                 /\ UNCHANGED << head, tail, next, val, free, mon, res, i, p, 
                                 first, last >>

eChk_r(self) == /\ pc[self] = "eChk_r"
                /\ IF last[self] # tail
                      THEN /\ pc' = [pc EXCEPT ![self] = "eTail_r"]
                      ELSE /\ IF nx[self] # NULL
                                 THEN /\ pc' = [pc EXCEPT ![self] = "eHelp_x"]
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "eLink_x"]
                /\ UNCHANGED << head, tail, next, val, free, mon, res, i, p, 
                                first, last, nx >>

eLink_x(self) == /\ pc[self] = "eLink_x"
                 /\ IF next[last[self]] = NULL
                       THEN /\ next' = [next EXCEPT ![last[self]] = p[self]]
                            /\ pc' = [pc EXCEPT ![self] = "eSwing_x"]
                       ELSE /\ pc' = [pc EXCEPT ![self] = "eTail_r"]
                            /\ next' = next
                 /\ UNCHANGED << head, tail, val, free, mon, res, i, p, first, 
                                 last, nx >>

eHelp_x(self) == /\ pc[self] = "eHelp_x"
                 /\ IF tail = last[self]
                       THEN /\ tail' = nx[self]
                       ELSE /\ TRUE
                            /\ tail' = tail
                 /\ pc' = [pc EXCEPT ![self] = "eTail_r"]
                 /\ UNCHANGED << head, next, val, free, mon, res, i, p, first, 
                                 last, nx >>

eSwing_x(self) == /\ pc[self] = "eSwing_x"
                  /\ IF tail = last[self]
                        THEN /\ tail' = p[self]
                        ELSE /\ TRUE
                             /\ tail' = tail
                  /\ mon' = MonRet(Kind, mon, self, (<< >>))
                  /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                  /\ i' = [i EXCEPT ![self] = i[self] + 1]
                  /\ pc' = [pc EXCEPT ![self] = "op_c"]
                  /\ UNCHANGED << head, next, val, free, p, first, last, nx >>

dHead_r(self) == /\ pc[self] = "dHead_r"
                 /\ first' = [first EXCEPT ![self] = head]
                 /\ pc' = [pc EXCEPT ![self] = "dTail_r"]
                 /\ UNCHANGED << head, tail, next, val, free, mon, res, i, p, 
                                 last, nx >>

dTail_r(self) == /\ pc[self] = "dTail_r"
                 /\ last' = [last EXCEPT ![self] = tail]
                 /\ pc' = [pc EXCEPT ![self] = "dNext_r"]
                 /\ UNCHANGED << head, tail, next, val, free, mon, res, i, p, 
                                 first, nx >>

dNext_r(self) == /\ pc[self] = "dNext_r"
                 /\ nx' = [nx EXCEPT ![self] = next[first[self]]]
                 /\ pc' = [pc EXCEPT ![self] = "dChk_r"]
                 /\ UNCHANGED << head, tail, next, val, free, mon, res, i, p, 
                                 first, last >>

dChk_r(self) == /\ pc[self] = "dChk_r"
                /\ IF first[self] # head
                      THEN /\ pc' = [pc EXCEPT ![self] = "dHead_r"]
                           /\ UNCHANGED << mon, res, i >>
                      ELSE /\ IF first[self] = last[self]
                                 THEN /\ IF nx[self] = NULL
                                            THEN /\ mon' = MonRet(Kind, mon, self, (<<EMPTY>>))
                                                 /\ res' = [res EXCEPT ![self] = Append(res[self], (<<EMPTY>>))]
                                                 /\ i' = [i EXCEPT ![self] = i[self] + 1]
                                                 /\ pc' = [pc EXCEPT ![self] = "op_c"]
                                            ELSE /\ pc' = [pc EXCEPT ![self] = "dHelp_x"]
                                                 /\ UNCHANGED << mon, res, i >>
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "dCut_x"]
                                      /\ UNCHANGED << mon, res, i >>
                /\ UNCHANGED << head, tail, next, val, free, p, first, last, 
                                nx >>

dCut_x(self) == /\ pc[self] = "dCut_x"
                /\ IF head = first[self]
                      THEN /\ head' = nx[self]
                           /\ mon' = MonRet(Kind, mon, self, (<<val[nx[self]]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<val[nx[self]]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "dHead_r"]
                           /\ UNCHANGED << head, mon, res, i >>
                /\ UNCHANGED << tail, next, val, free, p, first, last, nx >>

dHelp_x(self) == /\ pc[self] = "dHelp_x"
                 /\ IF tail = last[self]
                       THEN /\ tail' = nx[self]
                       ELSE /\ TRUE
                            /\ tail' = tail
                 /\ pc' = [pc EXCEPT ![self] = "dHead_r"]
                 /\ UNCHANGED << head, next, val, free, mon, res, i, p, first, 
                                 last, nx >>

T(self) == op_c(self) \/ eTail_r(self) \/ eNext_r(self) \/ eChk_r(self)
              \/ eLink_x(self) \/ eHelp_x(self) \/ eSwing_x(self)
              \/ dHead_r(self) \/ dTail_r(self) \/ dNext_r(self)
              \/ dChk_r(self) \/ dCut_x(self) \/ dHelp_x(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
\* what a reader of the code relies on: the list hangs together and the tail lags by at most one node
ListOK == tail # NULL /\ (next[tail] # NULL => next[next[tail]] = NULL)
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
