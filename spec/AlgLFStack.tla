------------------------------ MODULE AlgLFStack ------------------------------
(* The lock-free stack of libconcurrent/concurrent/lfstack.c.  Nodes are never *)
(* recycled (with recycling, the compare-and-swap of Pop suffers from ABA).   *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG
Kind == "stack"
Prog == CollProg[PROG]
Threads == DOMAIN Prog
NULL == -1
Nodes == 1..(NumAdds(Prog) + 1)
(* --algorithm LFStack {
variables top = NULL, next = [n \in Nodes |-> NULL], val = [n \in Nodes |-> 0], free = 1,
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
process (T \in Threads)
variables i = 1, p = 1, old = 0, nx = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done;
         else {
           Call();
           if (Prog[self][i][1] = 1) goto pTop_r;
           else { p := free; free := free + 1; val[p] := Prog[self][i][2]; }
         };
uTop_r:  old := top;
         next[p] := old;
uCas_x:  if (top = old) { top := p; Ret(<< >>); } else goto uTop_r;
pTop_r:  old := top;
         if (old = NULL) { Ret(<<EMPTY>>); };
pNext_r: nx := next[old];
pCas_x:  if (top = old) { top := nx; Ret(<<val[old]>>); } else goto pTop_r;
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "dcc42dfb" /\ chksum(tla) = "840db6bb")
VARIABLES pc, top, next, val, free, mon, res, i, p, old, nx

vars == << pc, top, next, val, free, mon, res, i, p, old, nx >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ top = NULL
        /\ next = [n \in Nodes |-> NULL]
        /\ val = [n \in Nodes |-> 0]
        /\ free = 1
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ p = [self \in Threads |-> 1]
        /\ old = [self \in Threads |-> 0]
        /\ nx = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << val, free, mon, p >>
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ IF Prog[self][i[self]][1] = 1
                               THEN /\ pc' = [pc EXCEPT ![self] = "pTop_r"]
                                    /\ UNCHANGED << val, free, p >>
                               ELSE /\ p' = [p EXCEPT ![self] = free]
                                    /\ free' = free + 1
                                    /\ val' = [val EXCEPT ![p'[self]] = Prog[self][i[self]][2]]
                                    /\ pc' = [pc EXCEPT ![self] = "uTop_r"]
              /\ UNCHANGED << top, next, res, i, old, nx >>

uTop_r(self) == /\ pc[self] = "uTop_r"
                /\ old' = [old EXCEPT ![self] = top]
                /\ next' = [next EXCEPT ![p[self]] = old'[self]]
                /\ pc' = [pc EXCEPT ![self] = "uCas_x"]
                /\ UNCHANGED << top, val, free, mon, res, i, p, nx >>

uCas_x(self) == /\ pc[self] = "uCas_x"
                /\ IF top = old[self]
                      THEN /\ top' = p[self]
                           /\ mon' = MonRet(Kind, mon, self, (<< >>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "uTop_r"]
                           /\ UNCHANGED << top, mon, res, i >>
                /\ UNCHANGED << next, val, free, p, old, nx >>

pTop_r(self) == /\ pc[self] = "pTop_r"
                /\ old' = [old EXCEPT ![self] = top]
                /\ IF old'[self] = NULL
                      THEN /\ mon' = MonRet(Kind, mon, self, (<<EMPTY>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<EMPTY>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "pNext_r"]
                           /\ UNCHANGED << mon, res, i >>
                /\ UNCHANGED << top, next, val, free, p, nx >>

pNext_r(self) == /\ pc[self] = "pNext_r"
                 /\ nx' = [nx EXCEPT ![self] = next[old[self]]]
                 /\ pc' = [pc EXCEPT ![self] = "pCas_x"]
                 /\ UNCHANGED << top, next, val, free, mon, res, i, p, old >>

pCas_x(self) == /\ pc[self] = "pCas_x"
                /\ IF top = old[self]
                      THEN /\ top' = nx[self]
                           /\ mon' = MonRet(Kind, mon, self, (<<val[old[self]]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<val[old[self]]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "pTop_r"]
                           /\ UNCHANGED << top, mon, res, i >>
                /\ UNCHANGED << next, val, free, p, old, nx >>

T(self) == op_c(self) \/ uTop_r(self) \/ uCas_x(self) \/ pTop_r(self)
              \/ pNext_r(self) \/ pCas_x(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
