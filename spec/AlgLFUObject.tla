------------------------------ MODULE AlgLFUObject ------------------------------
(* The simple lock-free object of libconcurrent/concurrent/lfuobject.c: the   *)
(* whole state is one word.  The state is a digest of everything applied, so   *)
(* that it never takes the same value twice.                                  *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG
Kind == "chain"
Prog == LogProg[PROG]
Threads == DOMAIN Prog
NULL == -1
(* --algorithm LFUObject {
variables state = 0, mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
process (T \in Threads)
variables i = 1, old = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done; else Call();
read_r:  old := state;
cas_x:   if (state = old) { state := Apply(Kind, <<old>>, 0, Prog[self][i][2]).s[1]; Ret(<<old>>); } else goto read_r;
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "e786431c" /\ chksum(tla) = "bbbb74c0")
VARIABLES pc, state, mon, res, i, old

vars == << pc, state, mon, res, i, old >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ state = 0
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ old = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ mon' = mon
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ pc' = [pc EXCEPT ![self] = "read_r"]
              /\ UNCHANGED << state, res, i, old >>

read_r(self) == /\ pc[self] = "read_r"
                /\ old' = [old EXCEPT ![self] = state]
                /\ pc' = [pc EXCEPT ![self] = "cas_x"]
                /\ UNCHANGED << state, mon, res, i >>

cas_x(self) == /\ pc[self] = "cas_x"
               /\ IF state = old[self]
                     THEN /\ state' = Apply(Kind, <<old[self]>>, 0, Prog[self][i[self]][2]).s[1]
                          /\ mon' = MonRet(Kind, mon, self, (<<old[self]>>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<<old[self]>>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "read_r"]
                          /\ UNCHANGED << state, mon, res, i >>
               /\ old' = old

T(self) == op_c(self) \/ read_r(self) \/ cas_x(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
