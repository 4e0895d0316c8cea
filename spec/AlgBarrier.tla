------------------------------ MODULE AlgBarrier ------------------------------
(* The re-entrant barrier of libconcurrent/primitives/barrier.c, one shared   *)
(* access per step: every round has an arrival and a departure phase.         *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS THREADS, ROUNDS
Threads == 1..THREADS
(* --algorithm Barrier {
variables arrive = THREADS, leave = THREADS, arriveFlag = TRUE, leaveFlag = TRUE,
          called = [t \in Threads |-> 0], passed = [t \in Threads |-> 0];
process (T \in Threads)
variables k = 0;
{
op_c:    if (called[self] = ROUNDS) goto Done;
         else called[self] := called[self] + 1;
arr_x:   k := arrive; arrive := arrive - 1;
         if (k = 1) goto aset_w;
await_r: await ~arriveFlag;
         goto lea_x;
aset_w:  arrive := THREADS;
lflag_w: leaveFlag := TRUE;
aflag_w: arriveFlag := FALSE;
lea_x:   k := leave; leave := leave - 1;
         if (k = 1) goto lset_w;
lwait_r: await ~leaveFlag;
         goto out;
lset_w:  leave := THREADS;
aopen_w: arriveFlag := TRUE;
lopen_w: leaveFlag := FALSE;
out:     passed[self] := passed[self] + 1; k := 0;
         goto op_c;
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, arrive, leave, arriveFlag, leaveFlag, called, passed, k

vars == << pc, arrive, leave, arriveFlag, leaveFlag, called, passed, k >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ arrive = THREADS
        /\ leave = THREADS
        /\ arriveFlag = TRUE
        /\ leaveFlag = TRUE
        /\ called = [t \in Threads |-> 0]
        /\ passed = [t \in Threads |-> 0]
        (* Process T *)
        /\ k = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF called[self] = ROUNDS
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED called
                    ELSE /\ called' = [called EXCEPT ![self] = called[self] + 1]
                         /\ pc' = [pc EXCEPT ![self] = "arr_x"]
              /\ UNCHANGED << arrive, leave, arriveFlag, leaveFlag, passed, k >>

arr_x(self) == /\ pc[self] = "arr_x"
               /\ k' = [k EXCEPT ![self] = arrive]
               /\ arrive' = arrive - 1
               /\ IF k'[self] = 1
                     THEN /\ pc' = [pc EXCEPT ![self] = "aset_w"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "await_r"]
               /\ UNCHANGED << leave, arriveFlag, leaveFlag, called, passed >>

await_r(self) == /\ pc[self] = "await_r"
                 /\ ~arriveFlag
                 /\ pc' = [pc EXCEPT ![self] = "lea_x"]
                 /\ UNCHANGED << arrive, leave, arriveFlag, leaveFlag, called, 
                                 passed, k >>

aset_w(self) == /\ pc[self] = "aset_w"
                /\ arrive' = THREADS
                /\ pc' = [pc EXCEPT ![self] = "lflag_w"]
                /\ UNCHANGED << leave, arriveFlag, leaveFlag, called, passed, 
                                k >>

lflag_w(self) == /\ pc[self] = "lflag_w"
                 /\ leaveFlag' = TRUE
                 /\ pc' = [pc EXCEPT ![self] = "aflag_w"]
                 /\ UNCHANGED << arrive, leave, arriveFlag, called, passed, k >>

aflag_w(self) == /\ pc[self] = "aflag_w"
                 /\ arriveFlag' = FALSE
                 /\ pc' = [pc EXCEPT ![self] = "lea_x"]
                 /\ UNCHANGED << arrive, leave, leaveFlag, called, passed, k >>

lea_x(self) == /\ pc[self] = "lea_x"
               /\ k' = [k EXCEPT ![self] = leave]
               /\ leave' = leave - 1
               /\ IF k'[self] = 1
                     THEN /\ pc' = [pc EXCEPT ![self] = "lset_w"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "lwait_r"]
               /\ UNCHANGED << arrive, arriveFlag, leaveFlag, called, passed >>

lwait_r(self) == /\ pc[self] = "lwait_r"
                 /\ ~leaveFlag
                 /\ pc' = [pc EXCEPT ![self] = "out"]
                 /\ UNCHANGED << arrive, leave, arriveFlag, leaveFlag, called, 
                                 passed, k >>

lset_w(self) == /\ pc[self] = "lset_w"
                /\ leave' = THREADS
                /\ pc' = [pc EXCEPT ![self] = "aopen_w"]
                /\ UNCHANGED << arrive, arriveFlag, leaveFlag, called, passed, 
                                k >>

aopen_w(self) == /\ pc[self] = "aopen_w"
                 /\ arriveFlag' = TRUE
                 /\ pc' = [pc EXCEPT ![self] = "lopen_w"]
                 /\ UNCHANGED << arrive, leave, leaveFlag, called, passed, k >>

lopen_w(self) == /\ pc[self] = "lopen_w"
                 /\ leaveFlag' = FALSE
                 /\ pc' = [pc EXCEPT ![self] = "out"]
                 /\ UNCHANGED << arrive, leave, arriveFlag, called, passed, k >>

out(self) == /\ pc[self] = "out"
             /\ passed' = [passed EXCEPT ![self] = passed[self] + 1]
             /\ k' = [k EXCEPT ![self] = 0]
             /\ pc' = [pc EXCEPT ![self] = "op_c"]
             /\ UNCHANGED << arrive, leave, arriveFlag, leaveFlag, called >>

T(self) == op_c(self) \/ arr_x(self) \/ await_r(self) \/ aset_w(self)
              \/ lflag_w(self) \/ aflag_w(self) \/ lea_x(self)
              \/ lwait_r(self) \/ lset_w(self) \/ aopen_w(self)
              \/ lopen_w(self) \/ out(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
\* nobody goes on from the k-th wait before everybody has called the k-th wait
Held == \A t, u \in Threads : passed[t] <= called[u]
\* the counters never run below zero (they are unsigned)
Counters == arrive \in 0..THREADS /\ leave \in 0..THREADS
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ \A t \in Threads : WF_vars(T(t))
===============================================================================
