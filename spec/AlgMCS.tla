-------------------------------- MODULE AlgMCS --------------------------------
(* The MCS queue lock of libconcurrent/concurrent/mcs.c.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS PROG
\* acquisitions per thread
Prog == << <<2, 2>>, <<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 2>>, <<1, 1, 1, 1>> >>[PROG]
Threads == DOMAIN Prog
NULL == 0
(* --algorithm MCS {
variables tail = NULL, next = [t \in Threads |-> NULL], locked = [t \in Threads |-> FALSE],
          inside = {}, queue = << >>, fifo = TRUE, res = [t \in Threads |-> << >>];
process (T \in Threads)
variables i = 1, prev = 0;
{
op_c:    if (i > Prog[self]) goto Done;
ini_w:   next[self] := NULL;
swap_x:  prev := tail; tail := self; queue := Append(queue, self);
         if (prev = NULL) goto spin_r;
odd_w:   locked[tail] := TRUE;
lock_w:  locked[self] := TRUE;
link_w:  next[prev] := self;
spin_r:  await ~locked[self];
         inside := inside \cup {self};
         fifo := fifo /\ Head(queue) = self;
cs_c:    inside := inside \ {self};
         queue := Tail(queue);
nx_r:    if (next[self] # NULL) goto pass_w;
out_x:   if (tail = self) { tail := NULL; goto done; };
wait_r:  await next[self] # NULL;
pass_w:  locked[next[self]] := FALSE;
zero_w:  next[self] := NULL;
done:    i := i + 1; goto op_c;
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "dde13fbc" /\ chksum(tla) = "ba8d7f5a")
VARIABLES pc, tail, next, locked, inside, queue, fifo, res, i, prev

vars == << pc, tail, next, locked, inside, queue, fifo, res, i, prev >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ tail = NULL
        /\ next = [t \in Threads |-> NULL]
        /\ locked = [t \in Threads |-> FALSE]
        /\ inside = {}
        /\ queue = << >>
        /\ fifo = TRUE
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ prev = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Prog[self]
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "ini_w"]
              /\ UNCHANGED << tail, next, locked, inside, queue, fifo, res, i, 
                              prev >>

ini_w(self) == /\ pc[self] = "ini_w"
               /\ next' = [next EXCEPT ![self] = NULL]
               /\ pc' = [pc EXCEPT ![self] = "swap_x"]
               /\ UNCHANGED << tail, locked, inside, queue, fifo, res, i, prev >>

swap_x(self) == /\ pc[self] = "swap_x"
                /\ prev' = [prev EXCEPT ![self] = tail]
                /\ tail' = self
                /\ queue' = Append(queue, self)
                /\ IF prev'[self] = NULL
                      THEN /\ pc' = [pc EXCEPT ![self] = "spin_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "odd_w"]
                /\ UNCHANGED << next, locked, inside, fifo, res, i >>

odd_w(self) == /\ pc[self] = "odd_w"
               /\ locked' = [locked EXCEPT ![tail] = TRUE]
               /\ pc' = [pc EXCEPT ![self] = "lock_w"]
               /\ UNCHANGED << tail, next, inside, queue, fifo, res, i, prev >>

lock_w(self) == /\ pc[self] = "lock_w"
                /\ locked' = [locked EXCEPT ![self] = TRUE]
                /\ pc' = [pc EXCEPT ![self] = "link_w"]
                /\ UNCHANGED << tail, next, inside, queue, fifo, res, i, prev >>

link_w(self) == /\ pc[self] = "link_w"
                /\ next' = [next EXCEPT ![prev[self]] = self]
                /\ pc' = [pc EXCEPT ![self] = "spin_r"]
                /\ UNCHANGED << tail, locked, inside, queue, fifo, res, i, 
                                prev >>

spin_r(self) == /\ pc[self] = "spin_r"
                /\ ~locked[self]
                /\ inside' = (inside \cup {self})
                /\ fifo' = (fifo /\ Head(queue) = self)
                /\ pc' = [pc EXCEPT ![self] = "cs_c"]
                /\ UNCHANGED << tail, next, locked, queue, res, i, prev >>

cs_c(self) == /\ pc[self] = "cs_c"
              /\ inside' = inside \ {self}
              /\ queue' = Tail(queue)
              /\ pc' = [pc EXCEPT ![self] = "nx_r"]
              /\ UNCHANGED << tail, next, locked, fifo, res, i, prev >>

nx_r(self) == /\ pc[self] = "nx_r"
              /\ IF next[self] # NULL
                    THEN /\ pc' = [pc EXCEPT ![self] = "pass_w"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "out_x"]
              /\ UNCHANGED << tail, next, locked, inside, queue, fifo, res, i, 
                              prev >>

out_x(self) == /\ pc[self] = "out_x"
               /\ IF tail = self
                     THEN /\ tail' = NULL
                          /\ pc' = [pc EXCEPT ![self] = "done"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "wait_r"]
                          /\ tail' = tail
               /\ UNCHANGED << next, locked, inside, queue, fifo, res, i, prev >>

wait_r(self) == /\ pc[self] = "wait_r"
                /\ next[self] # NULL
                /\ pc' = [pc EXCEPT ![self] = "pass_w"]
                /\ UNCHANGED << tail, next, locked, inside, queue, fifo, res, 
                                i, prev >>

pass_w(self) == /\ pc[self] = "pass_w"
                /\ locked' = [locked EXCEPT ![next[self]] = FALSE]
                /\ pc' = [pc EXCEPT ![self] = "zero_w"]
                /\ UNCHANGED << tail, next, inside, queue, fifo, res, i, prev >>

zero_w(self) == /\ pc[self] = "zero_w"
                /\ next' = [next EXCEPT ![self] = NULL]
                /\ pc' = [pc EXCEPT ![self] = "done"]
                /\ UNCHANGED << tail, locked, inside, queue, fifo, res, i, 
                                prev >>

done(self) == /\ pc[self] = "done"
              /\ i' = [i EXCEPT ![self] = i[self] + 1]
              /\ pc' = [pc EXCEPT ![self] = "op_c"]
              /\ UNCHANGED << tail, next, locked, inside, queue, fifo, res, 
                              prev >>

T(self) == op_c(self) \/ ini_w(self) \/ swap_x(self) \/ odd_w(self)
              \/ lock_w(self) \/ link_w(self) \/ spin_r(self) \/ cs_c(self)
              \/ nx_r(self) \/ out_x(self) \/ wait_r(self) \/ pass_w(self)
              \/ zero_w(self) \/ done(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
Exclusion == Cardinality(inside) <= 1
Fifo == fifo
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
