-------------------------------- MODULE AlgCLH --------------------------------
(* The CLH queue lock of libconcurrent/concurrent/clh.c.  A thread takes over *)
(* the node of its predecessor when it releases the lock.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS PROG
Prog == << <<2, 2>>, <<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 2>>, <<1, 1, 1, 1>> >>[PROG]
Threads == DOMAIN Prog
(* --algorithm CLH {
variables tail = 0, locked = [n \in {0} \cup Threads |-> FALSE], inside = {}, queue = << >>, fifo = TRUE, res = [t \in Threads |-> << >>];
process (T \in Threads)
variables i = 1, mine = self, pred = 0;
{
op_c:    if (i > Prog[self]) goto Done;
ini_w:   locked[mine] := TRUE;
swap_x:  pred := tail; tail := mine; queue := Append(queue, self);
spin_r:  await ~locked[pred];
         inside := inside \cup {self};
         fifo := fifo /\ Head(queue) = self;
cs_c:    inside := inside \ {self};
         queue := Tail(queue);
unl_w:   locked[mine] := FALSE; mine := pred;
         i := i + 1; goto op_c;
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "8d35d3a" /\ chksum(tla) = "55ab44bc")
VARIABLES pc, tail, locked, inside, queue, fifo, res, i, mine, pred

vars == << pc, tail, locked, inside, queue, fifo, res, i, mine, pred >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ tail = 0
        /\ locked = [n \in {0} \cup Threads |-> FALSE]
        /\ inside = {}
        /\ queue = << >>
        /\ fifo = TRUE
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ mine = [self \in Threads |-> self]
        /\ pred = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Prog[self]
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "ini_w"]
              /\ UNCHANGED << tail, locked, inside, queue, fifo, res, i, mine, 
                              pred >>

ini_w(self) == /\ pc[self] = "ini_w"
               /\ locked' = [locked EXCEPT ![mine[self]] = TRUE]
               /\ pc' = [pc EXCEPT ![self] = "swap_x"]
               /\ UNCHANGED << tail, inside, queue, fifo, res, i, mine, pred >>

swap_x(self) == /\ pc[self] = "swap_x"
                /\ pred' = [pred EXCEPT ![self] = tail]
                /\ tail' = mine[self]
                /\ queue' = Append(queue, self)
                /\ pc' = [pc EXCEPT ![self] = "spin_r"]
                /\ UNCHANGED << locked, inside, fifo, res, i, mine >>

spin_r(self) == /\ pc[self] = "spin_r"
                /\ ~locked[pred[self]]
                /\ inside' = (inside \cup {self})
                /\ fifo' = (fifo /\ Head(queue) = self)
                /\ pc' = [pc EXCEPT ![self] = "cs_c"]
                /\ UNCHANGED << tail, locked, queue, res, i, mine, pred >>

cs_c(self) == /\ pc[self] = "cs_c"
              /\ inside' = inside \ {self}
              /\ queue' = Tail(queue)
              /\ pc' = [pc EXCEPT ![self] = "unl_w"]
              /\ UNCHANGED << tail, locked, fifo, res, i, mine, pred >>

unl_w(self) == /\ pc[self] = "unl_w"
               /\ locked' = [locked EXCEPT ![mine[self]] = FALSE]
               /\ mine' = [mine EXCEPT ![self] = pred[self]]
               /\ i' = [i EXCEPT ![self] = i[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "op_c"]
               /\ UNCHANGED << tail, inside, queue, fifo, res, pred >>

T(self) == op_c(self) \/ ini_w(self) \/ swap_x(self) \/ spin_r(self)
              \/ cs_c(self) \/ unl_w(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
Exclusion == Cardinality(inside) <= 1
Fifo == fifo
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
