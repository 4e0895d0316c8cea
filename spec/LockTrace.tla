------------------------------ MODULE LockTrace ------------------------------
(* Trace specification of a fair mutual-exclusion lock, checked against the   *)
(* recorded histories of the real locks.  Events of one acquisition:          *)
(*   call, [waiting,] enter, exit, return.                                    *)
(* waiting: the acquirer was seen to be blocked inside the acquire operation, *)
(* i.e. its place in the queue is taken.  Whoever calls after that must not   *)
(* enter before it.                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANT Fair   \* first come, first served is demanded as well
Nodes == ndJsonDeserialize(IOEnv.TRACE)
NLeaves == atoi(IOEnv.LEAVES)
VARIABLES n, holder, phase, ahead, count
vars == <<n, holder, phase, ahead, count>>
Threads == 0..15
Ty(c) == Nodes[c][1]
Th(c) == Nodes[c][2]
Arg(c) == Nodes[c][4]
Kids(c) == Nodes[c][6]
Leaf(c) == Nodes[c][7]
CALL == 0  RET == 1  FIN == 2  WAIT == 4  ENTER == 5  EXIT == 6
Free == -1

Init == /\ n = 1 /\ holder = Free /\ count = 0
        /\ phase = [t \in Threads |-> "out"]
        /\ ahead = [t \in Threads |-> {}]
Accept(c) == IF Leaf(c) > 0 THEN TLCSet(Leaf(c), TRUE) ELSE TRUE

Call(c) == LET t == Th(c) IN
  /\ Ty(c) = CALL /\ phase[t] = "out"
  /\ phase' = [phase EXCEPT ![t] = "trying"]
  /\ ahead' = [ahead EXCEPT ![t] = {u \in Threads : phase[u] = "waiting"}]
  /\ UNCHANGED <<holder, count>>
Wait(c) == LET t == Th(c) IN
  /\ Ty(c) = WAIT /\ phase[t] = "trying"
  /\ phase' = [phase EXCEPT ![t] = "waiting"]
  /\ UNCHANGED <<holder, ahead, count>>
Enter(c) == LET t == Th(c) IN
  /\ Ty(c) = ENTER /\ phase[t] \in {"trying", "waiting"}
  /\ holder = Free            \* mutual exclusion
  /\ Fair => ahead[t] = {}    \* first come, first served
  /\ holder' = t
  /\ phase' = [phase EXCEPT ![t] = "in"]
  /\ ahead' = [u \in Threads |-> ahead[u] \ {t}]
  /\ count' = count + 1
Exit(c) == LET t == Th(c) IN
  /\ Ty(c) = EXIT /\ phase[t] = "in" /\ holder = t
  /\ holder' = Free
  /\ phase' = [phase EXCEPT ![t] = "leaving"]
  /\ UNCHANGED <<ahead, count>>
Return(c) == LET t == Th(c) IN
  /\ Ty(c) = RET /\ phase[t] = "leaving"
  /\ phase' = [phase EXCEPT ![t] = "out"]
  /\ UNCHANGED <<holder, ahead, count>>
\* the data written only inside critical sections lost no update
Final(c) == /\ Ty(c) = FIN /\ Arg(c) = count /\ holder = Free
            /\ UNCHANGED <<holder, phase, ahead, count>>
Next == \E i \in 1..Len(Kids(n)) :
          LET c == Kids(n)[i] IN
            /\ Call(c) \/ Wait(c) \/ Enter(c) \/ Exit(c) \/ Return(c) \/ Final(c)
            /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
ASSUME \A l \in 1..NLeaves : TLCSet(l, FALSE)
Accepted == \A l \in 1..NLeaves : TLCGet(l) = TRUE \/ PrintT(<<"REJECTED", l>>)
=============================================================================
