------------------------------ MODULE Placement ------------------------------
(* Trace specification of the placement of threads on the cores of a machine  *)
(* of NODES equal NUMA nodes.  On a machine with two hardware threads per     *)
(* core, the system numbers the first hardware threads of all cores node by   *)
(* node and then the second ones.                                             *)
(*  - the first NCPU thread ids get distinct cores, every other id some core  *)
(*  - the node of a thread is the node in which its core lies; the thread is  *)
(*    pinned to the core that it reports                                      *)
(*  - flat: round robin over the cores                                        *)
(*  - sparse: every prefix of the ids is spread evenly over the nodes         *)
(*  - sparse: physical cores first; sparse with SMT: both hardware threads of *)
(*    a core before the next core                                             *)
EXTENDS TraceLib
VARIABLES n, nodes, smt, cpus, pol, core
vars == <<n, nodes, smt, cpus, pol, core>>
Init == n = 1 /\ nodes = 1 /\ smt = 0 /\ cpus = 1 /\ pol = 4 /\ core = << >>

FLAT == 1  SPARSE == 2  DENSE == 3  SPARSESMT == 4  DENSESMT == 5
Per == cpus \div nodes
Phys(c) == IF smt = 1 THEN c % (cpus \div 2) ELSE c
NodeOf(c) == IF smt = 1 THEN Phys(c) \div (Per \div 2) ELSE c \div Per
Used(s) == {s[i] : i \in 1..Len(s)}
OnNode(s, d) == Cardinality({i \in 1..Len(s) : NodeOf(s[i]) = d})
PhysOnNode(s, d) == Cardinality({Phys(c) : c \in {x \in Used(s) : NodeOf(x) = d}})

Machine(c) == /\ Ty(c) = T_m
              /\ nodes' = Th(c) /\ smt' = Op(c) /\ cpus' = Arg(c)
              /\ Res(c)[1] = Arg(c)
              /\ UNCHANGED <<pol, core>>
Policy(c) == /\ Ty(c) = T_p
             /\ pol' = IF Arg(c) = 0 THEN pol ELSE IF Arg(c) > DENSESMT THEN DENSESMT ELSE Arg(c)
             /\ Res(c)[1] = pol'
             /\ UNCHANGED <<nodes, smt, cpus, core>>
\* s: cores of the ids 0..Len(s)-1
Good(s) ==
  LET k == Len(s) x == s[Len(s)] IN
  /\ \A i \in 1..k - 1 : s[i] # x
  /\ pol = FLAT => x = (k - 1) % cpus
  /\ pol = DENSE /\ smt = 0 => NodeOf(x) = (k - 1) \div Per
  /\ pol \in {SPARSE, SPARSESMT} =>
       \A d \in 0..nodes - 1 : OnNode(s, d) >= OnNode(s, NodeOf(x)) - 1
  \* with a single node the system does not tell whether there are two hardware threads per core
  /\ pol = SPARSE /\ smt = 1 /\ k <= cpus \div 2 =>
       \A i \in 1..k - 1 : Phys(s[i]) # Phys(x)
  /\ pol = SPARSESMT /\ smt = 1 =>
       LET d == NodeOf(x) IN PhysOnNode(s, d) = (OnNode(s, d) + 1) \div 2
Place(c) == LET x == Arg(c) IN
  /\ Ty(c) = T_c
  /\ Op(c) = Len(core)
  /\ x \in 0..cpus - 1
  /\ core' = Append(core, x)
  /\ Good(core')
  /\ Res(c)[1] = NodeOf(x) /\ Res(c)[2] = NodeOf(x)
  /\ Res(c)[3] = x /\ Res(c)[4] = NodeOf(x) /\ Res(c)[5] = x /\ Res(c)[6] = 0
  /\ UNCHANGED <<nodes, smt, cpus, pol>>
Beyond(c) == /\ Ty(c) = T_d
             /\ Arg(c) \in 0..cpus - 1 /\ Res(c)[1] = NodeOf(Arg(c)) /\ Res(c)[2] = Res(c)[1]
             /\ pol = FLAT => Arg(c) = Op(c) % cpus
             /\ UNCHANGED <<nodes, smt, cpus, pol, core>>
Next == \E i \in 1..Len(Kids(n)) : LET c == Kids(n)[i] IN
          /\ Machine(c) \/ Policy(c) \/ Place(c) \/ Beyond(c)
          /\ n' = c /\ Accept(c)
Spec == Init /\ [][Next]_vars
Accepted == AllAccepted
=============================================================================
