------------------------------ MODULE TraceLib -------------------------------
(* Reading recorded histories: a prefix tree of events, one line of JSON per  *)
(* node: [type, thread, op, arg, rest, children, leaf number, foreseen].      *)
(* A trace specification walks down the tree with actions that are enabled    *)
(* only for the events it allows; a history is accepted iff its leaf is       *)
(* reached.  An event "x" (crash, corruption, no progress) is allowed by none.*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Nodes == ndJsonDeserialize(IOEnv.TRACE)
NLeaves == atoi(IOEnv.LEAVES)
Ty(c) == Nodes[c][1]
Th(c) == Nodes[c][2]
Op(c) == Nodes[c][3]
Arg(c) == Nodes[c][4]
Res(c) == Nodes[c][5]
Kids(c) == Nodes[c][6]
Leaf(c) == Nodes[c][7]

\* event letters (see tools/tlc.py)
T_c == 0  T_r == 1  T_f == 2  T_x == 3  T_w == 4  T_e == 5  T_q == 6  T_a == 7  T_b == 8  T_d == 9
T_g == 10 T_h == 11 T_i == 12 T_j == 13 T_k == 14 T_l == 15 T_m == 16 T_n == 17 T_o == 18 T_p == 19
T_s == 20 T_t == 21 T_u == 22 T_v == 23 T_y == 24 T_z == 25

Accept(c) == IF Leaf(c) > 0 THEN TLCSet(Leaf(c), TRUE) ELSE TRUE
ASSUME \A l \in 1..NLeaves : TLCSet(l, FALSE)
\* every recorded history is a behaviour of the specification
AllAccepted == \A l \in 1..NLeaves : TLCGet(l) = TRUE \/ PrintT(<<"REJECTED", l>>)
=============================================================================
