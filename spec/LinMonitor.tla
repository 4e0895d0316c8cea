----------------------------- MODULE LinMonitor ------------------------------
(* Linearizability as a state property of an algorithm specification.  The    *)
(* ghost variable mon is the set of configurations <<abstract state, pending  *)
(* operations>> that explain the calls and returns so far; an operation takes *)
(* effect (Objects!Apply) once between its call and its return.  The          *)
(* algorithm is linearizable iff mon never becomes empty.                     *)
EXTENDS Objects

NoOp == << >>
MonInit(kind, T) == { [s |-> InitObj(kind), p |-> [t \in T |-> NoOp]] }
MonCall(C, t, op, a) == { [c EXCEPT !.p[t] = <<op, a>>] : c \in C }

LinOne(kind, c) ==
  { LET e == Apply(kind, c.s, c.p[t][1], c.p[t][2]) IN
      [s |-> e.s, p |-> [c.p EXCEPT ![t] = <<c.p[t][1], c.p[t][2], e.r>>]] : t \in { u \in DOMAIN c.p : Len(c.p[u]) = 2 } }
RECURSIVE LinClosure(_, _)
LinClosure(kind, C) ==
  LET D == C \cup UNION { LinOne(kind, c) : c \in C } IN IF D = C THEN C ELSE LinClosure(kind, D)
\* the operation of t returns r
MonRet(kind, C, t, r) ==
  { [c EXCEPT !.p[t] = NoOp] : c \in { x \in LinClosure(kind, C) : Len(x.p[t]) = 3 /\ x.p[t][3] = r } }
Linearizable(C) == C # {}
=============================================================================
