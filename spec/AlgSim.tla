-------------------------------- MODULE AlgSim --------------------------------
(* The wait-free universal construction of libconcurrent/concurrent/sim.c.    *)
(* A thread announces its request and flips its toggle; then it tries twice   *)
(* to install (compare-and-swap of the stamped index sp) a copy of the state  *)
(* with all announced requests applied.  Records of the state are recycled:   *)
(* SLOTS records per thread, so a copy may read a record that is being        *)
(* overwritten; the stamp tells.                                              *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG, SLOTS
Kind == "chain"
Prog == LogProg[PROG]
Threads == DOMAIN Prog
Slots == {<<0, 0>>} \cup (Threads \X (0..SLOTS - 1))
(* --algorithm Sim {
variables toggles = [t \in Threads |-> 0], announce = [t \in Threads |-> 0], sp = [slot |-> <<0, 0>>, seq |-> 0],
          pst = [s \in Slots |-> 0], papplied = [s \in Slots |-> [t \in Threads |-> 0]], pret = [s \in Slots |-> [t \in Threads |-> 0]],
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
  macro Digest(a, q) { pret[mine][q] := pst[mine]; pst[mine] := (pst[mine] * 37 + a) % 1000003; }
process (T \in Threads)
variables i = 1, bit = 0, local = 0, mine = <<0, 0>>, old = [slot |-> <<0, 0>>, seq |-> 0], lt = [t \in Threads |-> 0], todo = {}, j = 0, q = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done; else { Call(); bit := 1 - bit; mine := <<self, local>>; j := 0; };
ann_w:   announce[self] := Prog[self][i][2];
tog_x:   toggles[self] := 1 - toggles[self];
try:     if (j = 2) goto fin_r; else j := j + 1;
sp_r:    old := sp;
app_r:   if (papplied[old.slot][self] = bit) goto fin_r;
cp1_r:   pst[mine] := pst[old.slot];
cp2_r:   papplied[mine] := papplied[old.slot];
cp3_r:   pret[mine] := pret[old.slot];
tog_r:   lt := toggles;
val_r:   if (sp # old) goto try;
own_w:   todo := { t \in Threads : lt[t] # papplied[mine][t] } \ {self};
         Digest(Prog[self][i][2], self);
help_r:  while (todo # {}) {
           q := CHOOSE t \in todo : \A u \in todo : t <= u;
           todo := todo \ {q};
           pret[mine][q] := pst[mine];
           pst[mine] := (pst[mine] * 37 + announce[q]) % 1000003;
         };
set_w:   papplied[mine] := lt;
chk_r:   if (sp # old) goto try;
cas_x:   if (sp = old) {
           sp := [slot |-> mine, seq |-> old.seq + 1];
           local := (local + 1) % SLOTS;
           Ret(<<pret[mine][self]>>);
         } else goto try;
fin_r:   old := sp;
ret_r:   Ret(<<pret[old.slot][self]>>);
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "5f710076" /\ chksum(tla) = "e7e06841")
VARIABLES pc, toggles, announce, sp, pst, papplied, pret, mon, res, i, bit, 
          local, mine, old, lt, todo, j, q

vars == << pc, toggles, announce, sp, pst, papplied, pret, mon, res, i, bit, 
           local, mine, old, lt, todo, j, q >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ toggles = [t \in Threads |-> 0]
        /\ announce = [t \in Threads |-> 0]
        /\ sp = [slot |-> <<0, 0>>, seq |-> 0]
        /\ pst = [s \in Slots |-> 0]
        /\ papplied = [s \in Slots |-> [t \in Threads |-> 0]]
        /\ pret = [s \in Slots |-> [t \in Threads |-> 0]]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ bit = [self \in Threads |-> 0]
        /\ local = [self \in Threads |-> 0]
        /\ mine = [self \in Threads |-> <<0, 0>>]
        /\ old = [self \in Threads |-> [slot |-> <<0, 0>>, seq |-> 0]]
        /\ lt = [self \in Threads |-> [t \in Threads |-> 0]]
        /\ todo = [self \in Threads |-> {}]
        /\ j = [self \in Threads |-> 0]
        /\ q = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << mon, bit, mine, j >>
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ bit' = [bit EXCEPT ![self] = 1 - bit[self]]
                         /\ mine' = [mine EXCEPT ![self] = <<self, local[self]>>]
                         /\ j' = [j EXCEPT ![self] = 0]
                         /\ pc' = [pc EXCEPT ![self] = "ann_w"]
              /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, res, 
                              i, local, old, lt, todo, q >>

ann_w(self) == /\ pc[self] = "ann_w"
               /\ announce' = [announce EXCEPT ![self] = Prog[self][i[self]][2]]
               /\ pc' = [pc EXCEPT ![self] = "tog_x"]
               /\ UNCHANGED << toggles, sp, pst, papplied, pret, mon, res, i, 
                               bit, local, mine, old, lt, todo, j, q >>

tog_x(self) == /\ pc[self] = "tog_x"
               /\ toggles' = [toggles EXCEPT ![self] = 1 - toggles[self]]
               /\ pc' = [pc EXCEPT ![self] = "try"]
               /\ UNCHANGED << announce, sp, pst, papplied, pret, mon, res, i, 
                               bit, local, mine, old, lt, todo, j, q >>

try(self) == /\ pc[self] = "try"
             /\ IF j[self] = 2
                   THEN /\ pc' = [pc EXCEPT ![self] = "fin_r"]
                        /\ j' = j
                   ELSE /\ j' = [j EXCEPT ![self] = j[self] + 1]
                        /\ pc' = [pc EXCEPT ![self] = "sp_r"]
             /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, mon, 
                             res, i, bit, local, mine, old, lt, todo, q >>

sp_r(self) == /\ pc[self] = "sp_r"
              /\ old' = [old EXCEPT ![self] = sp]
              /\ pc' = [pc EXCEPT ![self] = "app_r"]
              /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, mon, 
                              res, i, bit, local, mine, lt, todo, j, q >>

app_r(self) == /\ pc[self] = "app_r"
               /\ IF papplied[old[self].slot][self] = bit[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "fin_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "cp1_r"]
               /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, mon, 
                               res, i, bit, local, mine, old, lt, todo, j, q >>

cp1_r(self) == /\ pc[self] = "cp1_r"
               /\ pst' = [pst EXCEPT ![mine[self]] = pst[old[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "cp2_r"]
               /\ UNCHANGED << toggles, announce, sp, papplied, pret, mon, res, 
                               i, bit, local, mine, old, lt, todo, j, q >>

cp2_r(self) == /\ pc[self] = "cp2_r"
               /\ papplied' = [papplied EXCEPT ![mine[self]] = papplied[old[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "cp3_r"]
               /\ UNCHANGED << toggles, announce, sp, pst, pret, mon, res, i, 
                               bit, local, mine, old, lt, todo, j, q >>

cp3_r(self) == /\ pc[self] = "cp3_r"
               /\ pret' = [pret EXCEPT ![mine[self]] = pret[old[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "tog_r"]
               /\ UNCHANGED << toggles, announce, sp, pst, papplied, mon, res, 
                               i, bit, local, mine, old, lt, todo, j, q >>

tog_r(self) == /\ pc[self] = "tog_r"
               /\ lt' = [lt EXCEPT ![self] = toggles]
               /\ pc' = [pc EXCEPT ![self] = "val_r"]
               /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, mon, 
                               res, i, bit, local, mine, old, todo, j, q >>

val_r(self) == /\ pc[self] = "val_r"
               /\ IF sp # old[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "try"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "own_w"]
               /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, mon, 
                               res, i, bit, local, mine, old, lt, todo, j, q >>

own_w(self) == /\ pc[self] = "own_w"
               /\ todo' = [todo EXCEPT ![self] = { t \in Threads : lt[self][t] # papplied[mine[self]][t] } \ {self}]
               /\ pret' = [pret EXCEPT ![mine[self]][self] = pst[mine[self]]]
               /\ pst' = [pst EXCEPT ![mine[self]] = (pst[mine[self]] * 37 + (Prog[self][i[self]][2])) % 1000003]
               /\ pc' = [pc EXCEPT ![self] = "help_r"]
               /\ UNCHANGED << toggles, announce, sp, papplied, mon, res, i, 
                               bit, local, mine, old, lt, j, q >>

help_r(self) == /\ pc[self] = "help_r"
                /\ IF todo[self] # {}
                      THEN /\ q' = [q EXCEPT ![self] = CHOOSE t \in todo[self] : \A u \in todo[self] : t <= u]
                           /\ todo' = [todo EXCEPT ![self] = todo[self] \ {q'[self]}]
                           /\ pret' = [pret EXCEPT ![mine[self]][q'[self]] = pst[mine[self]]]
                           /\ pst' = [pst EXCEPT ![mine[self]] = (pst[mine[self]] * 37 + announce[q'[self]]) % 1000003]
                           /\ pc' = [pc EXCEPT ![self] = "help_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "set_w"]
                           /\ UNCHANGED << pst, pret, todo, q >>
                /\ UNCHANGED << toggles, announce, sp, papplied, mon, res, i, 
                                bit, local, mine, old, lt, j >>

set_w(self) == /\ pc[self] = "set_w"
               /\ papplied' = [papplied EXCEPT ![mine[self]] = lt[self]]
               /\ pc' = [pc EXCEPT ![self] = "chk_r"]
               /\ UNCHANGED << toggles, announce, sp, pst, pret, mon, res, i, 
                               bit, local, mine, old, lt, todo, j, q >>

chk_r(self) == /\ pc[self] = "chk_r"
               /\ IF sp # old[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "try"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "cas_x"]
               /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, mon, 
                               res, i, bit, local, mine, old, lt, todo, j, q >>

cas_x(self) == /\ pc[self] = "cas_x"
               /\ IF sp = old[self]
                     THEN /\ sp' = [slot |-> mine[self], seq |-> old[self].seq + 1]
                          /\ local' = [local EXCEPT ![self] = (local[self] + 1) % SLOTS]
                          /\ mon' = MonRet(Kind, mon, self, (<<pret[mine[self]][self]>>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<<pret[mine[self]][self]>>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "try"]
                          /\ UNCHANGED << sp, mon, res, i, local >>
               /\ UNCHANGED << toggles, announce, pst, papplied, pret, bit, 
                               mine, old, lt, todo, j, q >>

fin_r(self) == /\ pc[self] = "fin_r"
               /\ old' = [old EXCEPT ![self] = sp]
               /\ pc' = [pc EXCEPT ![self] = "ret_r"]
               /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, mon, 
                               res, i, bit, local, mine, lt, todo, j, q >>

ret_r(self) == /\ pc[self] = "ret_r"
               /\ mon' = MonRet(Kind, mon, self, (<<pret[old[self].slot][self]>>))
               /\ res' = [res EXCEPT ![self] = Append(res[self], (<<pret[old[self].slot][self]>>))]
               /\ i' = [i EXCEPT ![self] = i[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "op_c"]
               /\ UNCHANGED << toggles, announce, sp, pst, papplied, pret, bit, 
                               local, mine, old, lt, todo, j, q >>

T(self) == op_c(self) \/ ann_w(self) \/ tog_x(self) \/ try(self)
              \/ sp_r(self) \/ app_r(self) \/ cp1_r(self) \/ cp2_r(self)
              \/ cp3_r(self) \/ tog_r(self) \/ val_r(self) \/ own_w(self)
              \/ help_r(self) \/ set_w(self) \/ chk_r(self) \/ cas_x(self)
              \/ fin_r(self) \/ ret_r(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
