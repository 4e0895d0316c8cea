------------------------------ MODULE AlgSimStack ------------------------------
(* The wait-free stack of libconcurrent/concurrent/simstack.c: AlgSim with a  *)
(* linked stack as the state.  Pushed nodes come from the pool of the helper; *)
(* popped nodes go to the pool of the thread whose compare-and-swap removed   *)
(* them; the nodes of a failed attempt go back.  Pushes of a batch precede    *)
(* its pops.                                                                  *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG, SLOTS
Kind == "stack"
Prog == CollProg[PROG]
Threads == DOMAIN Prog
POP == 0
NULL == 0
NNodes == 3 * NumAdds(Prog) + 2
Nodes == 0..NNodes
Slots == {<<0, 0>>} \cup (Threads \X (0..SLOTS - 1))
RECURSIVE Chain(_, _, _)
Chain(nx, h, k) == IF k = 0 THEN << >> ELSE <<h>> \o Chain(nx, nx[h], k - 1)
Rev(s) == [x \in 1..Len(s) |-> s[Len(s) + 1 - x]]
Res(a) == IF a = POP THEN <<EMPTY>> ELSE << >>
(* --algorithm SimStack {
variables toggles = [t \in Threads |-> 0], announce = [t \in Threads |-> 0], sp = [slot |-> <<0, 0>>, seq |-> 0],
          phead = [s \in Slots |-> NULL], papplied = [s \in Slots |-> [t \in Threads |-> 0]], pret = [s \in Slots |-> [t \in Threads |-> 0]],
          next = [nd \in Nodes |-> NULL], val = [nd \in Nodes |-> 0], fresh = 1, pool = [t \in Threads |-> << >>],
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
process (T \in Threads)
variables i = 1, bit = 0, local = 0, mine = <<0, 0>>, old = [slot |-> <<0, 0>>, seq |-> 0], lt = [t \in Threads |-> 0], todo = {}, pops = {},
          j = 0, q = 0, n = 0, pushed = 0, popped = 0, list = 0;
{
op_c:    if (i > Len(Prog[self])) goto Done; else { Call(); bit := 1 - bit; mine := <<self, local>>; j := 0; };
ann_w:   announce[self] := Prog[self][i][2];
tog_x:   toggles[self] := 1 - toggles[self];
try:     if (j = 2) goto fin_r; else j := j + 1;
sp_r:    old := sp;
app_r:   if (papplied[old.slot][self] = bit) goto fin_r;
cp1_r:   phead[mine] := phead[old.slot];
cp2_r:   papplied[mine] := papplied[old.slot];
cp3_r:   pret[mine] := pret[old.slot];
tog_r:   lt := toggles;
val_r:   if (sp # old) goto try;
diff:    todo := { t \in Threads : lt[t] # papplied[mine][t] };
         pops := {}; pushed := 0; popped := 0;
push_r:  while (todo # {}) {
           q := CHOOSE t \in todo : \A u \in todo : t <= u;
           todo := todo \ {q};
           if (announce[q] = POP) pops := pops \cup {q};
           else {
             if (pool[self] # << >>) { n := Head(pool[self]); pool[self] := Tail(pool[self]); }
             else { n := fresh; fresh := fresh + 1; };
             val[n] := announce[q]; next[n] := phead[mine]; phead[mine] := n; pushed := pushed + 1;
           }
         };
list:    list := phead[mine];
pop_r:   while (pops # {}) {
           q := CHOOSE t \in pops : \A u \in pops : t <= u;
           pops := pops \ {q};
           if (phead[mine] # NULL) { pret[mine][q] := val[phead[mine]]; phead[mine] := next[phead[mine]]; popped := popped + 1; }
           else pret[mine][q] := EMPTY;
  popv_r:  if (sp # old) goto set_w;
         };
set_w:   papplied[mine] := lt;
chk_r:   if (sp # old) goto fail;
cas_x:   if (sp = old) {
           sp := [slot |-> mine, seq |-> old.seq + 1];
           local := (local + 1) % SLOTS;
  rec:     pool[self] := Rev(Chain(next, list, popped)) \o pool[self];
           if (Prog[self][i][1] = 0) { Ret(<< >>); } else { Ret(<<pret[mine][self]>>); };
         };
fail:    pool[self] := Rev(Chain(next, list, pushed)) \o pool[self];
         goto try;
fin_r:   old := sp;
ret_r:   if (Prog[self][i][1] = 0) { Ret(<< >>); } else { Ret(<<pret[old.slot][self]>>); };
}
} *)
\* BEGIN TRANSLATION
\* Label list of process T at line 55 col 10 changed to list_
VARIABLES pc, toggles, announce, sp, phead, papplied, pret, next, val, fresh, 
          pool, mon, res, i, bit, local, mine, old, lt, todo, pops, j, q, n, 
          pushed, popped, list

vars == << pc, toggles, announce, sp, phead, papplied, pret, next, val, fresh, 
           pool, mon, res, i, bit, local, mine, old, lt, todo, pops, j, q, n, 
           pushed, popped, list >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ toggles = [t \in Threads |-> 0]
        /\ announce = [t \in Threads |-> 0]
        /\ sp = [slot |-> <<0, 0>>, seq |-> 0]
        /\ phead = [s \in Slots |-> NULL]
        /\ papplied = [s \in Slots |-> [t \in Threads |-> 0]]
        /\ pret = [s \in Slots |-> [t \in Threads |-> 0]]
        /\ next = [nd \in Nodes |-> NULL]
        /\ val = [nd \in Nodes |-> 0]
        /\ fresh = 1
        /\ pool = [t \in Threads |-> << >>]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ bit = [self \in Threads |-> 0]
        /\ local = [self \in Threads |-> 0]
        /\ mine = [self \in Threads |-> <<0, 0>>]
        /\ old = [self \in Threads |-> [slot |-> <<0, 0>>, seq |-> 0]]
        /\ lt = [self \in Threads |-> [t \in Threads |-> 0]]
        /\ todo = [self \in Threads |-> {}]
        /\ pops = [self \in Threads |-> {}]
        /\ j = [self \in Threads |-> 0]
        /\ q = [self \in Threads |-> 0]
        /\ n = [self \in Threads |-> 0]
        /\ pushed = [self \in Threads |-> 0]
        /\ popped = [self \in Threads |-> 0]
        /\ list = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << mon, bit, mine, j >>
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ bit' = [bit EXCEPT ![self] = 1 - bit[self]]
                         /\ mine' = [mine EXCEPT ![self] = <<self, local[self]>>]
                         /\ j' = [j EXCEPT ![self] = 0]
                         /\ pc' = [pc EXCEPT ![self] = "ann_w"]
              /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                              next, val, fresh, pool, res, i, local, old, lt, 
                              todo, pops, q, n, pushed, popped, list >>

ann_w(self) == /\ pc[self] = "ann_w"
               /\ announce' = [announce EXCEPT ![self] = Prog[self][i[self]][2]]
               /\ pc' = [pc EXCEPT ![self] = "tog_x"]
               /\ UNCHANGED << toggles, sp, phead, papplied, pret, next, val, 
                               fresh, pool, mon, res, i, bit, local, mine, old, 
                               lt, todo, pops, j, q, n, pushed, popped, list >>

tog_x(self) == /\ pc[self] = "tog_x"
               /\ toggles' = [toggles EXCEPT ![self] = 1 - toggles[self]]
               /\ pc' = [pc EXCEPT ![self] = "try"]
               /\ UNCHANGED << announce, sp, phead, papplied, pret, next, val, 
                               fresh, pool, mon, res, i, bit, local, mine, old, 
                               lt, todo, pops, j, q, n, pushed, popped, list >>

try(self) == /\ pc[self] = "try"
             /\ IF j[self] = 2
                   THEN /\ pc' = [pc EXCEPT ![self] = "fin_r"]
                        /\ j' = j
                   ELSE /\ j' = [j EXCEPT ![self] = j[self] + 1]
                        /\ pc' = [pc EXCEPT ![self] = "sp_r"]
             /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                             next, val, fresh, pool, mon, res, i, bit, local, 
                             mine, old, lt, todo, pops, q, n, pushed, popped, 
                             list >>

sp_r(self) == /\ pc[self] = "sp_r"
              /\ old' = [old EXCEPT ![self] = sp]
              /\ pc' = [pc EXCEPT ![self] = "app_r"]
              /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                              next, val, fresh, pool, mon, res, i, bit, local, 
                              mine, lt, todo, pops, j, q, n, pushed, popped, 
                              list >>

app_r(self) == /\ pc[self] = "app_r"
               /\ IF papplied[old[self].slot][self] = bit[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "fin_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "cp1_r"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                               next, val, fresh, pool, mon, res, i, bit, local, 
                               mine, old, lt, todo, pops, j, q, n, pushed, 
                               popped, list >>

cp1_r(self) == /\ pc[self] = "cp1_r"
               /\ phead' = [phead EXCEPT ![mine[self]] = phead[old[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "cp2_r"]
               /\ UNCHANGED << toggles, announce, sp, papplied, pret, next, 
                               val, fresh, pool, mon, res, i, bit, local, mine, 
                               old, lt, todo, pops, j, q, n, pushed, popped, 
                               list >>

cp2_r(self) == /\ pc[self] = "cp2_r"
               /\ papplied' = [papplied EXCEPT ![mine[self]] = papplied[old[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "cp3_r"]
               /\ UNCHANGED << toggles, announce, sp, phead, pret, next, val, 
                               fresh, pool, mon, res, i, bit, local, mine, old, 
                               lt, todo, pops, j, q, n, pushed, popped, list >>

cp3_r(self) == /\ pc[self] = "cp3_r"
               /\ pret' = [pret EXCEPT ![mine[self]] = pret[old[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "tog_r"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, next, 
                               val, fresh, pool, mon, res, i, bit, local, mine, 
                               old, lt, todo, pops, j, q, n, pushed, popped, 
                               list >>

tog_r(self) == /\ pc[self] = "tog_r"
               /\ lt' = [lt EXCEPT ![self] = toggles]
               /\ pc' = [pc EXCEPT ![self] = "val_r"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                               next, val, fresh, pool, mon, res, i, bit, local, 
                               mine, old, todo, pops, j, q, n, pushed, popped, 
                               list >>

val_r(self) == /\ pc[self] = "val_r"
               /\ IF sp # old[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "try"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "diff"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                               next, val, fresh, pool, mon, res, i, bit, local, 
                               mine, old, lt, todo, pops, j, q, n, pushed, 
                               popped, list >>

diff(self) == /\ pc[self] = "diff"
              /\ todo' = [todo EXCEPT ![self] = { t \in Threads : lt[self][t] # papplied[mine[self]][t] }]
              /\ pops' = [pops EXCEPT ![self] = {}]
              /\ pushed' = [pushed EXCEPT ![self] = 0]
              /\ popped' = [popped EXCEPT ![self] = 0]
              /\ pc' = [pc EXCEPT ![self] = "push_r"]
              /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                              next, val, fresh, pool, mon, res, i, bit, local, 
                              mine, old, lt, j, q, n, list >>

push_r(self) == /\ pc[self] = "push_r"
                /\ IF todo[self] # {}
                      THEN /\ q' = [q EXCEPT ![self] = CHOOSE t \in todo[self] : \A u \in todo[self] : t <= u]
                           /\ todo' = [todo EXCEPT ![self] = todo[self] \ {q'[self]}]
                           /\ IF announce[q'[self]] = POP
                                 THEN /\ pops' = [pops EXCEPT ![self] = pops[self] \cup {q'[self]}]
                                      /\ UNCHANGED << phead, next, val, fresh, 
                                                      pool, n, pushed >>
                                 ELSE /\ IF pool[self] # << >>
                                            THEN /\ n' = [n EXCEPT ![self] = Head(pool[self])]
                                                 /\ pool' = [pool EXCEPT ![self] = Tail(pool[self])]
                                                 /\ fresh' = fresh
                                            ELSE /\ n' = [n EXCEPT ![self] = fresh]
                                                 /\ fresh' = fresh + 1
                                                 /\ pool' = pool
                                      /\ val' = [val EXCEPT ![n'[self]] = announce[q'[self]]]
                                      /\ next' = [next EXCEPT ![n'[self]] = phead[mine[self]]]
                                      /\ phead' = [phead EXCEPT ![mine[self]] = n'[self]]
                                      /\ pushed' = [pushed EXCEPT ![self] = pushed[self] + 1]
                                      /\ pops' = pops
                           /\ pc' = [pc EXCEPT ![self] = "push_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "list_"]
                           /\ UNCHANGED << phead, next, val, fresh, pool, todo, 
                                           pops, q, n, pushed >>
                /\ UNCHANGED << toggles, announce, sp, papplied, pret, mon, 
                                res, i, bit, local, mine, old, lt, j, popped, 
                                list >>

list_(self) == /\ pc[self] = "list_"
               /\ list' = [list EXCEPT ![self] = phead[mine[self]]]
               /\ pc' = [pc EXCEPT ![self] = "pop_r"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                               next, val, fresh, pool, mon, res, i, bit, local, 
                               mine, old, lt, todo, pops, j, q, n, pushed, 
                               popped >>

pop_r(self) == /\ pc[self] = "pop_r"
               /\ IF pops[self] # {}
                     THEN /\ q' = [q EXCEPT ![self] = CHOOSE t \in pops[self] : \A u \in pops[self] : t <= u]
                          /\ pops' = [pops EXCEPT ![self] = pops[self] \ {q'[self]}]
                          /\ IF phead[mine[self]] # NULL
                                THEN /\ pret' = [pret EXCEPT ![mine[self]][q'[self]] = val[phead[mine[self]]]]
                                     /\ phead' = [phead EXCEPT ![mine[self]] = next[phead[mine[self]]]]
                                     /\ popped' = [popped EXCEPT ![self] = popped[self] + 1]
                                ELSE /\ pret' = [pret EXCEPT ![mine[self]][q'[self]] = EMPTY]
                                     /\ UNCHANGED << phead, popped >>
                          /\ pc' = [pc EXCEPT ![self] = "popv_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "set_w"]
                          /\ UNCHANGED << phead, pret, pops, q, popped >>
               /\ UNCHANGED << toggles, announce, sp, papplied, next, val, 
                               fresh, pool, mon, res, i, bit, local, mine, old, 
                               lt, todo, j, n, pushed, list >>

popv_r(self) == /\ pc[self] = "popv_r"
                /\ IF sp # old[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "set_w"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "pop_r"]
                /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                                next, val, fresh, pool, mon, res, i, bit, 
                                local, mine, old, lt, todo, pops, j, q, n, 
                                pushed, popped, list >>

set_w(self) == /\ pc[self] = "set_w"
               /\ papplied' = [papplied EXCEPT ![mine[self]] = lt[self]]
               /\ pc' = [pc EXCEPT ![self] = "chk_r"]
               /\ UNCHANGED << toggles, announce, sp, phead, pret, next, val, 
                               fresh, pool, mon, res, i, bit, local, mine, old, 
                               lt, todo, pops, j, q, n, pushed, popped, list >>

chk_r(self) == /\ pc[self] = "chk_r"
               /\ IF sp # old[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "fail"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "cas_x"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                               next, val, fresh, pool, mon, res, i, bit, local, 
                               mine, old, lt, todo, pops, j, q, n, pushed, 
                               popped, list >>

cas_x(self) == /\ pc[self] = "cas_x"
               /\ IF sp = old[self]
                     THEN /\ sp' = [slot |-> mine[self], seq |-> old[self].seq + 1]
                          /\ local' = [local EXCEPT ![self] = (local[self] + 1) % SLOTS]
                          /\ pc' = [pc EXCEPT ![self] = "rec"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "fail"]
                          /\ UNCHANGED << sp, local >>
               /\ UNCHANGED << toggles, announce, phead, papplied, pret, next, 
                               val, fresh, pool, mon, res, i, bit, mine, old, 
                               lt, todo, pops, j, q, n, pushed, popped, list >>

rec(self) == /\ pc[self] = "rec"
             /\ pool' = [pool EXCEPT ![self] = Rev(Chain(next, list[self], popped[self])) \o pool[self]]
             /\ IF Prog[self][i[self]][1] = 0
                   THEN /\ mon' = MonRet(Kind, mon, self, (<< >>))
                        /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                        /\ i' = [i EXCEPT ![self] = i[self] + 1]
                        /\ pc' = [pc EXCEPT ![self] = "op_c"]
                   ELSE /\ mon' = MonRet(Kind, mon, self, (<<pret[mine[self]][self]>>))
                        /\ res' = [res EXCEPT ![self] = Append(res[self], (<<pret[mine[self]][self]>>))]
                        /\ i' = [i EXCEPT ![self] = i[self] + 1]
                        /\ pc' = [pc EXCEPT ![self] = "op_c"]
             /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                             next, val, fresh, bit, local, mine, old, lt, todo, 
                             pops, j, q, n, pushed, popped, list >>

fail(self) == /\ pc[self] = "fail"
              /\ pool' = [pool EXCEPT ![self] = Rev(Chain(next, list[self], pushed[self])) \o pool[self]]
              /\ pc' = [pc EXCEPT ![self] = "try"]
              /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                              next, val, fresh, mon, res, i, bit, local, mine, 
                              old, lt, todo, pops, j, q, n, pushed, popped, 
                              list >>

fin_r(self) == /\ pc[self] = "fin_r"
               /\ old' = [old EXCEPT ![self] = sp]
               /\ pc' = [pc EXCEPT ![self] = "ret_r"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                               next, val, fresh, pool, mon, res, i, bit, local, 
                               mine, lt, todo, pops, j, q, n, pushed, popped, 
                               list >>

ret_r(self) == /\ pc[self] = "ret_r"
               /\ IF Prog[self][i[self]][1] = 0
                     THEN /\ mon' = MonRet(Kind, mon, self, (<< >>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
                     ELSE /\ mon' = MonRet(Kind, mon, self, (<<pret[old[self].slot][self]>>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<<pret[old[self].slot][self]>>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
               /\ UNCHANGED << toggles, announce, sp, phead, papplied, pret, 
                               next, val, fresh, pool, bit, local, mine, old, 
                               lt, todo, pops, j, q, n, pushed, popped, list >>

T(self) == op_c(self) \/ ann_w(self) \/ tog_x(self) \/ try(self)
              \/ sp_r(self) \/ app_r(self) \/ cp1_r(self) \/ cp2_r(self)
              \/ cp3_r(self) \/ tog_r(self) \/ val_r(self) \/ diff(self)
              \/ push_r(self) \/ list_(self) \/ pop_r(self) \/ popv_r(self)
              \/ set_w(self) \/ chk_r(self) \/ cas_x(self) \/ rec(self)
              \/ fail(self) \/ fin_r(self) \/ ret_r(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Correct == Linearizable(mon)
\* no node is in two places: in a pool and on the current stack, or twice in the pools
RECURSIVE OnStack(_, _)
OnStack(h, k) == IF h = NULL \/ k = 0 THEN << >> ELSE <<h>> \o OnStack(next[h], k - 1)
Stack == OnStack(phead[sp.slot], NNodes + 1)
PoolSeq(t) == pool[t]
NodesOK == /\ \A t \in Threads : \A x, y \in 1..Len(pool[t]) : x # y => pool[t][x] # pool[t][y]
           /\ \A t, u \in Threads : t # u => \A x \in 1..Len(pool[t]) : \A y \in 1..Len(pool[u]) : pool[t][x] # pool[u][y]
           /\ (\A t \in Threads : pc[t] # "rec") => \A t \in Threads : \A x \in 1..Len(pool[t]) : \A y \in 1..Len(Stack) : pool[t][x] # Stack[y]
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
