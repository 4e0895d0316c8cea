------------------------------ MODULE AlgSimQueue ------------------------------
(* The wait-free queue of libconcurrent/concurrent/simqueue.c: two instances  *)
(* of AlgSim, one for enqueues and one for dequeues.  An enqueue state record *)
(* describes the last batch of nodes (first: where it has to be linked, last: *)
(* its first node, tail: its last node); the batch is linked after the state  *)
(* is installed, by its creator, by the next enqueuer, or by a dequeuer.      *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG, SLOTS
Kind == "queue"
Prog == CollProg[PROG]
Threads == DOMAIN Prog
NULL == -1
NNodes == 6 * NumAdds(Prog) + 2
Nodes == 0..NNodes
Slots == {<<0, 0>>} \cup (Threads \X (0..SLOTS - 1))
Zero == [t \in Threads |-> 0]
(* --algorithm SimQueue {
variables etog = Zero, dtog = Zero, announce = Zero,
          esp = [slot |-> <<0, 0>>, seq |-> 0], dsp = [slot |-> <<0, 0>>, seq |-> 0],
          eapp = [s \in Slots |-> Zero], efirst = [s \in Slots |-> NULL], elast = [s \in Slots |-> NULL], etail = [s \in Slots |-> 0],
          dapp = [s \in Slots |-> Zero], dret = [s \in Slots |-> Zero], dhead = [s \in Slots |-> 0],
          next = [nd \in Nodes |-> NULL], val = [nd \in Nodes |-> 0], fresh = 1, pool = [t \in Threads |-> << >>],
          mon = MonInit(Kind, Threads), res = [t \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
  macro Alloc() {
    if (pool[self] # << >>) { n := Head(pool[self]); pool[self] := Tail(pool[self]); } else { n := fresh; fresh := fresh + 1; }
  }
process (T \in Threads)
variables i = 1, ebit = 0, dbit = 0, el = 0, dl = 0, mine = <<0, 0>>, old = [slot |-> <<0, 0>>, seq |-> 0], lt = Zero, todo = {},
          j = 0, q = 0, n = 0, node = 0, first = 0, last = 0, used = << >>, x = [slot |-> <<0, 0>>, seq |-> 0];
{
op_c:    if (i > Len(Prog[self])) goto Done;
         else {
           Call(); j := 0;
           if (Prog[self][i][1] = 1) { dbit := 1 - dbit; mine := <<self, dl>>; goto dtog_x; }
           else { ebit := 1 - ebit; mine := <<self, el>>; }
         };
ann_w:   announce[self] := Prog[self][i][2];
etog_x:  etog[self] := 1 - etog[self];
etry:    if (j = 2) { Ret(<< >>); } else j := j + 1;
esp_r:   old := esp;
eap_r:   if (eapp[old.slot][self] = ebit) { Ret(<< >>); };
ecp1_r:  efirst[mine] := efirst[old.slot] || elast[mine] := elast[old.slot];
ecp2_r:  etail[mine] := etail[old.slot];
ecp3_r:  eapp[mine] := eapp[old.slot];
etg_r:   lt := etog;
eval_r:  if (esp # old) goto etry;
elnk_x:  if (efirst[mine] # NULL) { if (next[efirst[mine]] = NULL) next[efirst[mine]] := elast[mine]; };
eown:    todo := { t \in Threads : lt[t] # eapp[mine][t] } \ {self};
         Alloc();
eini:    next[n] := NULL; val[n] := Prog[self][i][2]; first := n; node := n; used := <<n>>;
ehlp_r:  while (todo # {}) {
           q := CHOOSE t \in todo : \A u \in todo : t <= u;
           todo := todo \ {q};
           Alloc();
  ehl2_r:  next := [next EXCEPT ![node] = n, ![n] = NULL];
           val[n] := announce[q]; node := n; used := <<n>> \o used;
         };
eset_w:  efirst[mine] := etail[mine];
         elast[mine] := first; etail[mine] := node; eapp[mine] := lt;
echk_r:  if (esp # old) goto efail;
ecas_x:  if (esp = old) { esp := [slot |-> mine, seq |-> old.seq + 1]; el := (el + 1) % SLOTS; } else goto efail;
elk2_x:  if (next[efirst[mine]] = NULL) next[efirst[mine]] := elast[mine];
         Ret(<< >>);
efail:   pool[self] := used \o pool[self];
         goto etry;
dtog_x:  dtog[self] := 1 - dtog[self];
dtry:    if (j = 2) goto dfin_r; else j := j + 1;
dsp_r:   old := dsp;
dap_r:   if (dapp[old.slot][self] = dbit) goto dfin_r;
dcp1_r:  dhead[mine] := dhead[old.slot];
dcp2_r:  dapp[mine] := dapp[old.slot];
dcp3_r:  dret[mine] := dret[old.slot];
dtg_r:   lt := dtog;
dval_r:  if (dsp # old) goto dtry;
dl1_r:   todo := { t \in Threads : lt[t] # dapp[mine][t] };
         x := esp;
dl2_r:   if (next[dhead[mine]] # NULL) goto dser_r;
dl3_r:   last := elast[x.slot];
dl4_r:   first := efirst[x.slot];
dl5_r:   if (first = NULL \/ last = NULL \/ esp # x) goto dser_r;
dl6_x:   if (next[first] = NULL) next[first] := last;
dser_r:  if (todo = {}) goto dset_w;
         else { q := CHOOSE t \in todo : \A u \in todo : t <= u; todo := todo \ {q}; };
dnx_r:   node := next[dhead[mine]];
         if (node # NULL) goto dtake_r;
         else x := esp;
dm2_r:   if (next[dhead[mine]] # NULL) goto dnx2_r;
dm3_r:   last := elast[x.slot];
dm4_r:   first := efirst[x.slot];
dm5_r:   if (first = NULL \/ last = NULL \/ esp # x) goto dnx2_r;
dm6_x:   if (next[first] = NULL) next[first] := last;
dnx2_r:  node := next[dhead[mine]];
dtake_r: if (node # NULL) { dret[mine][q] := val[node]; dhead[mine] := node; } else dret[mine][q] := EMPTY;
         goto dser_r;
dset_w:  dapp[mine] := lt;
dchk_r:  if (dsp # old) goto dtry;
dcas_x:  if (dsp = old) { dsp := [slot |-> mine, seq |-> old.seq + 1]; dl := (dl + 1) % SLOTS; Ret(<<dret[mine][self]>>); } else goto dtry;
dfin_r:  old := dsp;
dret_r:  Ret(<<dret[old.slot][self]>>);
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, etog, dtog, announce, esp, dsp, eapp, efirst, elast, etail, 
          dapp, dret, dhead, next, val, fresh, pool, mon, res, i, ebit, dbit, 
          el, dl, mine, old, lt, todo, j, q, n, node, first, last, used, x

vars == << pc, etog, dtog, announce, esp, dsp, eapp, efirst, elast, etail, 
           dapp, dret, dhead, next, val, fresh, pool, mon, res, i, ebit, dbit, 
           el, dl, mine, old, lt, todo, j, q, n, node, first, last, used, x
        >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ etog = Zero
        /\ dtog = Zero
        /\ announce = Zero
        /\ esp = [slot |-> <<0, 0>>, seq |-> 0]
        /\ dsp = [slot |-> <<0, 0>>, seq |-> 0]
        /\ eapp = [s \in Slots |-> Zero]
        /\ efirst = [s \in Slots |-> NULL]
        /\ elast = [s \in Slots |-> NULL]
        /\ etail = [s \in Slots |-> 0]
        /\ dapp = [s \in Slots |-> Zero]
        /\ dret = [s \in Slots |-> Zero]
        /\ dhead = [s \in Slots |-> 0]
        /\ next = [nd \in Nodes |-> NULL]
        /\ val = [nd \in Nodes |-> 0]
        /\ fresh = 1
        /\ pool = [t \in Threads |-> << >>]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [t \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ ebit = [self \in Threads |-> 0]
        /\ dbit = [self \in Threads |-> 0]
        /\ el = [self \in Threads |-> 0]
        /\ dl = [self \in Threads |-> 0]
        /\ mine = [self \in Threads |-> <<0, 0>>]
        /\ old = [self \in Threads |-> [slot |-> <<0, 0>>, seq |-> 0]]
        /\ lt = [self \in Threads |-> Zero]
        /\ todo = [self \in Threads |-> {}]
        /\ j = [self \in Threads |-> 0]
        /\ q = [self \in Threads |-> 0]
        /\ n = [self \in Threads |-> 0]
        /\ node = [self \in Threads |-> 0]
        /\ first = [self \in Threads |-> 0]
        /\ last = [self \in Threads |-> 0]
        /\ used = [self \in Threads |-> << >>]
        /\ x = [self \in Threads |-> [slot |-> <<0, 0>>, seq |-> 0]]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED << mon, ebit, dbit, mine, j >>
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ j' = [j EXCEPT ![self] = 0]
                         /\ IF Prog[self][i[self]][1] = 1
                               THEN /\ dbit' = [dbit EXCEPT ![self] = 1 - dbit[self]]
                                    /\ mine' = [mine EXCEPT ![self] = <<self, dl[self]>>]
                                    /\ pc' = [pc EXCEPT ![self] = "dtog_x"]
                                    /\ ebit' = ebit
                               ELSE /\ ebit' = [ebit EXCEPT ![self] = 1 - ebit[self]]
                                    /\ mine' = [mine EXCEPT ![self] = <<self, el[self]>>]
                                    /\ pc' = [pc EXCEPT ![self] = "ann_w"]
                                    /\ dbit' = dbit
              /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                              elast, etail, dapp, dret, dhead, next, val, 
                              fresh, pool, res, i, el, dl, old, lt, todo, q, n, 
                              node, first, last, used, x >>

ann_w(self) == /\ pc[self] = "ann_w"
               /\ announce' = [announce EXCEPT ![self] = Prog[self][i[self]][2]]
               /\ pc' = [pc EXCEPT ![self] = "etog_x"]
               /\ UNCHANGED << etog, dtog, esp, dsp, eapp, efirst, elast, 
                               etail, dapp, dret, dhead, next, val, fresh, 
                               pool, mon, res, i, ebit, dbit, el, dl, mine, 
                               old, lt, todo, j, q, n, node, first, last, used, 
                               x >>

etog_x(self) == /\ pc[self] = "etog_x"
                /\ etog' = [etog EXCEPT ![self] = 1 - etog[self]]
                /\ pc' = [pc EXCEPT ![self] = "etry"]
                /\ UNCHANGED << dtog, announce, esp, dsp, eapp, efirst, elast, 
                                etail, dapp, dret, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

etry(self) == /\ pc[self] = "etry"
              /\ IF j[self] = 2
                    THEN /\ mon' = MonRet(Kind, mon, self, (<< >>))
                         /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                         /\ i' = [i EXCEPT ![self] = i[self] + 1]
                         /\ pc' = [pc EXCEPT ![self] = "op_c"]
                         /\ j' = j
                    ELSE /\ j' = [j EXCEPT ![self] = j[self] + 1]
                         /\ pc' = [pc EXCEPT ![self] = "esp_r"]
                         /\ UNCHANGED << mon, res, i >>
              /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                              elast, etail, dapp, dret, dhead, next, val, 
                              fresh, pool, ebit, dbit, el, dl, mine, old, lt, 
                              todo, q, n, node, first, last, used, x >>

esp_r(self) == /\ pc[self] = "esp_r"
               /\ old' = [old EXCEPT ![self] = esp]
               /\ pc' = [pc EXCEPT ![self] = "eap_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, lt, todo, j, q, n, node, first, last, 
                               used, x >>

eap_r(self) == /\ pc[self] = "eap_r"
               /\ IF eapp[old[self].slot][self] = ebit[self]
                     THEN /\ mon' = MonRet(Kind, mon, self, (<< >>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "ecp1_r"]
                          /\ UNCHANGED << mon, res, i >>
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, ebit, dbit, el, dl, mine, old, lt, 
                               todo, j, q, n, node, first, last, used, x >>

ecp1_r(self) == /\ pc[self] = "ecp1_r"
                /\ /\ efirst' = [efirst EXCEPT ![mine[self]] = efirst[old[self].slot]]
                   /\ elast' = [elast EXCEPT ![mine[self]] = elast[old[self].slot]]
                /\ pc' = [pc EXCEPT ![self] = "ecp2_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, etail, 
                                dapp, dret, dhead, next, val, fresh, pool, mon, 
                                res, i, ebit, dbit, el, dl, mine, old, lt, 
                                todo, j, q, n, node, first, last, used, x >>

ecp2_r(self) == /\ pc[self] = "ecp2_r"
                /\ etail' = [etail EXCEPT ![mine[self]] = etail[old[self].slot]]
                /\ pc' = [pc EXCEPT ![self] = "ecp3_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, dapp, dret, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

ecp3_r(self) == /\ pc[self] = "ecp3_r"
                /\ eapp' = [eapp EXCEPT ![mine[self]] = eapp[old[self].slot]]
                /\ pc' = [pc EXCEPT ![self] = "etg_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, efirst, elast, 
                                etail, dapp, dret, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

etg_r(self) == /\ pc[self] = "etg_r"
               /\ lt' = [lt EXCEPT ![self] = etog]
               /\ pc' = [pc EXCEPT ![self] = "eval_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, todo, j, q, n, node, first, last, 
                               used, x >>

eval_r(self) == /\ pc[self] = "eval_r"
                /\ IF esp # old[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "etry"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "elnk_x"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                                mine, old, lt, todo, j, q, n, node, first, 
                                last, used, x >>

elnk_x(self) == /\ pc[self] = "elnk_x"
                /\ IF efirst[mine[self]] # NULL
                      THEN /\ IF next[efirst[mine[self]]] = NULL
                                 THEN /\ next' = [next EXCEPT ![efirst[mine[self]]] = elast[mine[self]]]
                                 ELSE /\ TRUE
                                      /\ next' = next
                      ELSE /\ TRUE
                           /\ next' = next
                /\ pc' = [pc EXCEPT ![self] = "eown"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

eown(self) == /\ pc[self] = "eown"
              /\ todo' = [todo EXCEPT ![self] = { t \in Threads : lt[self][t] # eapp[mine[self]][t] } \ {self}]
              /\ IF pool[self] # << >>
                    THEN /\ n' = [n EXCEPT ![self] = Head(pool[self])]
                         /\ pool' = [pool EXCEPT ![self] = Tail(pool[self])]
                         /\ fresh' = fresh
                    ELSE /\ n' = [n EXCEPT ![self] = fresh]
                         /\ fresh' = fresh + 1
                         /\ pool' = pool
              /\ pc' = [pc EXCEPT ![self] = "eini"]
              /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                              elast, etail, dapp, dret, dhead, next, val, mon, 
                              res, i, ebit, dbit, el, dl, mine, old, lt, j, q, 
                              node, first, last, used, x >>

eini(self) == /\ pc[self] = "eini"
              /\ next' = [next EXCEPT ![n[self]] = NULL]
              /\ val' = [val EXCEPT ![n[self]] = Prog[self][i[self]][2]]
              /\ first' = [first EXCEPT ![self] = n[self]]
              /\ node' = [node EXCEPT ![self] = n[self]]
              /\ used' = [used EXCEPT ![self] = <<n[self]>>]
              /\ pc' = [pc EXCEPT ![self] = "ehlp_r"]
              /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                              elast, etail, dapp, dret, dhead, fresh, pool, 
                              mon, res, i, ebit, dbit, el, dl, mine, old, lt, 
                              todo, j, q, n, last, x >>

ehlp_r(self) == /\ pc[self] = "ehlp_r"
                /\ IF todo[self] # {}
                      THEN /\ q' = [q EXCEPT ![self] = CHOOSE t \in todo[self] : \A u \in todo[self] : t <= u]
                           /\ todo' = [todo EXCEPT ![self] = todo[self] \ {q'[self]}]
                           /\ IF pool[self] # << >>
                                 THEN /\ n' = [n EXCEPT ![self] = Head(pool[self])]
                                      /\ pool' = [pool EXCEPT ![self] = Tail(pool[self])]
                                      /\ fresh' = fresh
                                 ELSE /\ n' = [n EXCEPT ![self] = fresh]
                                      /\ fresh' = fresh + 1
                                      /\ pool' = pool
                           /\ pc' = [pc EXCEPT ![self] = "ehl2_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "eset_w"]
                           /\ UNCHANGED << fresh, pool, todo, q, n >>
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                mon, res, i, ebit, dbit, el, dl, mine, old, lt, 
                                j, node, first, last, used, x >>

ehl2_r(self) == /\ pc[self] = "ehl2_r"
                /\ next' = [next EXCEPT ![node[self]] = n[self], ![n[self]] = NULL]
                /\ val' = [val EXCEPT ![n[self]] = announce[q[self]]]
                /\ node' = [node EXCEPT ![self] = n[self]]
                /\ used' = [used EXCEPT ![self] = <<n[self]>> \o used[self]]
                /\ pc' = [pc EXCEPT ![self] = "ehlp_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, fresh, pool, 
                                mon, res, i, ebit, dbit, el, dl, mine, old, lt, 
                                todo, j, q, n, first, last, x >>

eset_w(self) == /\ pc[self] = "eset_w"
                /\ efirst' = [efirst EXCEPT ![mine[self]] = etail[mine[self]]]
                /\ elast' = [elast EXCEPT ![mine[self]] = first[self]]
                /\ etail' = [etail EXCEPT ![mine[self]] = node[self]]
                /\ eapp' = [eapp EXCEPT ![mine[self]] = lt[self]]
                /\ pc' = [pc EXCEPT ![self] = "echk_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, dapp, dret, 
                                dhead, next, val, fresh, pool, mon, res, i, 
                                ebit, dbit, el, dl, mine, old, lt, todo, j, q, 
                                n, node, first, last, used, x >>

echk_r(self) == /\ pc[self] = "echk_r"
                /\ IF esp # old[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "efail"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "ecas_x"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                                mine, old, lt, todo, j, q, n, node, first, 
                                last, used, x >>

ecas_x(self) == /\ pc[self] = "ecas_x"
                /\ IF esp = old[self]
                      THEN /\ esp' = [slot |-> mine[self], seq |-> old[self].seq + 1]
                           /\ el' = [el EXCEPT ![self] = (el[self] + 1) % SLOTS]
                           /\ pc' = [pc EXCEPT ![self] = "elk2_x"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "efail"]
                           /\ UNCHANGED << esp, el >>
                /\ UNCHANGED << etog, dtog, announce, dsp, eapp, efirst, elast, 
                                etail, dapp, dret, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, dl, mine, old, 
                                lt, todo, j, q, n, node, first, last, used, x >>

elk2_x(self) == /\ pc[self] = "elk2_x"
                /\ IF next[efirst[mine[self]]] = NULL
                      THEN /\ next' = [next EXCEPT ![efirst[mine[self]]] = elast[mine[self]]]
                      ELSE /\ TRUE
                           /\ next' = next
                /\ mon' = MonRet(Kind, mon, self, (<< >>))
                /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                /\ i' = [i EXCEPT ![self] = i[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "op_c"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, val, fresh, 
                                pool, ebit, dbit, el, dl, mine, old, lt, todo, 
                                j, q, n, node, first, last, used, x >>

efail(self) == /\ pc[self] = "efail"
               /\ pool' = [pool EXCEPT ![self] = used[self] \o pool[self]]
               /\ pc' = [pc EXCEPT ![self] = "etry"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, mon, res, i, ebit, dbit, el, dl, mine, 
                               old, lt, todo, j, q, n, node, first, last, used, 
                               x >>

dtog_x(self) == /\ pc[self] = "dtog_x"
                /\ dtog' = [dtog EXCEPT ![self] = 1 - dtog[self]]
                /\ pc' = [pc EXCEPT ![self] = "dtry"]
                /\ UNCHANGED << etog, announce, esp, dsp, eapp, efirst, elast, 
                                etail, dapp, dret, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

dtry(self) == /\ pc[self] = "dtry"
              /\ IF j[self] = 2
                    THEN /\ pc' = [pc EXCEPT ![self] = "dfin_r"]
                         /\ j' = j
                    ELSE /\ j' = [j EXCEPT ![self] = j[self] + 1]
                         /\ pc' = [pc EXCEPT ![self] = "dsp_r"]
              /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                              elast, etail, dapp, dret, dhead, next, val, 
                              fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                              mine, old, lt, todo, q, n, node, first, last, 
                              used, x >>

dsp_r(self) == /\ pc[self] = "dsp_r"
               /\ old' = [old EXCEPT ![self] = dsp]
               /\ pc' = [pc EXCEPT ![self] = "dap_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, lt, todo, j, q, n, node, first, last, 
                               used, x >>

dap_r(self) == /\ pc[self] = "dap_r"
               /\ IF dapp[old[self].slot][self] = dbit[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "dfin_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dcp1_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, first, last, 
                               used, x >>

dcp1_r(self) == /\ pc[self] = "dcp1_r"
                /\ dhead' = [dhead EXCEPT ![mine[self]] = dhead[old[self].slot]]
                /\ pc' = [pc EXCEPT ![self] = "dcp2_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

dcp2_r(self) == /\ pc[self] = "dcp2_r"
                /\ dapp' = [dapp EXCEPT ![mine[self]] = dapp[old[self].slot]]
                /\ pc' = [pc EXCEPT ![self] = "dcp3_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dret, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

dcp3_r(self) == /\ pc[self] = "dcp3_r"
                /\ dret' = [dret EXCEPT ![mine[self]] = dret[old[self].slot]]
                /\ pc' = [pc EXCEPT ![self] = "dtg_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

dtg_r(self) == /\ pc[self] = "dtg_r"
               /\ lt' = [lt EXCEPT ![self] = dtog]
               /\ pc' = [pc EXCEPT ![self] = "dval_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, todo, j, q, n, node, first, last, 
                               used, x >>

dval_r(self) == /\ pc[self] = "dval_r"
                /\ IF dsp # old[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "dtry"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "dl1_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                                mine, old, lt, todo, j, q, n, node, first, 
                                last, used, x >>

dl1_r(self) == /\ pc[self] = "dl1_r"
               /\ todo' = [todo EXCEPT ![self] = { t \in Threads : lt[self][t] # dapp[mine[self]][t] }]
               /\ x' = [x EXCEPT ![self] = esp]
               /\ pc' = [pc EXCEPT ![self] = "dl2_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, j, q, n, node, first, last, used >>

dl2_r(self) == /\ pc[self] = "dl2_r"
               /\ IF next[dhead[mine[self]]] # NULL
                     THEN /\ pc' = [pc EXCEPT ![self] = "dser_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dl3_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, first, last, 
                               used, x >>

dl3_r(self) == /\ pc[self] = "dl3_r"
               /\ last' = [last EXCEPT ![self] = elast[x[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "dl4_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, first, used, 
                               x >>

dl4_r(self) == /\ pc[self] = "dl4_r"
               /\ first' = [first EXCEPT ![self] = efirst[x[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "dl5_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, last, used, 
                               x >>

dl5_r(self) == /\ pc[self] = "dl5_r"
               /\ IF first[self] = NULL \/ last[self] = NULL \/ esp # x[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "dser_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dl6_x"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, first, last, 
                               used, x >>

dl6_x(self) == /\ pc[self] = "dl6_x"
               /\ IF next[first[self]] = NULL
                     THEN /\ next' = [next EXCEPT ![first[self]] = last[self]]
                     ELSE /\ TRUE
                          /\ next' = next
               /\ pc' = [pc EXCEPT ![self] = "dser_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, val, fresh, 
                               pool, mon, res, i, ebit, dbit, el, dl, mine, 
                               old, lt, todo, j, q, n, node, first, last, used, 
                               x >>

dser_r(self) == /\ pc[self] = "dser_r"
                /\ IF todo[self] = {}
                      THEN /\ pc' = [pc EXCEPT ![self] = "dset_w"]
                           /\ UNCHANGED << todo, q >>
                      ELSE /\ q' = [q EXCEPT ![self] = CHOOSE t \in todo[self] : \A u \in todo[self] : t <= u]
                           /\ todo' = [todo EXCEPT ![self] = todo[self] \ {q'[self]}]
                           /\ pc' = [pc EXCEPT ![self] = "dnx_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                                mine, old, lt, j, n, node, first, last, used, 
                                x >>

dnx_r(self) == /\ pc[self] = "dnx_r"
               /\ node' = [node EXCEPT ![self] = next[dhead[mine[self]]]]
               /\ IF node'[self] # NULL
                     THEN /\ pc' = [pc EXCEPT ![self] = "dtake_r"]
                          /\ x' = x
                     ELSE /\ x' = [x EXCEPT ![self] = esp]
                          /\ pc' = [pc EXCEPT ![self] = "dm2_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, first, last, used >>

dm2_r(self) == /\ pc[self] = "dm2_r"
               /\ IF next[dhead[mine[self]]] # NULL
                     THEN /\ pc' = [pc EXCEPT ![self] = "dnx2_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dm3_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, first, last, 
                               used, x >>

dm3_r(self) == /\ pc[self] = "dm3_r"
               /\ last' = [last EXCEPT ![self] = elast[x[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "dm4_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, first, used, 
                               x >>

dm4_r(self) == /\ pc[self] = "dm4_r"
               /\ first' = [first EXCEPT ![self] = efirst[x[self].slot]]
               /\ pc' = [pc EXCEPT ![self] = "dm5_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, last, used, 
                               x >>

dm5_r(self) == /\ pc[self] = "dm5_r"
               /\ IF first[self] = NULL \/ last[self] = NULL \/ esp # x[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "dnx2_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dm6_x"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, next, val, 
                               fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                               mine, old, lt, todo, j, q, n, node, first, last, 
                               used, x >>

dm6_x(self) == /\ pc[self] = "dm6_x"
               /\ IF next[first[self]] = NULL
                     THEN /\ next' = [next EXCEPT ![first[self]] = last[self]]
                     ELSE /\ TRUE
                          /\ next' = next
               /\ pc' = [pc EXCEPT ![self] = "dnx2_r"]
               /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                               elast, etail, dapp, dret, dhead, val, fresh, 
                               pool, mon, res, i, ebit, dbit, el, dl, mine, 
                               old, lt, todo, j, q, n, node, first, last, used, 
                               x >>

dnx2_r(self) == /\ pc[self] = "dnx2_r"
                /\ node' = [node EXCEPT ![self] = next[dhead[mine[self]]]]
                /\ pc' = [pc EXCEPT ![self] = "dtake_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                                mine, old, lt, todo, j, q, n, first, last, 
                                used, x >>

dtake_r(self) == /\ pc[self] = "dtake_r"
                 /\ IF node[self] # NULL
                       THEN /\ dret' = [dret EXCEPT ![mine[self]][q[self]] = val[node[self]]]
                            /\ dhead' = [dhead EXCEPT ![mine[self]] = node[self]]
                       ELSE /\ dret' = [dret EXCEPT ![mine[self]][q[self]] = EMPTY]
                            /\ dhead' = dhead
                 /\ pc' = [pc EXCEPT ![self] = "dser_r"]
                 /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                 elast, etail, dapp, next, val, fresh, pool, 
                                 mon, res, i, ebit, dbit, el, dl, mine, old, 
                                 lt, todo, j, q, n, node, first, last, used, x >>

dset_w(self) == /\ pc[self] = "dset_w"
                /\ dapp' = [dapp EXCEPT ![mine[self]] = lt[self]]
                /\ pc' = [pc EXCEPT ![self] = "dchk_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dret, dhead, next, val, fresh, 
                                pool, mon, res, i, ebit, dbit, el, dl, mine, 
                                old, lt, todo, j, q, n, node, first, last, 
                                used, x >>

dchk_r(self) == /\ pc[self] = "dchk_r"
                /\ IF dsp # old[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "dtry"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "dcas_x"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                                mine, old, lt, todo, j, q, n, node, first, 
                                last, used, x >>

dcas_x(self) == /\ pc[self] = "dcas_x"
                /\ IF dsp = old[self]
                      THEN /\ dsp' = [slot |-> mine[self], seq |-> old[self].seq + 1]
                           /\ dl' = [dl EXCEPT ![self] = (dl[self] + 1) % SLOTS]
                           /\ mon' = MonRet(Kind, mon, self, (<<dret[mine[self]][self]>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<dret[mine[self]][self]>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "dtry"]
                           /\ UNCHANGED << dsp, mon, res, i, dl >>
                /\ UNCHANGED << etog, dtog, announce, esp, eapp, efirst, elast, 
                                etail, dapp, dret, dhead, next, val, fresh, 
                                pool, ebit, dbit, el, mine, old, lt, todo, j, 
                                q, n, node, first, last, used, x >>

dfin_r(self) == /\ pc[self] = "dfin_r"
                /\ old' = [old EXCEPT ![self] = dsp]
                /\ pc' = [pc EXCEPT ![self] = "dret_r"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, mon, res, i, ebit, dbit, el, dl, 
                                mine, lt, todo, j, q, n, node, first, last, 
                                used, x >>

dret_r(self) == /\ pc[self] = "dret_r"
                /\ mon' = MonRet(Kind, mon, self, (<<dret[old[self].slot][self]>>))
                /\ res' = [res EXCEPT ![self] = Append(res[self], (<<dret[old[self].slot][self]>>))]
                /\ i' = [i EXCEPT ![self] = i[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "op_c"]
                /\ UNCHANGED << etog, dtog, announce, esp, dsp, eapp, efirst, 
                                elast, etail, dapp, dret, dhead, next, val, 
                                fresh, pool, ebit, dbit, el, dl, mine, old, lt, 
                                todo, j, q, n, node, first, last, used, x >>

T(self) == op_c(self) \/ ann_w(self) \/ etog_x(self) \/ etry(self)
              \/ esp_r(self) \/ eap_r(self) \/ ecp1_r(self) \/ ecp2_r(self)
              \/ ecp3_r(self) \/ etg_r(self) \/ eval_r(self)
              \/ elnk_x(self) \/ eown(self) \/ eini(self) \/ ehlp_r(self)
              \/ ehl2_r(self) \/ eset_w(self) \/ echk_r(self)
              \/ ecas_x(self) \/ elk2_x(self) \/ efail(self)
              \/ dtog_x(self) \/ dtry(self) \/ dsp_r(self) \/ dap_r(self)
              \/ dcp1_r(self) \/ dcp2_r(self) \/ dcp3_r(self)
              \/ dtg_r(self) \/ dval_r(self) \/ dl1_r(self) \/ dl2_r(self)
              \/ dl3_r(self) \/ dl4_r(self) \/ dl5_r(self) \/ dl6_x(self)
              \/ dser_r(self) \/ dnx_r(self) \/ dm2_r(self) \/ dm3_r(self)
              \/ dm4_r(self) \/ dm5_r(self) \/ dm6_x(self) \/ dnx2_r(self)
              \/ dtake_r(self) \/ dset_w(self) \/ dchk_r(self)
              \/ dcas_x(self) \/ dfin_r(self) \/ dret_r(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Correct == Linearizable(mon)
Fair == \A t \in Threads : WF_vars(T(t))
Terminates == <>(\A t \in Threads : pc[t] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
