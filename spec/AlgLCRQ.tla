-------------------------------- MODULE AlgLCRQ --------------------------------
(* The ring based queue of libconcurrent/concurrent/lcrq.c: a list of rings   *)
(* of RING cells; operations take tickets with fetch-and-add on the tail /    *)
(* head of a ring and meet in a cell (value, index, safe bit) that is changed *)
(* by a double-word compare-and-swap.  A ring that is full, or where an       *)
(* enqueuer starves, is closed and a new one is linked.  Waiting for a slow   *)
(* enqueuer (200000 rounds in the code) ends at some time, without knowing    *)
(* when; every thread loses its patience once at most, which keeps the        *)
(* instances finite.                                                          *)
EXTENDS LinMonitor, Programs, TLC
CONSTANTS PROG, RING, RINGS
Kind == "queue"
Prog == CollProg[PROG]
Threads == DOMAIN Prog
NULL == 0
NONE == 0
Cells == 0..RING - 1
Cell(v, ix, safe) == [v |-> v, ix |-> ix, safe |-> safe]
Fresh == [c \in Cells |-> Cell(NONE, c, TRUE)]
(* --algorithm LCRQ {
variables qhead = 1, qtail = 1, fresh = 2,
          head = [r \in 1..RINGS |-> 0], tail = [r \in 1..RINGS |-> [n |-> 0, closed |-> FALSE]], next = [r \in 1..RINGS |-> NULL],
          cell = [r \in 1..RINGS |-> Fresh],
          mon = MonInit(Kind, Threads), res = [th \in Threads |-> << >>];
  macro Call() { mon := MonCall(mon, self, Prog[self][i][1], Prog[self][i][2]); }
  macro Ret(r) { mon := MonRet(Kind, mon, self, r); res[self] := Append(res[self], r); i := i + 1; goto op_c; }
process (T \in Threads)
variables i = 1, rq = 0, nx = 0, t = 0, h = 0, c = Cell(0, 0, TRUE), tt = [n |-> 0, closed |-> FALSE], spare = 0, polled = FALSE, tired = FALSE, patience = 1;
{
op_c:     if (i > Len(Prog[self])) goto Done;
          else { Call(); if (Prog[self][i][1] = 1) goto drq_r; };
erq_r:    rq := qtail;
enx_r:    nx := next[rq];
          if (nx = NULL) goto etk_x;
eadv_x:   if (qtail = rq) qtail := nx;
          goto erq_r;
etk_x:    t := tail[rq].n;
          tail[rq].n := tail[rq].n + 1;
          if (tail[rq].closed) goto alloc;
eix_r:    c := cell[rq][t % RING];
ecl_r:    \* the value is read after the index
          c := [c EXCEPT !.v = cell[rq][t % RING].v];
          if (c.v # NONE \/ c.ix > t) goto ehd_r;
          else if (c.safe) goto ecas_x;
ehs_r:    if (head[rq] >= t) goto ehd_r;
ecas_x:   if (cell[rq][t % RING] = [c EXCEPT !.v = NONE]) {
            cell[rq][t % RING] := Cell(Prog[self][i][2], t, TRUE);
            Ret(<< >>);
          };
ehd_r:    h := head[rq];
          if (t - h < RING) goto erq_r;
eclo_x:   if (tail[rq] = [n |-> t + 1, closed |-> FALSE]) { tail[rq].closed := TRUE; } else goto erq_r;
alloc:    if (spare = 0) { spare := fresh; fresh := fresh + 1; };
aini:     tail[spare] := [n |-> 1, closed |-> FALSE];
          cell[spare][0] := Cell(Prog[self][i][2], 0, TRUE);
alnk_x:   if (next[rq] = NULL) next[rq] := spare; else goto erq_r;
asw_x:    if (qtail = rq) qtail := spare;
          spare := 0;
          Ret(<< >>);
drq_r:    rq := qhead;
dtk_x:    h := head[rq]; head[rq] := head[rq] + 1; polled := FALSE; tired := FALSE;
dix_r:    c := cell[rq][h % RING];
dcl_r:    c := [c EXCEPT !.v = cell[rq][h % RING].v];
          if (c.ix > h) goto dend_r;
          else if (c.v = NONE) { if (polled) goto dput; else goto dtl_r; }
          else if (c.ix # h) goto duns_x;
dget_x:   if (cell[rq][h % RING] = c) { cell[rq][h % RING] := Cell(NONE, h + RING, c.safe); Ret(<<c.v>>); } else goto dix_r;
duns_x:   if (cell[rq][h % RING] = c) { cell[rq][h % RING].safe := FALSE; goto dend_r; } else goto dix_r;
dtl_r:    tt := tail[rq]; polled := TRUE;
dput:     if (~c.safe) goto dmu_x;
          else if (tt.n < h + 1 \/ tt.closed) goto dms_x;
          else {
            \* wait for the enqueuer that holds the ticket: it fills the cell or moves on, or patience ends
            either { await cell[rq][h % RING].v # NONE \/ cell[rq][h % RING].ix # c.ix; goto dix_r; } or { await patience > 0; patience := patience - 1; tired := TRUE; goto dms_x; }
          };
dmu_x:    if (cell[rq][h % RING] = c) { cell[rq][h % RING] := Cell(NONE, h + RING, FALSE); goto dend_r; } else goto dix_r;
dms_x:    if (cell[rq][h % RING] = c) { cell[rq][h % RING] := Cell(NONE, h + RING, TRUE); if (tired /\ tt.n > RING) goto dcl_x; else goto dend_r; } else goto dix_r;
dcl_x:    tail[rq].closed := TRUE;
dend_r:   if (tail[rq].n > h + 1) goto drq_r;
fix1_x:   tt := tail[rq];
fix2_x:   t := head[rq];
fix3_r:   if (tail[rq] # tt) goto fix1_x;
          else if (t <= tt.n) goto dnx_r;
          else if (tt.closed) goto dnx_r;
fix4_x:   if (tail[rq] = tt) { tail[rq].n := t; } else goto fix1_x;
dnx_r:    nx := next[rq];
          if (nx = NULL) { Ret(<<EMPTY>>); };
dre_r:    if (tail[rq].n > h + 1) goto drq_r;
dadv_x:   if (qhead = rq) qhead := nx;
          goto drq_r;
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, qhead, qtail, fresh, head, tail, next, cell, mon, res, i, rq, 
          nx, t, h, c, tt, spare, polled, tired, patience

vars == << pc, qhead, qtail, fresh, head, tail, next, cell, mon, res, i, rq, 
           nx, t, h, c, tt, spare, polled, tired, patience >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ qhead = 1
        /\ qtail = 1
        /\ fresh = 2
        /\ head = [r \in 1..RINGS |-> 0]
        /\ tail = [r \in 1..RINGS |-> [n |-> 0, closed |-> FALSE]]
        /\ next = [r \in 1..RINGS |-> NULL]
        /\ cell = [r \in 1..RINGS |-> Fresh]
        /\ mon = MonInit(Kind, Threads)
        /\ res = [th \in Threads |-> << >>]
        (* Process T *)
        /\ i = [self \in Threads |-> 1]
        /\ rq = [self \in Threads |-> 0]
        /\ nx = [self \in Threads |-> 0]
        /\ t = [self \in Threads |-> 0]
        /\ h = [self \in Threads |-> 0]
        /\ c = [self \in Threads |-> Cell(0, 0, TRUE)]
        /\ tt = [self \in Threads |-> [n |-> 0, closed |-> FALSE]]
        /\ spare = [self \in Threads |-> 0]
        /\ polled = [self \in Threads |-> FALSE]
        /\ tired = [self \in Threads |-> FALSE]
        /\ patience = [self \in Threads |-> 1]
        /\ pc = [self \in ProcSet |-> "op_c"]

op_c(self) == /\ pc[self] = "op_c"
              /\ IF i[self] > Len(Prog[self])
                    THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ mon' = mon
                    ELSE /\ mon' = MonCall(mon, self, Prog[self][i[self]][1], Prog[self][i[self]][2])
                         /\ IF Prog[self][i[self]][1] = 1
                               THEN /\ pc' = [pc EXCEPT ![self] = "drq_r"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "erq_r"]
              /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, res, 
                              i, rq, nx, t, h, c, tt, spare, polled, tired, 
                              patience >>

erq_r(self) == /\ pc[self] = "erq_r"
               /\ rq' = [rq EXCEPT ![self] = qtail]
               /\ pc' = [pc EXCEPT ![self] = "enx_r"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, nx, t, h, c, tt, spare, polled, 
                               tired, patience >>

enx_r(self) == /\ pc[self] = "enx_r"
               /\ nx' = [nx EXCEPT ![self] = next[rq[self]]]
               /\ IF nx'[self] = NULL
                     THEN /\ pc' = [pc EXCEPT ![self] = "etk_x"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "eadv_x"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, t, h, c, tt, spare, polled, 
                               tired, patience >>

eadv_x(self) == /\ pc[self] = "eadv_x"
                /\ IF qtail = rq[self]
                      THEN /\ qtail' = nx[self]
                      ELSE /\ TRUE
                           /\ qtail' = qtail
                /\ pc' = [pc EXCEPT ![self] = "erq_r"]
                /\ UNCHANGED << qhead, fresh, head, tail, next, cell, mon, res, 
                                i, rq, nx, t, h, c, tt, spare, polled, tired, 
                                patience >>

etk_x(self) == /\ pc[self] = "etk_x"
               /\ t' = [t EXCEPT ![self] = tail[rq[self]].n]
               /\ tail' = [tail EXCEPT ![rq[self]].n = tail[rq[self]].n + 1]
               /\ IF tail'[rq[self]].closed
                     THEN /\ pc' = [pc EXCEPT ![self] = "alloc"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "eix_r"]
               /\ UNCHANGED << qhead, qtail, fresh, head, next, cell, mon, res, 
                               i, rq, nx, h, c, tt, spare, polled, tired, 
                               patience >>

eix_r(self) == /\ pc[self] = "eix_r"
               /\ c' = [c EXCEPT ![self] = cell[rq[self]][t[self] % RING]]
               /\ pc' = [pc EXCEPT ![self] = "ecl_r"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, h, tt, spare, polled, 
                               tired, patience >>

ecl_r(self) == /\ pc[self] = "ecl_r"
               /\ c' = [c EXCEPT ![self] = [c[self] EXCEPT !.v = cell[rq[self]][t[self] % RING].v]]
               /\ IF c'[self].v # NONE \/ c'[self].ix > t[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "ehd_r"]
                     ELSE /\ IF c'[self].safe
                                THEN /\ pc' = [pc EXCEPT ![self] = "ecas_x"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "ehs_r"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, h, tt, spare, polled, 
                               tired, patience >>

ehs_r(self) == /\ pc[self] = "ehs_r"
               /\ IF head[rq[self]] >= t[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "ehd_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "ecas_x"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, h, c, tt, spare, polled, 
                               tired, patience >>

ecas_x(self) == /\ pc[self] = "ecas_x"
                /\ IF cell[rq[self]][t[self] % RING] = [c[self] EXCEPT !.v = NONE]
                      THEN /\ cell' = [cell EXCEPT ![rq[self]][t[self] % RING] = Cell(Prog[self][i[self]][2], t[self], TRUE)]
                           /\ mon' = MonRet(Kind, mon, self, (<< >>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "ehd_r"]
                           /\ UNCHANGED << cell, mon, res, i >>
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, rq, nx, 
                                t, h, c, tt, spare, polled, tired, patience >>

ehd_r(self) == /\ pc[self] = "ehd_r"
               /\ h' = [h EXCEPT ![self] = head[rq[self]]]
               /\ IF t[self] - h'[self] < RING
                     THEN /\ pc' = [pc EXCEPT ![self] = "erq_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "eclo_x"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, c, tt, spare, polled, 
                               tired, patience >>

eclo_x(self) == /\ pc[self] = "eclo_x"
                /\ IF tail[rq[self]] = [n |-> t[self] + 1, closed |-> FALSE]
                      THEN /\ tail' = [tail EXCEPT ![rq[self]].closed = TRUE]
                           /\ pc' = [pc EXCEPT ![self] = "alloc"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "erq_r"]
                           /\ tail' = tail
                /\ UNCHANGED << qhead, qtail, fresh, head, next, cell, mon, 
                                res, i, rq, nx, t, h, c, tt, spare, polled, 
                                tired, patience >>

alloc(self) == /\ pc[self] = "alloc"
               /\ IF spare[self] = 0
                     THEN /\ spare' = [spare EXCEPT ![self] = fresh]
                          /\ fresh' = fresh + 1
                     ELSE /\ TRUE
                          /\ UNCHANGED << fresh, spare >>
               /\ pc' = [pc EXCEPT ![self] = "aini"]
               /\ UNCHANGED << qhead, qtail, head, tail, next, cell, mon, res, 
                               i, rq, nx, t, h, c, tt, polled, tired, patience >>

aini(self) == /\ pc[self] = "aini"
              /\ tail' = [tail EXCEPT ![spare[self]] = [n |-> 1, closed |-> FALSE]]
              /\ cell' = [cell EXCEPT ![spare[self]][0] = Cell(Prog[self][i[self]][2], 0, TRUE)]
              /\ pc' = [pc EXCEPT ![self] = "alnk_x"]
              /\ UNCHANGED << qhead, qtail, fresh, head, next, mon, res, i, rq, 
                              nx, t, h, c, tt, spare, polled, tired, patience >>

alnk_x(self) == /\ pc[self] = "alnk_x"
                /\ IF next[rq[self]] = NULL
                      THEN /\ next' = [next EXCEPT ![rq[self]] = spare[self]]
                           /\ pc' = [pc EXCEPT ![self] = "asw_x"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "erq_r"]
                           /\ next' = next
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, cell, mon, 
                                res, i, rq, nx, t, h, c, tt, spare, polled, 
                                tired, patience >>

asw_x(self) == /\ pc[self] = "asw_x"
               /\ IF qtail = rq[self]
                     THEN /\ qtail' = spare[self]
                     ELSE /\ TRUE
                          /\ qtail' = qtail
               /\ spare' = [spare EXCEPT ![self] = 0]
               /\ mon' = MonRet(Kind, mon, self, (<< >>))
               /\ res' = [res EXCEPT ![self] = Append(res[self], (<< >>))]
               /\ i' = [i EXCEPT ![self] = i[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "op_c"]
               /\ UNCHANGED << qhead, fresh, head, tail, next, cell, rq, nx, t, 
                               h, c, tt, polled, tired, patience >>

drq_r(self) == /\ pc[self] = "drq_r"
               /\ rq' = [rq EXCEPT ![self] = qhead]
               /\ pc' = [pc EXCEPT ![self] = "dtk_x"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, nx, t, h, c, tt, spare, polled, 
                               tired, patience >>

dtk_x(self) == /\ pc[self] = "dtk_x"
               /\ h' = [h EXCEPT ![self] = head[rq[self]]]
               /\ head' = [head EXCEPT ![rq[self]] = head[rq[self]] + 1]
               /\ polled' = [polled EXCEPT ![self] = FALSE]
               /\ tired' = [tired EXCEPT ![self] = FALSE]
               /\ pc' = [pc EXCEPT ![self] = "dix_r"]
               /\ UNCHANGED << qhead, qtail, fresh, tail, next, cell, mon, res, 
                               i, rq, nx, t, c, tt, spare, patience >>

dix_r(self) == /\ pc[self] = "dix_r"
               /\ c' = [c EXCEPT ![self] = cell[rq[self]][h[self] % RING]]
               /\ pc' = [pc EXCEPT ![self] = "dcl_r"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, h, tt, spare, polled, 
                               tired, patience >>

dcl_r(self) == /\ pc[self] = "dcl_r"
               /\ c' = [c EXCEPT ![self] = [c[self] EXCEPT !.v = cell[rq[self]][h[self] % RING].v]]
               /\ IF c'[self].ix > h[self]
                     THEN /\ pc' = [pc EXCEPT ![self] = "dend_r"]
                     ELSE /\ IF c'[self].v = NONE
                                THEN /\ IF polled[self]
                                           THEN /\ pc' = [pc EXCEPT ![self] = "dput"]
                                           ELSE /\ pc' = [pc EXCEPT ![self] = "dtl_r"]
                                ELSE /\ IF c'[self].ix # h[self]
                                           THEN /\ pc' = [pc EXCEPT ![self] = "duns_x"]
                                           ELSE /\ pc' = [pc EXCEPT ![self] = "dget_x"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, h, tt, spare, polled, 
                               tired, patience >>

dget_x(self) == /\ pc[self] = "dget_x"
                /\ IF cell[rq[self]][h[self] % RING] = c[self]
                      THEN /\ cell' = [cell EXCEPT ![rq[self]][h[self] % RING] = Cell(NONE, h[self] + RING, c[self].safe)]
                           /\ mon' = MonRet(Kind, mon, self, (<<c[self].v>>))
                           /\ res' = [res EXCEPT ![self] = Append(res[self], (<<c[self].v>>))]
                           /\ i' = [i EXCEPT ![self] = i[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "op_c"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "dix_r"]
                           /\ UNCHANGED << cell, mon, res, i >>
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, rq, nx, 
                                t, h, c, tt, spare, polled, tired, patience >>

duns_x(self) == /\ pc[self] = "duns_x"
                /\ IF cell[rq[self]][h[self] % RING] = c[self]
                      THEN /\ cell' = [cell EXCEPT ![rq[self]][h[self] % RING].safe = FALSE]
                           /\ pc' = [pc EXCEPT ![self] = "dend_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "dix_r"]
                           /\ cell' = cell
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, mon, 
                                res, i, rq, nx, t, h, c, tt, spare, polled, 
                                tired, patience >>

dtl_r(self) == /\ pc[self] = "dtl_r"
               /\ tt' = [tt EXCEPT ![self] = tail[rq[self]]]
               /\ polled' = [polled EXCEPT ![self] = TRUE]
               /\ pc' = [pc EXCEPT ![self] = "dput"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, h, c, spare, tired, 
                               patience >>

dput(self) == /\ pc[self] = "dput"
              /\ IF ~c[self].safe
                    THEN /\ pc' = [pc EXCEPT ![self] = "dmu_x"]
                         /\ UNCHANGED << tired, patience >>
                    ELSE /\ IF tt[self].n < h[self] + 1 \/ tt[self].closed
                               THEN /\ pc' = [pc EXCEPT ![self] = "dms_x"]
                                    /\ UNCHANGED << tired, patience >>
                               ELSE /\ \/ /\ cell[rq[self]][h[self] % RING].v # NONE \/ cell[rq[self]][h[self] % RING].ix # c[self].ix
                                          /\ pc' = [pc EXCEPT ![self] = "dix_r"]
                                          /\ UNCHANGED <<tired, patience>>
                                       \/ /\ patience[self] > 0
                                          /\ patience' = [patience EXCEPT ![self] = patience[self] - 1]
                                          /\ tired' = [tired EXCEPT ![self] = TRUE]
                                          /\ pc' = [pc EXCEPT ![self] = "dms_x"]
              /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, mon, 
                              res, i, rq, nx, t, h, c, tt, spare, polled >>

dmu_x(self) == /\ pc[self] = "dmu_x"
               /\ IF cell[rq[self]][h[self] % RING] = c[self]
                     THEN /\ cell' = [cell EXCEPT ![rq[self]][h[self] % RING] = Cell(NONE, h[self] + RING, FALSE)]
                          /\ pc' = [pc EXCEPT ![self] = "dend_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dix_r"]
                          /\ cell' = cell
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, mon, res, 
                               i, rq, nx, t, h, c, tt, spare, polled, tired, 
                               patience >>

dms_x(self) == /\ pc[self] = "dms_x"
               /\ IF cell[rq[self]][h[self] % RING] = c[self]
                     THEN /\ cell' = [cell EXCEPT ![rq[self]][h[self] % RING] = Cell(NONE, h[self] + RING, TRUE)]
                          /\ IF tired[self] /\ tt[self].n > RING
                                THEN /\ pc' = [pc EXCEPT ![self] = "dcl_x"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "dend_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dix_r"]
                          /\ cell' = cell
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, mon, res, 
                               i, rq, nx, t, h, c, tt, spare, polled, tired, 
                               patience >>

dcl_x(self) == /\ pc[self] = "dcl_x"
               /\ tail' = [tail EXCEPT ![rq[self]].closed = TRUE]
               /\ pc' = [pc EXCEPT ![self] = "dend_r"]
               /\ UNCHANGED << qhead, qtail, fresh, head, next, cell, mon, res, 
                               i, rq, nx, t, h, c, tt, spare, polled, tired, 
                               patience >>

dend_r(self) == /\ pc[self] = "dend_r"
                /\ IF tail[rq[self]].n > h[self] + 1
                      THEN /\ pc' = [pc EXCEPT ![self] = "drq_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "fix1_x"]
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                                mon, res, i, rq, nx, t, h, c, tt, spare, 
                                polled, tired, patience >>

fix1_x(self) == /\ pc[self] = "fix1_x"
                /\ tt' = [tt EXCEPT ![self] = tail[rq[self]]]
                /\ pc' = [pc EXCEPT ![self] = "fix2_x"]
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                                mon, res, i, rq, nx, t, h, c, spare, polled, 
                                tired, patience >>

fix2_x(self) == /\ pc[self] = "fix2_x"
                /\ t' = [t EXCEPT ![self] = head[rq[self]]]
                /\ pc' = [pc EXCEPT ![self] = "fix3_r"]
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                                mon, res, i, rq, nx, h, c, tt, spare, polled, 
                                tired, patience >>

fix3_r(self) == /\ pc[self] = "fix3_r"
                /\ IF tail[rq[self]] # tt[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "fix1_x"]
                      ELSE /\ IF t[self] <= tt[self].n
                                 THEN /\ pc' = [pc EXCEPT ![self] = "dnx_r"]
                                 ELSE /\ IF tt[self].closed
                                            THEN /\ pc' = [pc EXCEPT ![self] = "dnx_r"]
                                            ELSE /\ pc' = [pc EXCEPT ![self] = "fix4_x"]
                /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                                mon, res, i, rq, nx, t, h, c, tt, spare, 
                                polled, tired, patience >>

fix4_x(self) == /\ pc[self] = "fix4_x"
                /\ IF tail[rq[self]] = tt[self]
                      THEN /\ tail' = [tail EXCEPT ![rq[self]].n = t[self]]
                           /\ pc' = [pc EXCEPT ![self] = "dnx_r"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "fix1_x"]
                           /\ tail' = tail
                /\ UNCHANGED << qhead, qtail, fresh, head, next, cell, mon, 
                                res, i, rq, nx, t, h, c, tt, spare, polled, 
                                tired, patience >>

dnx_r(self) == /\ pc[self] = "dnx_r"
               /\ nx' = [nx EXCEPT ![self] = next[rq[self]]]
               /\ IF nx'[self] = NULL
                     THEN /\ mon' = MonRet(Kind, mon, self, (<<EMPTY>>))
                          /\ res' = [res EXCEPT ![self] = Append(res[self], (<<EMPTY>>))]
                          /\ i' = [i EXCEPT ![self] = i[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "op_c"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dre_r"]
                          /\ UNCHANGED << mon, res, i >>
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, rq, 
                               t, h, c, tt, spare, polled, tired, patience >>

dre_r(self) == /\ pc[self] = "dre_r"
               /\ IF tail[rq[self]].n > h[self] + 1
                     THEN /\ pc' = [pc EXCEPT ![self] = "drq_r"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "dadv_x"]
               /\ UNCHANGED << qhead, qtail, fresh, head, tail, next, cell, 
                               mon, res, i, rq, nx, t, h, c, tt, spare, polled, 
                               tired, patience >>

dadv_x(self) == /\ pc[self] = "dadv_x"
                /\ IF qhead = rq[self]
                      THEN /\ qhead' = nx[self]
                      ELSE /\ TRUE
                           /\ qhead' = qhead
                /\ pc' = [pc EXCEPT ![self] = "drq_r"]
                /\ UNCHANGED << qtail, fresh, head, tail, next, cell, mon, res, 
                                i, rq, nx, t, h, c, tt, spare, polled, tired, 
                                patience >>

T(self) == op_c(self) \/ erq_r(self) \/ enx_r(self) \/ eadv_x(self)
              \/ etk_x(self) \/ eix_r(self) \/ ecl_r(self) \/ ehs_r(self)
              \/ ecas_x(self) \/ ehd_r(self) \/ eclo_x(self) \/ alloc(self)
              \/ aini(self) \/ alnk_x(self) \/ asw_x(self) \/ drq_r(self)
              \/ dtk_x(self) \/ dix_r(self) \/ dcl_r(self) \/ dget_x(self)
              \/ duns_x(self) \/ dtl_r(self) \/ dput(self) \/ dmu_x(self)
              \/ dms_x(self) \/ dcl_x(self) \/ dend_r(self) \/ fix1_x(self)
              \/ fix2_x(self) \/ fix3_r(self) \/ fix4_x(self)
              \/ dnx_r(self) \/ dre_r(self) \/ dadv_x(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Correct == Linearizable(mon)
Enough == fresh <= RINGS + 1
Fair == \A u \in Threads : WF_vars(T(u))
Terminates == <>(\A u \in Threads : pc[u] = "Done")
FairSpec == Spec /\ Fair
=============================================================================
