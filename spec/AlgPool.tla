-------------------------------- MODULE AlgPool --------------------------------
(* The object pool of libconcurrent/primitives/pool.c: blocks of ENTRIES      *)
(* objects in a doubly linked list (a sequence, here), a position in it, and  *)
(* a list of recycled objects.  An object is its position <<block, entry>>.   *)
(* Every sequence of operations up to STEPS is explored.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS ENTRIES, STEPS
VARIABLES blocks,   \* entries handed out of each block
          cur,      \* the current block
          rec,      \* recycled objects, last in first out
          live,     \* objects in use
          recent,   \* the objects in the order of allocation that a rollback may cancel
          clash,    \* an object was handed out twice
          steps
vars == <<blocks, cur, rec, live, recent, clash, steps>>
Init == blocks = <<0>> /\ cur = 1 /\ rec = << >> /\ live = {} /\ recent = << >> /\ clash = FALSE /\ steps = 0

Give(o) == live' = live \cup {o} /\ clash' = (clash \/ o \in live)
Alloc ==
  \/ /\ rec # << >>
     /\ Give(Head(rec)) /\ rec' = Tail(rec) /\ recent' = << >> /\ UNCHANGED <<blocks, cur>>
  \/ /\ rec = << >> /\ blocks[cur] < ENTRIES
     /\ Give(<<cur, blocks[cur]>>) /\ blocks' = [blocks EXCEPT ![cur] = @ + 1] /\ recent' = Append(recent, <<cur, blocks[cur]>>)
     /\ UNCHANGED <<cur, rec>>
  \/ /\ rec = << >> /\ blocks[cur] = ENTRIES /\ cur < Len(blocks)
     \* an old block: all of its entries were cancelled before
     /\ Give(<<cur + 1, blocks[cur + 1]>>) /\ cur' = cur + 1 /\ blocks' = [blocks EXCEPT ![cur + 1] = @ + 1]
     /\ recent' = Append(recent, <<cur + 1, blocks[cur + 1]>>) /\ UNCHANGED rec
  \/ /\ rec = << >> /\ blocks[cur] = ENTRIES /\ cur = Len(blocks)
     /\ Give(<<cur + 1, 0>>) /\ cur' = cur + 1 /\ blocks' = Append(blocks, 1) /\ recent' = Append(recent, <<cur + 1, 0>>) /\ UNCHANGED rec
Recycle == \E o \in live : /\ live' = live \ {o} /\ rec' = <<o>> \o rec
                           \* what was allocated before it can still be cancelled only if it comes after it
                           /\ recent' = << >>
                           /\ UNCHANGED <<blocks, cur, clash>>
RECURSIVE Back(_, _, _)
Back(b, c, m) == IF m > b[c] THEN IF c = 1 THEN <<[b EXCEPT ![c] = 0], c>> ELSE Back([b EXCEPT ![c] = 0], c - 1, m - b[c])
                 ELSE <<[b EXCEPT ![c] = @ - m], c>>
\* the m most recent allocations are cancelled (all of them came out of blocks and are still in use)
Rollback == \E m \in 1..Len(recent) :
              LET x == Back(blocks, cur, m) gone == { recent[j] : j \in (Len(recent) - m + 1)..Len(recent) } IN
                /\ blocks' = x[1] /\ cur' = x[2] /\ live' = live \ gone
                /\ recent' = SubSeq(recent, 1, Len(recent) - m) /\ UNCHANGED <<rec, clash>>
Next == \/ steps < STEPS /\ steps' = steps + 1 /\ (Alloc \/ Recycle \/ Rollback)
        \/ steps = STEPS /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Disjoint == ~clash
\* exactly the objects that are neither in use nor recycled can be handed out again: nothing is lost
Handed == UNION { { <<b, e>> : e \in 0..(blocks[b] - 1) } : b \in 1..Len(blocks) }
Conserved == Handed = live \cup { rec[j] : j \in 1..Len(rec) } /\ Cardinality(Handed) = Cardinality(live) + Len(rec)
\* memory is taken only when everything has been handed out
Frugal == \A b \in 1..Len(blocks) : b > cur => blocks[b] = 0
Full == \A b \in 1..(cur - 1) : blocks[b] = ENTRIES
================================================================================
