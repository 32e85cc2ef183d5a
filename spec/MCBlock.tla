------------------------------- MODULE MCBlock ------------------------------
(***************************************************************************)
(* How the code works through the blocks of a write, step by step, in its  *)
(* three shapes, against what a block has to do (Detect!ProcessBlock):     *)
(*   "generic": a loop with a counter of passes over the block; the states *)
(*              before steps 58 and 65 are kept on the way;                *)
(*   "asm":     four steps at a time, so the states kept are those before  *)
(*              56 and 64, and are advanced afterwards;                    *)
(*   "c":       all states are kept, and a companion is made in memory.    *)
(* The block function is free: a chaining value is the list of the blocks  *)
(* it was made of, one entry for each compression.  Which conditions a     *)
(* block meets depends on the block, and whether a companion collides on   *)
(* the chaining value too: both are chosen freely.                         *)
(*                                                                         *)
(* The other designs must not be, and TLC has to find out why:             *)
(*   "undo58":   states of step 58 are taken for those after it (what the  *)
(*               library did before 53f8580);                              *)
(*   "unrectified": the states before 56 and 64 are used as they are;      *)
(*   "nobreak":  goes on with the other vectors after a hit;               *)
(*   "first":    only looks at the first candidate;                        *)
(*   "count":    counts hits into the passes;                              *)
(*   "once":     does not look any further once something has been found;  *)
(*   "stale":    keeps the candidates of the last block if they are the    *)
(*               same block;                                               *)
(*   "rekeep":   keeps the states again when the block is compressed again *)
(*               and looks for attacks every time.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Design, MaxBlocks

Vec == <<58, 65, 58>>           \* the test steps of the vectors, in order
V == DOMAIN Vec
Blocks == {"a", "b"}

VARIABLES
  msg,     \* the blocks of the write
  cond,    \* block -> vectors whose conditions it meets
  coll,    \* position -> vectors whose companion collides there
  pc, pos, h, col, pass,
  kept,    \* test step -> the step before which the state kept was
  todo,    \* candidates left
  memo     \* for "stale"
vars == <<msg, cond, coll, pc, pos, h, col, pass, kept, todo, memo>>

Init ==
  /\ \E n \in 1..MaxBlocks : msg \in [1..n -> Blocks] /\ coll \in [1..n -> SUBSET V]
  /\ cond \in [Blocks -> SUBSET V]
  /\ pc = "load" /\ pos = 1 /\ h = <<>> /\ col = FALSE /\ pass = 1
  /\ kept = <<>> /\ todo = {} /\ memo = "none"

Asm == Design \in {"asm", "unrectified"}
C   == Design \in {"c", "nobreak"}
Same == UNCHANGED <<msg, cond, coll>>

\* One pass of compression.
Load ==
  /\ pc = "load" /\ pos <= Len(msg)
  /\ h' = Append(h, msg[pos])
  /\ kept' = [t \in {58, 65} |-> IF Asm THEN (IF t = 58 THEN 56 ELSE 64) ELSE t]
  /\ pc' = IF pass = 1 \/ Design = "rekeep" THEN (IF Design = "asm" THEN "rectify" ELSE "mask") ELSE "again"
  /\ UNCHANGED <<pos, col, pass, todo, memo>> /\ Same
Rectify ==
  /\ pc = "rectify"
  /\ kept' = [kept EXCEPT ![58] = @ + 2, ![65] = @ + 1]
  /\ pc' = "mask" /\ UNCHANGED <<pos, h, col, pass, todo, memo>> /\ Same
Mask ==
  /\ pc = "mask"
  /\ todo' = IF Design = "once" /\ col THEN {}
             ELSE IF Design = "stale" /\ memo = msg[pos] THEN todo
             ELSE cond[msg[pos]]
  /\ memo' = msg[pos]
  /\ pc' = "try" /\ UNCHANGED <<pos, h, col, pass, kept>> /\ Same

\* The companion for vector k is recompressed: undone from the state kept,
\* and done again.  It only tells anything if the steps undone are those
\* before the state, and the state is the common one.
Recompressed(k) ==
  LET t == Vec[k]
      undone == IF Design = "undo58" /\ t = 58 THEN t + 1 ELSE t
  IN kept[t] = t /\ undone = t /\ k \in coll[pos]
Min(S) == CHOOSE k \in S : \A j \in S : k <= j
Try ==
  /\ pc = "try"
  /\ IF todo = {} THEN pc' = "clean" /\ UNCHANGED <<todo, col, pass, h>>
     ELSE LET k == Min(todo) IN
       IF ~Recompressed(k)
         THEN /\ todo' = IF Design = "first" THEN {} ELSE todo \ {k}
              /\ UNCHANGED <<pc, col, pass, h>>
       ELSE /\ col' = TRUE
            /\ CASE Design = "nobreak" ->      \* safe hash on the spot, and on
                      /\ h' = h \o <<msg[pos], msg[pos]>>
                      /\ todo' = todo \ {k} /\ UNCHANGED <<pc, pass>>
                 [] Design = "count" ->
                      /\ pass' = pass + Cardinality({j \in todo : Recompressed(j)})
                      /\ pc' = "load" /\ UNCHANGED <<todo, h>>
                 [] C \/ Asm ->
                      /\ h' = h \o <<msg[pos], msg[pos]>>
                      /\ pc' = "next" /\ UNCHANGED <<todo, pass>>
                 [] OTHER -> pass' = pass + 1 /\ pc' = "load" /\ UNCHANGED <<todo, h>>
  /\ UNCHANGED <<pos, kept, memo>> /\ Same
Again ==   \* the counter of passes, after the second and the third
  /\ pc = "again"
  /\ IF pass = 2 THEN pass' = 3 /\ pc' = "load" ELSE pc' = "next" /\ UNCHANGED pass
  /\ UNCHANGED <<pos, h, col, kept, todo, memo>> /\ Same
Clean == pc = "clean" /\ pc' = "next" /\ UNCHANGED <<pos, h, col, pass, kept, todo, memo>> /\ Same
Go ==
  /\ pc = "next"
  /\ pos' = pos + 1 /\ pass' = 1 /\ pc' = IF pos = Len(msg) THEN "done" ELSE "load"
  /\ UNCHANGED <<h, col, kept, todo, memo>> /\ Same

Next == Load \/ Rectify \/ Mask \/ Try \/ Again \/ Clean \/ Go
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
\* What has to come out.
Hit(i) == cond[msg[i]] \cap coll[i] # {}
RECURSIVE Want(_)
Want(n) == IF n = 0 THEN <<>>
           ELSE Want(n - 1) \o (IF Hit(n) THEN <<msg[n], msg[n], msg[n]>> ELSE <<msg[n]>>)
Right == pc = "done" => h = Want(Len(msg)) /\ (col <=> \E i \in 1..Len(msg) : Hit(i))
\* and at every block boundary
Prefix == (pc = "load" /\ pass = 1) => h = Want(pos - 1) /\ (col <=> \E i \in 1..(pos - 1) : Hit(i))
Bounded == Len(h) <= 3 * MaxBlocks
Ends == <>(pc = "done")
=============================================================================
