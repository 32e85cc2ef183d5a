------------------------------- MODULE MCInit -------------------------------
(***************************************************************************)
(* What hashers share: tables that detection reads.  Goroutines each hash  *)
(* attack blocks, and each has to be reported, whenever it comes and       *)
(* whoever else is at it (C13, C03).                                       *)
(*                                                                         *)
(* Design "static" is the one of the code: the tables are data of the      *)
(* program.  "once" makes them at first use under a lock that everybody    *)
(* waits for, and would be as good.  The others must not be:               *)
(*   "lazy":     made at first use, with an unsynchronised flag;           *)
(*   "early":    the flag is atomic, but set before the table is filled;   *)
(*   "trylock":  who finds somebody else looking does not look;            *)
(*   "front":    a vector that was hit is moved to the front of the table. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Design, Procs, Calls

N == 3                                      \* vectors
Full == [i \in 1..N |-> i]
VARIABLES table, ready, lock, pr, missed
vars == <<table, ready, lock, pr, missed>>

Lazy == Design \in {"once", "lazy", "early"}
Init ==
  /\ table = IF Lazy THEN [i \in 1..N |-> 0] ELSE Full
  /\ ready = ~Lazy /\ lock = 0 /\ missed = FALSE
  /\ pr = [g \in Procs |-> [pc |-> "idle", v |-> 1, i |-> 1, left |-> Calls]]

At(g, pc) == pr[g].pc = pc
To(g, pc) == pr' = [pr EXCEPT ![g].pc = pc]

\* An attack block of any vector arrives.
Begin(g) ==
  /\ At(g, "idle") /\ pr[g].left > 0
  /\ \E v \in 1..N : pr' = [pr EXCEPT ![g] = [pc |-> IF Design = "trylock" THEN "try" ELSE IF Lazy THEN "check" ELSE "look",
                                              v |-> v, i |-> 1, left |-> @.left - 1]]
  /\ UNCHANGED <<table, ready, lock, missed>>

\* ---- first use
Check(g) ==
  /\ At(g, "check")
  /\ IF Design = "once"
       THEN /\ lock = 0 /\ lock' = g
            /\ IF ready THEN To(g, "unlock") ELSE To(g, "fill")
            /\ UNCHANGED ready
       ELSE /\ UNCHANGED lock
            /\ IF ready THEN To(g, "look") /\ UNCHANGED ready
               ELSE /\ To(g, "fill")
                    /\ ready' = IF Design = "early" THEN TRUE ELSE ready
  /\ UNCHANGED <<table, missed>>
Fill(g) ==
  /\ At(g, "fill")
  /\ table' = [table EXCEPT ![pr[g].i] = pr[g].i]
  /\ pr' = [pr EXCEPT ![g].pc = IF @ # "fill" THEN @ ELSE IF pr[g].i < N THEN "fill" ELSE "filled",
                      ![g].i = IF @ < N THEN @ + 1 ELSE 1]
  /\ UNCHANGED <<ready, lock, missed>>
Filled(g) ==
  /\ At(g, "filled") /\ ready' = TRUE
  /\ To(g, IF Design = "once" THEN "unlock" ELSE "look")
  /\ UNCHANGED <<table, lock, missed>>
Unlock(g) == At(g, "unlock") /\ lock' = 0 /\ To(g, "look") /\ UNCHANGED <<table, ready, missed>>

\* ---- looking for the vector, entry by entry
TryLock(g) ==
  /\ At(g, "try")
  /\ IF lock = 0 THEN lock' = g /\ To(g, "look") /\ UNCHANGED missed
     ELSE missed' = TRUE /\ To(g, "idle") /\ UNCHANGED lock
  /\ UNCHANGED <<table, ready>>
Look(g) ==
  /\ At(g, "look")
  /\ LET p == pr[g] IN
     CASE table[p.i] = p.v -> To(g, IF Design = "front" /\ p.i > 1 THEN "front" ELSE "end") /\ UNCHANGED missed
       [] table[p.i] # p.v /\ p.i < N -> pr' = [pr EXCEPT ![g].i = @ + 1] /\ UNCHANGED missed
       [] OTHER -> missed' = TRUE /\ To(g, "end")
  /\ UNCHANGED <<table, ready, lock>>
Front(g) ==
  /\ At(g, "front")
  /\ table' = [table EXCEPT ![1] = table[pr[g].i], ![pr[g].i] = table[1]]
  /\ To(g, "end") /\ UNCHANGED <<ready, lock, missed>>
End(g) ==
  /\ At(g, "end") /\ To(g, "idle")
  /\ lock' = IF Design = "trylock" THEN 0 ELSE lock
  /\ UNCHANGED <<table, ready, missed>>

Step(g) == Check(g) \/ Fill(g) \/ Filled(g) \/ Unlock(g) \/ TryLock(g) \/ Look(g) \/ Front(g) \/ End(g)
Next == \E g \in Procs : Begin(g) \/ Step(g)
Spec == Init /\ [][Next]_vars /\ \A g \in Procs : SF_vars(Step(g))

--------------------------------------------------------------------------
\* What the next step reads and writes, other than atomically.
Touches(g) ==
  LET p == pr[g] IN
  CASE p.pc = "check" /\ Design = "lazy" -> {<<"ready", 0, "r">>}
    [] p.pc = "filled" /\ Design = "lazy" -> {<<"ready", 0, "w">>}
    [] p.pc = "fill" -> {<<"table", p.i, "w">>}
    [] p.pc = "look" -> {<<"table", p.i, "r">>}
    [] p.pc = "front" -> {<<"table", 1, "w">>, <<"table", p.i, "w">>}
    [] OTHER -> {}
NoRace == \A g, k \in Procs : g # k =>
  \A a \in Touches(g), b \in Touches(k) : ~(a[1] = b[1] /\ a[2] = b[2] /\ (a[3] = "w" \/ b[3] = "w"))
NoneMissed == ~missed
\* The table is never other than the published one, to somebody who looks (C15).
TableFull == (\E g \in Procs : At(g, "look")) => {table[i] : i \in 1..N} = 1..N
AllEnd == \A g \in Procs : (pr[g].pc # "idle") ~> (pr[g].pc = "idle")
=============================================================================
