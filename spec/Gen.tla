-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Histories of calls, at the real scale, for replay against the library.  *)
(* The state keeps what the control flow of the object depends on: how     *)
(* full the buffer is, whether blocks have been processed, and whether a   *)
(* collision was found.  A write is described by the number of blocks it   *)
(* completes, how full it leaves the buffer, and which of the completed    *)
(* blocks are attack blocks; the replay turns it into bytes.               *)
(*                                                                         *)
(* TLC visits every transition of this graph; each is printed once, with a *)
(* shortest history that leads to it.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Objs, Fills, MaxBlocks, MaxDepth

VARIABLES obj, slot, hist, prev
vars == <<obj, slot, hist, prev>>

Fresh == [fill |-> 0, nb |-> 0, col |-> FALSE]
NoSlot == [fill |-> -1, nb |-> 0, col |-> FALSE]
Sat(n) == IF n > 2 THEN 2 ELSE n

Init == /\ obj = [o \in Objs |-> Fresh]
        /\ slot = NoSlot /\ hist = <<>> /\ prev = <<>>

Log(op) == /\ Len(hist) < MaxDepth
           /\ hist' = Append(hist, op)
           /\ prev' = <<obj, slot, op>>

HitChoices(n) == IF n = 0 THEN {<<0,0>>}
                 ELSE IF n = 1 THEN {<<0,0>>, <<1,0>>}
                 ELSE {<<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>}   \* first, last

Write(o) ==
  \E n \in 0..MaxBlocks, f \in Fills : \E h \in HitChoices(n) :
     /\ n = 0 => f >= obj[o].fill
     /\ Log([op |-> "write", o |-> o, n |-> n, fill |-> f, first |-> h[1], last |-> h[2]])
     /\ obj' = [obj EXCEPT ![o] = [fill |-> f, nb |-> Sat(obj[o].nb + n),
                                   col |-> obj[o].col \/ h[1] + h[2] > 0]]
     /\ UNCHANGED slot
\* Bytes that make the block completed by the padding an attack block.
WritePadHit(o) ==
  \E n \in 0..1 :
     /\ n = 0 => obj[o].fill = 0
     /\ 55 \in Fills
     /\ Log([op |-> "padhit", o |-> o, n |-> n, fill |-> 55])
     /\ obj' = [obj EXCEPT ![o] = [@ EXCEPT !.fill = 55, !.nb = Sat(@ + n)]]
     /\ UNCHANGED slot
Observe(o) ==
  \E k \in {"sum", "crsum"} :
     Log([op |-> k, o |-> o]) /\ UNCHANGED <<obj, slot>>
Reset(o) ==
  /\ Log([op |-> "reset", o |-> o])
  /\ obj' = [obj EXCEPT ![o] = Fresh] /\ UNCHANGED slot
Marshal(o) ==
  /\ Log([op |-> "marshal", o |-> o])
  /\ slot' = [obj[o] EXCEPT !.nb = 0] /\ UNCHANGED obj
Restore(o) ==
  /\ slot # NoSlot
  /\ Log([op |-> "restore", o |-> o])
  /\ obj' = [obj EXCEPT ![o] = slot] /\ UNCHANGED slot
BadRestore(o) ==
  /\ Log([op |-> "badrestore", o |-> o]) /\ UNCHANGED <<obj, slot>>

Next == \E o \in Objs : Write(o) \/ WritePadHit(o) \/ Observe(o) \/ Reset(o)
                          \/ Marshal(o) \/ Restore(o) \/ BadRestore(o)
Spec == Init /\ [][Next]_vars

View == <<obj, slot, prev>>
Emit == hist # <<>> => PrintT(ToJson(hist))
=============================================================================
