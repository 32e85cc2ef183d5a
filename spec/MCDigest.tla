------------------------------ MODULE MCDigest ------------------------------
(***************************************************************************)
(* Exhaustive check of the object design (Digest.tla) on the scaled-down   *)
(* instance Small.tla.                                                     *)
(*                                                                         *)
(* The variable msg is the history: the message each object was fed since  *)
(* it was new, reset or restored.  The invariants say that everything an   *)
(* object does is a function of that message.                              *)
(***************************************************************************)
EXTENDS Small, FiniteSets, TLC

CONSTANTS Objs, MaxMsg, MaxWrite, Alphabet, Restores

VARIABLES obj,   \* object -> state
          msg,   \* object -> history
          saved, \* a marshaled state, or <<>>
          smsg   \* the message it stands for
vars == <<obj, msg, saved, smsg>>

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>}
              ELSE LET s == Strings(n - 1)
                   IN s \cup {Append(t, a) : t \in {u \in s : Len(u) = n - 1}, a \in Alphabet}
Writes == Strings(MaxWrite)

Init == /\ obj = [o \in Objs |-> D!NewD] /\ msg = [o \in Objs |-> <<>>]
        /\ saved = <<>> /\ smsg = <<>>

Write(o, p) ==
  /\ Len(msg[o]) + Len(p) <= MaxMsg
  /\ obj' = [obj EXCEPT ![o] = D!WriteD(Env, @, p)]
  /\ msg' = [msg EXCEPT ![o] = @ \o p]
  /\ UNCHANGED <<saved, smsg>>
Reset(o) ==
  /\ obj' = [obj EXCEPT ![o] = D!NewD] /\ msg' = [msg EXCEPT ![o] = <<>>]
  /\ UNCHANGED <<saved, smsg>>
Marshal(o) ==
  /\ Restores
  /\ saved' = D!MarshalD(obj[o]) /\ smsg' = msg[o]
  /\ UNCHANGED <<obj, msg>>
Unmarshal(o) ==
  /\ Restores /\ saved # <<>>
  /\ obj' = [obj EXCEPT ![o] = D!UnmarshalD(@, saved)]
  /\ msg' = [msg EXCEPT ![o] = smsg]
  /\ UNCHANGED <<saved, smsg>>
\* Something that is not a state: cut short, or with another identifier.
Garbage(o) ==
  /\ Restores /\ saved # <<>>
  /\ \E g \in {SubSeq(saved, 1, Len(saved) - 1), <<"other">> \o SubSeq(saved, 2, Len(saved)), saved \o <<0>>, <<>>} :
        obj' = [obj EXCEPT ![o] = D!UnmarshalD(@, g)]
  /\ UNCHANGED <<msg, saved, smsg>>

Next == \E o \in Objs : (\E p \in Writes : Write(o, p)) \/ Reset(o) \/ Marshal(o)
                          \/ Unmarshal(o) \/ Garbage(o)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* The state of an object is a function of its message: how the message was
\* cut into writes, sums in between, earlier uses of the object and other
\* objects do not show (C02, C06, C07, C08, C09, C10, C13).
StateIsMessage == \A o \in Objs : obj[o] = D!StateOf(Env, msg[o])
\* So are digest and flag, and they are those of the padded message
\* (C01, C03, C05, C16); hashing in one call is the same (C18).
SumIsMessage == \A o \in Objs :
  /\ D!SumD(Env, obj[o]) = D!HashOf(Env, msg[o])
  /\ D!OneShot(Env, msg[o]) = D!HashOf(Env, msg[o])
\* The flag says whether an attack block was completed (C03, C04, C06).
RECURSIVE AnyAttack(_, _)
AnyAttack(h, s) ==
  IF Len(s) < Blk THEN FALSE
  ELSE LET b == SubSeq(s, 1, Blk)
       IN Attack(h, b) \/ AnyAttack(Process4(Env, h, b).h, SubSeq(s, Blk + 1, Len(s)))
FlagRight == \A o \in Objs :
  /\ obj[o].col = AnyAttack(<<>>, msg[o])
  /\ D!SumD(Env, obj[o]).col = AnyAttack(<<>>, D!PadMsg(msg[o]))
\* Padding is unambiguous up to the capacity of the length field.
ASSUME \A a, b \in Strings(7) : D!PadMsg(a) = D!PadMsg(b) => a = b
\* Marshaled states are canonical and restore exactly (C09, C11).
StateExact == \A o \in Objs :
  LET b == D!MarshalD(obj[o])
  IN /\ Len(b) = D!StateLen /\ D!IsState(b)
     /\ \A d \in {D!NewD, [D!NewD EXCEPT !.x = <<1>>, !.len = <<1>>, !.col = TRUE], obj[o]} :
           D!UnmarshalD(d, b) = obj[o]
     /\ b = D!MarshalD(D!StateOf(Env, msg[o]))
BufferShort == \A o \in Objs : Len(obj[o].x) < Blk /\ Len(obj[o].x) = Len(msg[o]) % Blk

\* Once set, a flag stays until the object is reset or restored (C06).
FlagSticky == [][\A o \in Objs :
   (obj[o].col /\ ~obj'[o].col) => (msg'[o] = <<>> \/ msg'[o] = smsg)]_vars
\* Objects do not affect each other (C13).
Isolation == [][Cardinality({o \in Objs : obj'[o] # obj[o]}) <= 1]_vars

\* Not vacuous: these must be reachable (each is checked to be violated).
SomeCollision == \A o \in Objs : ~obj[o].col
SomePadOnly == \A o \in Objs : ~(D!SumD(Env, obj[o]).col /\ ~obj[o].col)
=============================================================================
