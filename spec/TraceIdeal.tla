----------------------------- MODULE TraceIdeal -----------------------------
(***************************************************************************)
(* Checks recorded executions against the ideal hash object: an object is  *)
(* the message it was fed, and a result is a function of that message --   *)
(* some function, learned from the first observation of each message.      *)
(*                                                                         *)
(* This decides the properties that relate executions to each other        *)
(* (chunking, sums, resets, checkpoints, isolation, agreement of builds)   *)
(* on their own, whatever the function is, and for messages of any size:   *)
(* a message is a sequence of parts <<stream, from, to>>, with adjoining   *)
(* parts joined.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, focus,
          sc,     \* scenario: results are remembered within one
          objs,   \* object number -> message
          digest, \* message -> digest
          flag,   \* message -> collision flag
          state,  \* message -> marshaled state
          origin, \* marshaled state -> message it was made of
          other   \* remaining observations
vars == <<l, focus, sc, objs, digest, flag, state, origin, other>>

Nothing == [x \in {} |-> 0]
Init == /\ l = 1 /\ focus = {} /\ sc = "" /\ objs = Nothing
        /\ digest = Nothing /\ flag = Nothing /\ state = Nothing
        /\ origin = Nothing /\ other = Nothing

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
InFocus(a) == a \in focus
With(f, x, y) == [z \in (DOMAIN f) \cup {x} |-> IF z = x THEN y ELSE f[z]]

Expect(what, got, want) ==
  IF got = want THEN TRUE
  ELSE PrintT(ToJson([mismatch |-> what, line |-> l, want |-> want, got |-> got])) /\ FALSE
When(a, p) == IF InFocus(a) THEN p ELSE TRUE

\* v is what f gives for x, if that is known already.
Agrees(what, f, x, v) == IF x \in DOMAIN f THEN Expect(what, v, f[x]) ELSE TRUE
Learn(f, x, v) == IF x \in DOMAIN f THEN f ELSE With(f, x, v)

Join(m, s, f, t) ==
  IF f = t THEN m
  ELSE IF m # <<>> /\ m[Len(m)][1] = s /\ m[Len(m)][3] = f
         THEN [m EXCEPT ![Len(m)] = <<s, @[2], t>>]
         ELSE Append(m, <<s, f, t>>)

Untouched(mod) == When("mem", Expect("memory of the caller", mod, ""))

Begin ==
  /\ IsEvent("Begin")
  /\ focus' = {Ev.focus[i] : i \in 1..Len(Ev.focus)}
  /\ sc' = Ev.sc
  /\ objs' = Nothing
  /\ IF Ev.sc = sc THEN UNCHANGED <<digest, flag, state, origin, other>>
     ELSE /\ digest' = Nothing /\ flag' = Nothing /\ state' = Nothing
          /\ origin' = Nothing /\ other' = Nothing

Know == <<digest, flag, state, origin, other>>

New   == IsEvent("New")   /\ objs' = With(objs, Ev.o, <<>>) /\ UNCHANGED <<focus, sc, Know>>
Reset == IsEvent("Reset") /\ objs' = With(objs, Ev.o, <<>>) /\ UNCHANGED <<focus, sc, Know>>

Write ==
  /\ IsEvent("Write")
  /\ When("n", Expect("bytes written", Ev.n, Ev.t - Ev.f) /\ Expect("write error", Ev.err, FALSE))
  /\ Untouched(Ev.mod)
  /\ objs' = With(objs, Ev.o, Join(objs[Ev.o], Ev.s, Ev.f, Ev.t))
  /\ UNCHANGED <<focus, sc, Know>>

Observe(m, hascol) ==
  /\ When("mem", Expect("result starts with the argument", Ev.pre, TRUE))
  /\ Untouched(Ev.mod)
  /\ When("out", Agrees("digest", digest, m, Ev.d))
  /\ digest' = IF InFocus("out") THEN Learn(digest, m, Ev.d) ELSE digest
  /\ IF hascol
       THEN /\ When("col", Agrees("collision flag", flag, m, Ev.col))
            /\ flag' = IF InFocus("col") THEN Learn(flag, m, Ev.col) ELSE flag
       ELSE UNCHANGED flag
  /\ UNCHANGED <<focus, sc, objs, state, origin, other>>

Sum     == IsEvent("Sum")     /\ Observe(objs[Ev.o], FALSE)
CRSum   == IsEvent("CRSum")   /\ Observe(objs[Ev.o], TRUE)
OneShot == IsEvent("OneShot") /\ Observe(Join(<<>>, Ev.s, Ev.f, Ev.t), TRUE)

Marshal ==
  /\ IsEvent("Marshal")
  /\ When("blob", Expect("checkpoint error", Ev.err, FALSE) /\ Agrees("checkpoint", state, objs[Ev.o], Ev.b))
  /\ state' = Learn(state, objs[Ev.o], Ev.b)
  /\ origin' = Learn(origin, Ev.b, objs[Ev.o])
  /\ UNCHANGED <<focus, sc, objs, digest, flag, other>>

\* A refused state changes nothing; an accepted one makes the object what
\* the state was made of, or, if it was made up, something opaque, of which
\* only its own checkpoint is known (if there are no bytes in it that do not
\* matter).
Unmarshal ==
  /\ IsEvent("Unmarshal")
  /\ When("err", IF Ev.exp \in {"ok", "bad"} THEN Expect("restore error", Ev.err, Ev.exp = "bad") ELSE TRUE)
  /\ Untouched(Ev.mod)
  /\ objs' = IF Ev.err THEN objs
             ELSE With(objs, Ev.o, IF Ev.b \in DOMAIN origin THEN origin[Ev.b]
                                   ELSE <<<<Ev.b, 0, 0>>>>)
  /\ state' = IF ~Ev.err /\ Ev.canon /\ Ev.b \notin DOMAIN origin
                THEN Learn(state, <<<<Ev.b, 0, 0>>>>, Ev.b) ELSE state
  /\ UNCHANGED <<focus, sc, digest, flag, origin, other>>

Recheck == IsEvent("Recheck") /\ Untouched(Ev.mod) /\ UNCHANGED <<focus, sc, objs, Know>>

Other(k, v) ==
  /\ Agrees("result", other, k, v) /\ other' = Learn(other, k, v)
  /\ UNCHANGED <<focus, sc, objs, digest, flag, state, origin>>
Mask   == IsEvent("Mask")   /\ Untouched(Ev.mod) /\ Other(Ev.w, Ev.m)
Consts == IsEvent("Consts") /\ Other("consts", Ev.v)

Next == Begin \/ New \/ Reset \/ Write \/ Sum \/ CRSum \/ OneShot \/ Marshal
          \/ Unmarshal \/ Recheck \/ Mask \/ Consts
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
