---------------------------- MODULE TraceDigest ----------------------------
(***************************************************************************)
(* Checks a recorded execution of the library against the specification    *)
(* with the real SHA-1, the real unavoidable bit conditions and either the *)
(* real table of message differences or one a scenario substituted.        *)
(*                                                                         *)
(* Every line of the trace is one public call with its arguments and       *)
(* results.  A call is accepted when the specification's next state and    *)
(* result agree with what was observed on the aspects in `focus' (a        *)
(* property looks only at the aspects it talks about).                     *)
(***************************************************************************)
EXTENDS Detect, Json, IOUtils, TLC

D == INSTANCE Digest WITH
       BlockLen <- 64, LenLen <- 8, ByteBase <- 256, BitsPerByte <- 8,
       PadByte <- 128, IV0 <- Sha1IV, Process <- ProcessBlock,
       OutH <- WordsBytes, EncH <- WordsBytes,
       DecH <- LAMBDA b : WordsOf(b, 5), HLen <- 20,
       MagicClean <- <<115, 104, 97, 99, 100, 1>>,
       MagicCol   <- <<115, 104, 97, 99, 100, 2>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          focus,  \* aspects compared
          env,    \* substituted message differences
          objs    \* object number -> state
vars == <<l, focus, env, objs>>

NoEnv == [k \in {} |-> <<>>]
NoObjs == [o \in {} |-> D!NewD]
Init == l = 1 /\ focus = {} /\ env = NoEnv /\ objs = NoObjs

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Same == UNCHANGED <<focus, env>>
SetObj(o, d) == objs' = [x \in (DOMAIN objs) \cup {o} |-> IF x = o THEN d ELSE objs[x]]

\* An observation: true, or reported and false.
Expect(what, got, want) ==
  IF got = want THEN TRUE
  ELSE PrintT(ToJson([mismatch |-> what, line |-> l, want |-> want, got |-> got])) /\ FALSE
InFocus(a) == a \in focus

\* What a sum returned, against what it must return.
SumOk(got, want, hascol) ==
  /\ IF {"out", IF want.col THEN "outT" ELSE "outF"} \cap focus # {}
       THEN Expect("digest", got.out, got.in \o want.out) ELSE TRUE
  /\ IF hascol /\ {"col", IF want.col THEN "colT" ELSE "colF"} \cap focus # {}
       THEN Expect("collision flag", got.col, want.col) ELSE TRUE

Begin ==
  /\ IsEvent("Begin")
  /\ focus' = {Ev.focus[i] : i \in 1..Len(Ev.focus)}
  /\ env' = [k \in {Ev.dvs[i].k : i \in 1..Len(Ev.dvs)} |->
               HalvesWords(Ev.dvs[CHOOSE i \in 1..Len(Ev.dvs) : Ev.dvs[i].k = k].dm)]
  /\ objs' = NoObjs

New == IsEvent("New") /\ SetObj(Ev.o, D!NewD) /\ Same

Write ==
  /\ IsEvent("Write")
  /\ IF InFocus("n") THEN Expect("bytes written", Ev.n, Len(Ev.p)) /\ Expect("write error", Ev.err, FALSE) ELSE TRUE
  /\ SetObj(Ev.o, D!WriteD(env, objs[Ev.o], Ev.p))
  /\ Same

\* A very long message, too long to follow here: the state that the standard
\* library's SHA-1 reaches is taken over (trusted), on a fresh object.
Long == [h |-> HalvesWords(Ev.h), x |-> Ev.x, len |-> Ev.len, col |-> FALSE]
Bulk ==
  /\ IsEvent("Bulk")
  /\ objs[Ev.o] = D!NewD
  /\ IF InFocus("n") THEN Expect("MiB written", Ev.n, Ev.mib) /\ Expect("write error", Ev.err, FALSE) ELSE TRUE
  /\ SetObj(Ev.o, Long)
  /\ Same
HugeOneShot ==
  /\ IsEvent("HugeOneShot")
  /\ SumOk([out |-> Ev.out, in |-> <<>>, col |-> Ev.col], D!SumD(env, Long), TRUE)
  /\ UNCHANGED objs /\ Same

\* The same for long parts, without attack blocks, of a write and of hashing in
\* one call: p0 is followed, then the state that the standard library reaches
\* with k further bytes from there is taken over, and then p is followed.
After(o) ==
  LET at == D!WriteD(env, o, Ev.p0)
  IN D!WriteD(env, [h |-> HalvesWords(Ev.h), x |-> Ev.x, len |-> Ev.len, col |-> at.col], Ev.p)
TakesOver(o) ==
  LET at == D!WriteD(env, o, Ev.p0)
  IN HalvesWords(Ev.from) = at.h /\ Ev.len = D!LenAdd(at.len, Ev.k)
BulkWrite ==
  /\ IsEvent("BulkWrite")
  /\ TakesOver(objs[Ev.o])
  /\ IF InFocus("n") THEN Expect("bytes written", Ev.n, Len(Ev.p0) + Ev.k + Len(Ev.p)) /\ Expect("write error", Ev.err, FALSE) ELSE TRUE
  /\ SetObj(Ev.o, After(objs[Ev.o]))
  /\ Same
BulkOneShot ==
  /\ IsEvent("BulkOneShot")
  /\ TakesOver(D!NewD)
  /\ SumOk([out |-> Ev.out, in |-> <<>>, col |-> Ev.col], D!SumD(env, After(D!NewD)), TRUE)
  /\ UNCHANGED objs /\ Same

Sum ==
  /\ IsEvent("Sum")
  /\ SumOk(Ev, D!SumD(env, objs[Ev.o]), FALSE)
  /\ UNCHANGED objs /\ Same
CRSum ==
  /\ IsEvent("CRSum")
  /\ SumOk(Ev, D!SumD(env, objs[Ev.o]), TRUE)
  /\ UNCHANGED objs /\ Same
OneShot ==
  /\ IsEvent("OneShot")
  /\ SumOk([out |-> Ev.out, in |-> <<>>, col |-> Ev.col], D!OneShot(env, Ev.p), TRUE)
  /\ UNCHANGED objs /\ Same

Reset == IsEvent("Reset") /\ SetObj(Ev.o, D!NewD) /\ Same

Marshal ==
  /\ IsEvent("Marshal")
  /\ IF InFocus("blob")
       THEN Expect("checkpoint error", Ev.err, FALSE) /\ Expect("checkpoint", Ev.b, D!MarshalD(objs[Ev.o]))
       ELSE TRUE
  /\ UNCHANGED objs /\ Same
Unmarshal ==
  /\ IsEvent("Unmarshal")
  /\ IF InFocus("err") THEN Expect("restore error", Ev.err, ~D!IsState(Ev.b)) ELSE TRUE
  /\ SetObj(Ev.o, D!UnmarshalD(objs[Ev.o], Ev.b))
  /\ Same

\* The unavoidable-bit-condition mask of an expanded message.
Mask ==
  /\ IsEvent("Mask")
  /\ Expect("mask", Ev.m, UbcMask(Expand(HalvesWords(Ev.w))))
  /\ UNCHANGED objs /\ Same

\* The table of disturbance vectors, as a set.
Dvs ==
  /\ IsEvent("Dvs")
  /\ LET got == {<<Ev.t[i].type, Ev.t[i].k, Ev.t[i].b, Ev.t[i].t, Ev.t[i].bit,
                   HalvesWords(Ev.t[i].dm)>> : i \in 1..Len(Ev.t)}
         want == {<<DvList[i][1], DvList[i][2], DvList[i][3], DvList[i][4], i - 1, DvTable[i]>> : i \in 1..NDv}
     IN /\ Expect("missing disturbance vectors", want \ got, {})
        /\ Expect("unknown disturbance vectors", got \ want, {})
  /\ Expect("number of disturbance vectors", Len(Ev.t), NDv)
  /\ UNCHANGED objs /\ Same

Consts ==
  /\ IsEvent("Consts")
  /\ Expect("digest and block size", <<Ev.size, Ev.block>>, <<20, 64>>)
  /\ UNCHANGED objs /\ Same

Next == Begin \/ New \/ Write \/ Bulk \/ HugeOneShot \/ BulkWrite \/ BulkOneShot \/ Sum \/ CRSum \/ OneShot \/ Reset \/ Marshal \/ Unmarshal
          \/ Mask \/ Dvs \/ Consts
Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
