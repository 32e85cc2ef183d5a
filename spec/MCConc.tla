------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Several goroutines using hash objects at the same time, with every call *)
(* split into its accesses to memory.                                      *)
(*                                                                         *)
(* The rule of use is that of the package: an object that somebody writes  *)
(* to, resets or restores is used by nobody else; of an object that nobody *)
(* changes anybody may take sums and checkpoints.  Under that rule no two  *)
(* accesses may conflict, and every result is that of the message (C13,    *)
(* and C17 for the caller's buffer, which any number of goroutines may be  *)
(* hashing).                                                               *)
(*                                                                         *)
(* Design selects the design: "copy" is the one of the code (a sum works   *)
(* on a copy in its own memory).  The others are ones that it must not     *)
(* have, and TLC must find a counterexample for each:                      *)
(*   "inplace": a sum pads the object itself and puts it back afterwards;  *)
(*   "scratch": the padding is made in a buffer common to all objects;     *)
(*   "cache":   a sum remembers its result in the object;                  *)
(*   "swap":    a write converts the caller's buffer in place, and back.   *)
(***************************************************************************)
EXTENDS Small, FiniteSets, TLC

CONSTANTS Design, Procs, Depth

Shared == 0                      \* the object that nobody changes
SharedMsg == <<1, 0, 1, 0, 1>>   \* what it was fed: an attack block, and more
\* The buffers that callers write from, all readable by all.
Bufs == [b \in {"p", "q"} |-> IF b = "p" THEN <<1, 0, 1, 0, 1, 1>> ELSE <<0, 1, 1>>]

Objs == {Shared} \cup Procs      \* the others belong to one goroutine each
Field == {"h", "x", "len", "col"}

VARIABLES mem,      \* object -> state
          buf,      \* the callers' buffers
          scratch,  \* what "scratch" shares
          cache,    \* what "cache" adds to an object
          pr,       \* goroutine -> where it is: [pc, op, o, b, tmp, rest]
          msg,      \* object -> message (history)
          done,     \* goroutine -> number of calls done
          wrong     \* some call returned something else than it must
vars == <<mem, buf, scratch, cache, pr, msg, done, wrong>>

Idle == [pc |-> "idle", op |-> "", o |-> Shared, b |-> "p", tmp |-> D!NewD, rest |-> <<>>]
Init ==
  /\ mem = [o \in Objs |-> IF o = Shared THEN D!StateOf(Env, SharedMsg) ELSE D!NewD]
  /\ msg = [o \in Objs |-> IF o = Shared THEN SharedMsg ELSE <<>>]
  /\ buf = Bufs /\ scratch = <<>> /\ cache = [o \in Objs |-> <<>>]
  /\ pr = [g \in Procs |-> Idle] /\ done = [g \in Procs |-> 0] /\ wrong = FALSE

Goto(g, pc) == pr' = [pr EXCEPT ![g].pc = pc]
Finish(g) == pr' = [pr EXCEPT ![g] = Idle] /\ done' = [done EXCEPT ![g] = @ + 1]
Keep(S) == UNCHANGED S

\* Calls begin: on the shared object only sums.
Begin(g) ==
  /\ pr[g].pc = "idle" /\ done[g] < Depth
  /\ \/ \E b \in DOMAIN Bufs :
          pr' = [pr EXCEPT ![g] = [Idle EXCEPT !.pc = IF Design = "swap" THEN "swap" ELSE "w-len",
                                               !.op = "write", !.o = g, !.b = b, !.rest = Bufs[b]]]
     \/ \E o \in {Shared, g} : pr' = [pr EXCEPT ![g] = [Idle EXCEPT !.pc = "s-h", !.op = "sum", !.o = o]]
     \/ \E o \in {Shared, g} : pr' = [pr EXCEPT ![g] = [Idle EXCEPT !.pc = "s-h", !.op = "marshal", !.o = o]]
     \/ pr' = [pr EXCEPT ![g] = [Idle EXCEPT !.pc = "r", !.op = "reset", !.o = g]]
  /\ Keep(<<mem, buf, scratch, cache, msg, done, wrong>>)

\* ---- write -------------------------------------------------------------
O(g) == mem[pr[g].o]
SetO(g, d) == mem' = [mem EXCEPT ![pr[g].o] = d]
Inv(s) == [i \in DOMAIN s |-> 1 - s[i]]

Swap(g) ==
  /\ pr[g].pc = "swap"
  /\ buf' = [buf EXCEPT ![pr[g].b] = Inv(@)]
  /\ Goto(g, "swap2") /\ Keep(<<mem, scratch, cache, msg, done, wrong>>)
Swap2(g) ==
  /\ pr[g].pc = "swap2"
  /\ buf' = [buf EXCEPT ![pr[g].b] = Inv(@)]
  /\ Goto(g, "w-len") /\ Keep(<<mem, scratch, cache, msg, done, wrong>>)
WLen(g) ==
  /\ pr[g].pc = "w-len"
  /\ SetO(g, [O(g) EXCEPT !.len = D!LenAdd(@, Len(pr[g].rest))])
  /\ pr' = [pr EXCEPT ![g].pc = "w-top", ![g].rest = buf[pr[g].b]]
  /\ Keep(<<buf, scratch, cache, msg, done, wrong>>)
WTop(g) ==
  /\ pr[g].pc = "w-top"
  /\ LET x == O(g).x
         n == IF x = <<>> THEN 0 ELSE D!MinI(Blk - Len(x), Len(pr[g].rest))
     IN /\ SetO(g, [O(g) EXCEPT !.x = x \o SubSeq(pr[g].rest, 1, n)])
        /\ pr' = [pr EXCEPT ![g].pc = IF Len(x) + n = Blk THEN "w-buf" ELSE "w-blk",
                            ![g].rest = SubSeq(@, n + 1, Len(@))]
  /\ Keep(<<buf, scratch, cache, msg, done, wrong>>)
WBuf(g) ==
  /\ pr[g].pc = "w-buf"
  /\ SetO(g, [D!ProcBlocks(Env, O(g), O(g).x) EXCEPT !.x = <<>>])
  /\ Goto(g, "w-blk") /\ Keep(<<buf, scratch, cache, msg, done, wrong>>)
WBlk(g) ==
  /\ pr[g].pc = "w-blk"
  /\ IF Len(pr[g].rest) >= Blk
       THEN /\ SetO(g, D!ProcBlocks(Env, O(g), SubSeq(pr[g].rest, 1, Blk)))
            /\ pr' = [pr EXCEPT ![g].rest = SubSeq(@, Blk + 1, Len(@))]
       ELSE Goto(g, "w-rest") /\ Keep(mem)
  /\ Keep(<<buf, scratch, cache, msg, done, wrong>>)
WRest(g) ==
  /\ pr[g].pc = "w-rest"
  /\ IF pr[g].rest = <<>> THEN Keep(mem) ELSE SetO(g, [O(g) EXCEPT !.x = pr[g].rest])
  /\ msg' = [msg EXCEPT ![pr[g].o] = @ \o Bufs[pr[g].b]]
  /\ cache' = [cache EXCEPT ![pr[g].o] = <<>>]
  /\ Finish(g) /\ Keep(<<buf, scratch, wrong>>)

ResetStep(g) ==
  /\ pr[g].pc = "r"
  /\ SetO(g, D!NewD) /\ msg' = [msg EXCEPT ![pr[g].o] = <<>>]
  /\ cache' = [cache EXCEPT ![pr[g].o] = <<>>]
  /\ Finish(g) /\ Keep(<<buf, scratch, wrong>>)

\* ---- sum and marshal: copy field by field, then work on the copy --------
CopyStep(g, pc, f, next) ==
  /\ pr[g].pc = pc
  /\ pr' = [pr EXCEPT ![g].tmp[f] = O(g)[f], ![g].pc = next]
  /\ Keep(<<mem, buf, scratch, cache, msg, done, wrong>>)
Copy(g) ==
  \/ CopyStep(g, "s-h", "h", "s-x")
  \/ CopyStep(g, "s-x", "x", "s-len")
  \/ CopyStep(g, "s-len", "len", "s-col")
  \/ CopyStep(g, "s-col", "col", IF pr[g].op = "marshal" THEN "m-out" ELSE "s-pad")

Right(g, r) == r = D!HashOf(Env, msg[pr[g].o])
Pad(g) ==
  /\ pr[g].pc = "s-pad"
  /\ CASE Design = "inplace" -> /\ SetO(g, D!WriteD(Env, O(g), D!PadFor(O(g).len)))
                                /\ Goto(g, "s-back") /\ Keep(<<scratch, cache, done, wrong>>)
       [] Design = "scratch" -> /\ scratch' = D!PadFor(pr[g].tmp.len)
                                /\ Goto(g, "s-out") /\ Keep(<<mem, cache, done, wrong>>)
       [] OTHER -> Goto(g, "s-out") /\ Keep(<<mem, scratch, cache, done, wrong>>)
  /\ Keep(<<buf, msg>>)
Back(g) ==
  /\ pr[g].pc = "s-back"
  /\ wrong' = (wrong \/ ~Right(g, [out |-> O(g).h, col |-> O(g).col]))
  /\ SetO(g, pr[g].tmp) /\ Finish(g) /\ Keep(<<buf, scratch, cache, msg>>)
SumOut(g) ==
  /\ pr[g].pc = "s-out"
  /\ LET pad == IF Design = "scratch" THEN scratch ELSE D!PadFor(pr[g].tmp.len)
         e == D!WriteD(Env, pr[g].tmp, pad)
         r == [out |-> e.h, col |-> e.col]
     IN /\ wrong' = (wrong \/ ~Right(g, IF Design = "cache" /\ cache[pr[g].o] # <<>> THEN cache[pr[g].o][1] ELSE r))
        /\ cache' = IF Design = "cache" THEN [cache EXCEPT ![pr[g].o] = <<r>>] ELSE cache
  /\ Finish(g) /\ Keep(<<mem, buf, scratch, msg>>)
MarshalOut(g) ==
  /\ pr[g].pc = "m-out"
  /\ wrong' = (wrong \/ D!MarshalD(pr[g].tmp) # D!MarshalD(D!StateOf(Env, msg[pr[g].o])))
  /\ Finish(g) /\ Keep(<<mem, buf, scratch, cache, msg>>)

Go(g) == Swap(g) \/ Swap2(g) \/ WLen(g) \/ WTop(g) \/ WBuf(g) \/ WBlk(g) \/ WRest(g)
             \/ ResetStep(g) \/ Copy(g) \/ Pad(g) \/ Back(g) \/ SumOut(g) \/ MarshalOut(g)
Next == \E g \in Procs : Begin(g) \/ Go(g)
Spec == Init /\ [][Next]_vars /\ \A g \in Procs : WF_vars(Go(g))

--------------------------------------------------------------------------
\* What the next step of a goroutine reads and writes.
Obj(o, fs, m) == {<<"obj", o, f, m>> : f \in fs}
Touches(g) ==
  LET p == pr[g] IN
  CASE p.pc = "swap" \/ p.pc = "swap2" -> {<<"buf", p.b, "", "w">>}
    [] p.pc = "w-len" -> Obj(p.o, {"len"}, "w") \cup {<<"buf", p.b, "", "r">>}
    [] p.pc = "w-top" -> Obj(p.o, {"x"}, "w")
    [] p.pc = "w-buf" -> Obj(p.o, Field, "w")
    [] p.pc = "w-blk" -> IF Len(p.rest) >= Blk THEN Obj(p.o, {"h", "col"}, "w") ELSE {}
    [] p.pc = "w-rest" -> Obj(p.o, {"x"}, "w")
    [] p.pc = "r" -> Obj(p.o, Field, "w")
    [] p.pc = "s-h" -> Obj(p.o, {"h"}, "r")
    [] p.pc = "s-x" -> Obj(p.o, {"x"}, "r")
    [] p.pc = "s-len" -> Obj(p.o, {"len"}, "r")
    [] p.pc = "s-col" -> Obj(p.o, {"col"}, "r")
    [] p.pc = "s-pad" -> IF Design = "inplace" THEN Obj(p.o, Field, "w")
                         ELSE IF Design = "scratch" THEN {<<"scratch", 0, "", "w">>} ELSE {}
    [] p.pc = "s-back" -> Obj(p.o, Field, "w")
    [] p.pc = "s-out" -> IF Design = "scratch" THEN {<<"scratch", 0, "", "r">>}
                         ELSE IF Design = "cache" THEN {<<"cache", p.o, "", "w">>} ELSE {}
    [] OTHER -> {}
Conflict(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ (a[4] = "w" \/ b[4] = "w")

NoRace == \A g, k \in Procs : g # k => \A a \in Touches(g), b \in Touches(k) : ~Conflict(a, b)
NoneWrong == ~wrong
\* An object at rest is its message; the shared one is always.
AtRest == \A o \in Objs :
  (\A g \in Procs : pr[g].pc = "idle" \/ pr[g].o # o \/ (o = Shared /\ Design = "copy")) => mem[o] = D!StateOf(Env, msg[o])
BufsKept == buf = Bufs
\* Calls end: nobody waits for anybody.
AllEnd == \A g \in Procs : (pr[g].pc # "idle") ~> (pr[g].pc = "idle")
=============================================================================
