------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* The hash object, shaped like the implementation: chaining value h,      *)
(* buffered bytes x (fewer than a block), length counter len and the       *)
(* collision flag col, and one operator per API call.                      *)
(*                                                                         *)
(* Everything that depends on SHA-1 itself is a parameter, so the module   *)
(* is used twice: with a symbolic block function and tiny blocks, for      *)
(* exhaustive checking (MCDigest), and with the real one, for checking     *)
(* recorded executions (TraceDigest).  `env' is whatever the block         *)
(* function needs besides its inputs (the table of message differences).   *)
(***************************************************************************)
EXTENDS Length

CONSTANTS
  PadByte,          \* 0x80
  IV0,              \* initial chaining value
  Process(_, _, _), \* (env, h, block) -> [h, col]
  OutH(_),          \* the digest made of a chaining value
  EncH(_),          \* encoding of a chaining value in a marshaled state
  DecH(_),          \* and back
  HLen,             \* its length
  MagicClean,       \* identifiers of marshaled states,
  MagicCol          \* without and with a collision found

Zeros(n) == [i \in 1..n |-> 0]
MinI(a, b) == IF a < b THEN a ELSE b

LenZero == Zeros(LenLen)

--------------------------------------------------------------------------
(* Object states.                                                          *)
NewD == [h |-> IV0, x |-> <<>>, len |-> LenZero, col |-> FALSE]

\* Feed whole blocks.
ProcBlocks(env, d, s) ==
  FoldLeft(LAMBDA acc, i :
             LET r == Process(env, acc.h, SubSeq(s, (i-1)*BlockLen + 1, i*BlockLen))
             IN [acc EXCEPT !.h = r.h, !.col = acc.col \/ r.col],
           d, [i \in 1..(Len(s) \div BlockLen) |-> i])

\* Write, in the three phases of the code: top up the buffer, feed whole
\* blocks straight from the argument, keep the rest.
WriteD(env, d, p) ==
  IF p = <<>> THEN d
  ELSE
    LET d0   == [d EXCEPT !.len = LenAdd(d.len, Len(p))]
        n    == IF Len(d.x) > 0 THEN MinI(BlockLen - Len(d.x), Len(p)) ELSE 0
        x1   == d.x \o SubSeq(p, 1, n)
        d1   == IF Len(d.x) > 0 /\ Len(x1) = BlockLen
                  THEN [ProcBlocks(env, d0, x1) EXCEPT !.x = <<>>]
                  ELSE [d0 EXCEPT !.x = x1]
        p1   == SubSeq(p, n + 1, Len(p))
        m    == Len(p1) - (Len(p1) % BlockLen)
        d2   == ProcBlocks(env, d1, SubSeq(p1, 1, m))
        p2   == SubSeq(p1, m + 1, Len(p1))
    IN IF p2 = <<>> THEN d2 ELSE [d2 EXCEPT !.x = p2]

\* The padding of a message of length len.
PadFor(len) ==
  <<PadByte>> \o Zeros(PadBytes(len) - 1) \o LenMulBits(len)

\* The result of summing: works on a copy, so there is no next state.
SumD(env, d) ==
  LET e == WriteD(env, d, PadFor(d.len))
  IN [out |-> OutH(e.h), col |-> e.col]

OneShot(env, p) == SumD(env, WriteD(env, NewD, p))

--------------------------------------------------------------------------
(* Marshaled states.                                                       *)
MarshalD(d) ==
  (IF d.col THEN MagicCol ELSE MagicClean) \o EncH(d.h)
     \o d.x \o Zeros(BlockLen - Len(d.x)) \o d.len
MagicLen == Len(MagicClean)
StateLen == MagicLen + HLen + BlockLen + LenLen

IsState(b) ==
  /\ Len(b) = StateLen
  /\ SubSeq(b, 1, MagicLen) \in {MagicClean, MagicCol}
\* Bytes of the block area beyond the buffered ones are ignored.
UnmarshalD(d, b) ==
  IF ~IsState(b) THEN d
  ELSE LET len == SubSeq(b, MagicLen + HLen + BlockLen + 1, StateLen)
       IN [h   |-> DecH(SubSeq(b, MagicLen + 1, MagicLen + HLen)),
           x   |-> SubSeq(b, MagicLen + HLen + 1, MagicLen + HLen + LenModBlock(len)),
           len |-> len,
           col |-> SubSeq(b, 1, MagicLen) = MagicCol]

--------------------------------------------------------------------------
(* The declarative meaning: what a message hashes to, independent of how   *)
(* it was fed.                                                             *)
PadMsg(m) ==
  LET l == LenAdd(LenZero, Len(m))
      z == (BlockLen - ((Len(m) + 1 + LenLen) % BlockLen)) % BlockLen
  IN m \o <<PadByte>> \o Zeros(z) \o LenMulBits(l)
HashOf(env, m) ==
  LET e == ProcBlocks(env, NewD, PadMsg(m)) IN [out |-> OutH(e.h), col |-> e.col]
StateOf(env, m) ==
  LET k == Len(m) - (Len(m) % BlockLen)
  IN [ProcBlocks(env, NewD, SubSeq(m, 1, k)) EXCEPT
        !.x = SubSeq(m, k + 1, Len(m)), !.len = LenAdd(LenZero, Len(m))]
=============================================================================
