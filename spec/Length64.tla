------------------------------ MODULE Length64 ------------------------------
(***************************************************************************)
(* The length arithmetic of Length.tla at full scale, for Apalache: for    *)
(* every 64-bit length (not just those that TLC meets) it is arithmetic    *)
(* modulo 2^64, and the padding fills whole blocks with at least one byte  *)
(* before the length field and at most a block.  Two lengths one after the *)
(* other stand for a counter that is advanced in pieces.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

L == INSTANCE Length WITH BlockLen <- 64, LenLen <- 8, ByteBase <- 256, BitsPerByte <- 8

VARIABLES
  \* @type: Seq(Int);
  l,     \* the counter
  \* @type: Int;
  n      \* what is added to it

\* @type: (Int, Int, Int, Int, Int, Int, Int, Int) => Seq(Int);
Digits(a, b, c, d, e, f, g, h) == <<a, b, c, d, e, f, g, h>>
Digit(x) == 0 <= x /\ x < 256
\* @type: Seq(Int) => Int;
Val(s) == s[8] + 256 * (s[7] + 256 * (s[6] + 256 * (s[5] + 256 * (s[4] + 256 * (s[3] + 256 * (s[2] + 256 * s[1]))))))
Two64 == 18446744073709551616

\* Any counter.
Init ==
  /\ \E a, b, c, d, e, f, g, h \in Int :
       /\ Digit(a) /\ Digit(b) /\ Digit(c) /\ Digit(d) /\ Digit(e) /\ Digit(f) /\ Digit(g) /\ Digit(h)
       /\ l = Digits(a, b, c, d, e, f, g, h)
  /\ \E k \in Int : 0 <= k /\ k < 8388608 /\ n = k
Next == UNCHANGED <<l, n>>

\* What is carried out of the counter is the multiple of 2^64 that is lost.
\* @type: {carry: Int, out: Seq(Int)} => Int;
All(r) == Val(r.out) + Two64 * r.carry
\* @type: Seq(Int) => Bool;
Fits(s) == \A i \in 1..8 : Digit(s[i])
\* One digit, whatever is carried into it: what Adds follows from, digit by
\* digit (all eight at once are too much for the solver).
AddDigitOk ==
  LET r == L!AddDigit(l[1], [carry |-> n, out |-> <<>>])
  IN Digit(r.out[1]) /\ r.out[1] + 256 * r.carry = l[1] + n /\ 0 <= r.carry /\ r.carry <= n
MulDigitOk ==
  LET r == L!MulDigit(l[1], [carry |-> l[2], out |-> <<>>])
  IN Digit(r.out[1]) /\ r.out[1] + 256 * r.carry = 8 * l[1] + l[2] /\ 0 <= r.carry /\ r.carry <= 8
Adds   == All(L!AddCarry(l, n)) = Val(l) + n
Bits   == All(L!MulCarry(l)) = 8 * Val(l)
AddsFit == LET r == L!AddCarry(l, n) IN Fits(r.out) /\ 0 <= r.carry /\ r.carry <= 1
BitsFit == LET r == L!MulCarry(l) IN Fits(r.out) /\ 0 <= r.carry /\ r.carry <= 7
Whole  == LET p == L!PadBytes(l) IN 1 <= p /\ p <= 64 /\ (l[8] + p + 8) % 64 = 0
Buffer == L!LenModBlock(l) = l[8] % 64
Quick == AddDigitOk /\ MulDigitOk /\ AddsFit /\ BitsFit /\ Whole /\ Buffer
=============================================================================
