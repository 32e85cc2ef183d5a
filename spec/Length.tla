------------------------------- MODULE Length -------------------------------
(***************************************************************************)
(* The length counter: digits, most significant first, modulo              *)
(* ByteBase^LenLen; and what it means for the padding.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS
  \* @type: Int;
  BlockLen,         \* bytes per block (64)
  \* @type: Int;
  LenLen,           \* digits of the length counter and field (8)
  \* @type: Int;
  ByteBase,         \* base of a digit (256)
  \* @type: Int;
  BitsPerByte       \* 8

\* @type: (Int, {carry: Int, out: Seq(Int)}) => {carry: Int, out: Seq(Int)};
AddDigit(dgt, acc) ==
  LET s == dgt + acc.carry
  IN [carry |-> s \div ByteBase, out |-> <<s % ByteBase>> \o acc.out]
\* n < 2^23 keeps TLC's integers in range for base 256.
\* @type: (Seq(Int), Int) => {carry: Int, out: Seq(Int)};
AddCarry(l, n) == FoldRight(AddDigit, l, [carry |-> n, out |-> <<>>])
\* @type: (Seq(Int), Int) => Seq(Int);
LenAdd(l, n) == AddCarry(l, n).out

\* @type: (Int, {carry: Int, out: Seq(Int)}) => {carry: Int, out: Seq(Int)};
MulDigit(dgt, acc) ==
  LET s == dgt * BitsPerByte + acc.carry
  IN [carry |-> s \div ByteBase, out |-> <<s % ByteBase>> \o acc.out]
\* @type: Seq(Int) => {carry: Int, out: Seq(Int)};
MulCarry(l) == FoldRight(MulDigit, l, [carry |-> 0, out |-> <<>>])
\* The length in bits.
\* @type: Seq(Int) => Seq(Int);
LenMulBits(l) == MulCarry(l).out

\* BlockLen divides ByteBase, so the remainder is that of the last digit.
\* @type: Seq(Int) => Int;
LenModBlock(l) == l[LenLen] % BlockLen

\* Bytes of padding before the length field.
\* @type: Seq(Int) => Int;
PadBytes(l) ==
  LET r == LenModBlock(l)
  IN IF r < BlockLen - LenLen THEN BlockLen - LenLen - r
                              ELSE 2 * BlockLen - LenLen - r
=============================================================================
