------------------------------- MODULE Word32 -------------------------------
(***************************************************************************)
(* 32-bit words.  TLC integers are signed 32-bit, so a word is a pair      *)
(* <<hi, lo>> of 16-bit halves.  Byte strings are sequences over 0..255.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

Half == 65536
Pow2 == [n \in 0..16 |-> 2^n]

WZero == <<0, 0>>
IsWord(w) == w \in (0..(Half-1)) \X (0..(Half-1))

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WNot(a)    == <<Half - 1 - a[1], Half - 1 - a[2]>>
WAdd(a, b) == LET lo == a[2] + b[2]
              IN  <<(a[1] + b[1] + (lo \div Half)) % Half, lo % Half>>
WSub(a, b) == LET lo == a[2] - b[2]
              IN  <<(a[1] - b[1] - (IF lo < 0 THEN 1 ELSE 0)) % Half, lo % Half>>
RotlSmall(a, n) == LET p == Pow2[n]
                       q == Pow2[16 - n]
                   IN <<((a[1] * p) % Half) + (a[2] \div q),
                        ((a[2] * p) % Half) + (a[1] \div q)>>
WRotl(a, n) == IF n < 16 THEN RotlSmall(a, n)
                         ELSE RotlSmall(<<a[2], a[1]>>, n - 16)
WRotr(a, n) == WRotl(a, (32 - n) % 32)

\* Bit n (0 = least significant) of a word.
WBit(a, n) == IF n < 16 THEN (a[2] \div Pow2[n]) % 2
                        ELSE (a[1] \div Pow2[n - 16]) % 2
\* The word with only bit n set.
WOneBit(n) == IF n < 16 THEN <<0, Pow2[n]>> ELSE <<Pow2[n - 16], 0>>

\* Big-endian conversions.
WBytes(a) == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>
BytesW(b, i) == <<b[i] * 256 + b[i+1], b[i+2] * 256 + b[i+3]>>
\* 16 words of a 64-byte block / n words of a byte string.
WordsOf(b, n) == [i \in 1..n |-> BytesW(b, 4 * (i - 1) + 1)]
WordsBytes(ws) == FoldLeft(LAMBDA acc, w : acc \o WBytes(w), <<>>, ws)
\* A flat sequence of halves (the JSON form of a word sequence).
HalvesWords(hs) == [i \in 1..(Len(hs) \div 2) |-> <<hs[2*i-1], hs[2*i]>>]
WordsHalves(ws) == FoldLeft(LAMBDA acc, w : acc \o w, <<>>, ws)
=============================================================================
