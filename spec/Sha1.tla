-------------------------------- MODULE Sha1 --------------------------------
(***************************************************************************)
(* SHA-1 (FIPS 180-4): message expansion, step function, compression, and  *)
(* the inverse of the step function, which the recompression check needs.  *)
(* Step numbers are 0..79; W[i] is element i+1 of an expanded message.     *)
(***************************************************************************)
EXTENDS Word32

Sha1IV == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>,
             <<4146, 21622>>, <<50130, 57840>> >>

RoundK == << <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>> >>

F(i, b, c, d) ==
  IF i < 20 THEN WOr(WAnd(b, c), WAnd(WNot(b), d))          \* Ch
  ELSE IF i < 40 \/ i >= 60 THEN WXor(WXor(b, c), d)        \* Parity
  ELSE WOr(WAnd(WOr(b, c), d), WAnd(b, c))                  \* Maj

Step(i, s, w) ==
  << WAdd(WAdd(WAdd(WRotl(s[1], 5), F(i, s[2], s[3], s[4])),
               WAdd(s[5], RoundK[(i \div 20) + 1])), w),
     s[1], WRotl(s[2], 30), s[3], s[4] >>

\* The state before step i, given the state s after it.
UnStep(i, s, w) ==
  LET b == WRotl(s[3], 2)
  IN  << s[2], b, s[4], s[5],
         WSub(s[1], WAdd(WAdd(WRotl(s[2], 5), F(i, b, s[4], s[5])),
                         WAdd(RoundK[(i \div 20) + 1], w))) >>

Idx16_79 == [j \in 1..64 |-> j + 15]
Idx0_79  == [j \in 1..80 |-> j - 1]

\* W[i] = (W[i-3] ^ W[i-8] ^ W[i-14] ^ W[i-16]) <<< 1
Expand(m) ==
  FoldLeft(LAMBDA acc, i :
             Append(acc, WRotl(WXor(WXor(acc[i-2], acc[i-7]),
                                    WXor(acc[i-13], acc[i-15])), 1)),
           m, Idx16_79)

\* States(h, w)[t+1] is the state before step t; element 81 is the final one.
States(h, w) ==
  FoldLeft(LAMBDA acc, i : Append(acc, Step(i, acc[i+1], w[i+1])), <<h>>, Idx0_79)

AddState(h, s) == [k \in 1..5 |-> WAdd(h[k], s[k])]

\* Compression with an expanded message.
CompressW(h, w) ==
  AddState(h, FoldLeft(LAMBDA s, i : Step(i, s, w[i+1]), h, Idx0_79))
Compress(h, blk) == CompressW(h, Expand(WordsOf(blk, 16)))
=============================================================================
