--------------------------------- MODULE Dv ---------------------------------
(***************************************************************************)
(* The disturbance vectors (DVs) of counter-cryptanalysis, from their      *)
(* definition: I(K,b) and II(K,b) are the solutions of SHA-1's linear      *)
(* message recurrence that are fixed by sixteen words K..K+15:             *)
(*    I(K,b):  all zero except bit b of word K+15;                         *)
(*    II(K,b): bit 31+b of words K+1 and K+3, and bit b of word K+15.      *)
(* The message difference Dm of a DV combines, for every disturbance, the  *)
(* six differences of the local collision it starts.                       *)
(***************************************************************************)
EXTENDS Sha1

\* <<type, K, b, step to recompress from>>, in the order of the mask bits.
DvList == <<
  <<1,43,0,58>>, <<1,44,0,58>>, <<1,45,0,58>>, <<1,46,0,58>>, <<1,46,2,58>>,
  <<1,47,0,58>>, <<1,47,2,58>>, <<1,48,0,58>>, <<1,48,2,58>>, <<1,49,0,58>>,
  <<1,49,2,58>>, <<1,50,0,65>>, <<1,50,2,65>>, <<1,51,0,65>>, <<1,51,2,65>>,
  <<1,52,0,65>>, <<2,45,0,58>>, <<2,46,0,58>>, <<2,46,2,58>>, <<2,47,0,58>>,
  <<2,48,0,58>>, <<2,49,0,58>>, <<2,49,2,58>>, <<2,50,0,65>>, <<2,50,2,65>>,
  <<2,51,0,65>>, <<2,51,2,65>>, <<2,52,0,65>>, <<2,53,0,65>>, <<2,54,0,65>>,
  <<2,55,0,65>>, <<2,56,0,65>> >>
NDv == Len(DvList)
TestT(k) == DvList[k][4]

\* Words K..K+15 of the DV.
DvSeed(t, b) ==
  [i \in 1..16 |-> IF i = 16 THEN WOneBit(b % 32)
                   ELSE IF t = 2 /\ i \in {2, 4} THEN WOneBit((31 + b) % 32)
                   ELSE WZero]
\* Extended upwards to word 79 and downwards to word -5:
\* element j is word j-6, so that word i is element i+6.
DvUp(t, K, b) ==
  FoldLeft(LAMBDA acc, i :
             LET n == Len(acc) + 1
             IN Append(acc, WRotl(WXor(WXor(acc[n-3], acc[n-8]),
                                       WXor(acc[n-14], acc[n-16])), 1)),
           DvSeed(t, b), [j \in 1..(80 - (K + 16)) |-> j])
DvWords(t, K, b) ==
  FoldLeft(LAMBDA acc, i :
             <<WXor(WXor(WRotr(acc[16], 1), acc[13]), WXor(acc[8], acc[2]))>> \o acc,
           DvUp(t, K, b), [j \in 1..(K + 5) |-> j])
DvDm(t, K, b) ==
  LET v == DvWords(t, K, b)
  IN [j \in 1..80 |->
        LET n == j + 5   \* element of word j-1
        IN WXor(WXor(WXor(v[n], WRotl(v[n-1], 5)), v[n-2]),
                WRotl(WXor(WXor(v[n-3], v[n-4]), v[n-5]), 30))]

DvTable == [k \in 1..NDv |-> DvDm(DvList[k][1], DvList[k][2], DvList[k][3])]
=============================================================================
