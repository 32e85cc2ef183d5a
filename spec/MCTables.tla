------------------------------ MODULE MCTables ------------------------------
(***************************************************************************)
(* Checks the constant part of the specification and writes its tables     *)
(* down for the scenario generator.                                        *)
(***************************************************************************)
EXTENDS Detect, Json, IOUtils, TLC, FiniteSets

VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Bytes(s) == s
Abc == <<97, 98, 99>>
AbcBlock == Abc \o <<128>> \o [i \in 1..59 |-> 0] \o <<24>>
\* FIPS 180 test vector.
ASSUME Compress(Sha1IV, AbcBlock) =
  << <<43417, 15926>>, <<18182, 33130>>, <<47678, 9585>>, <<30800, 49772>>, <<40144, 55453>> >>

\* The step function and its inverse.
SampleW == Expand(WordsOf(AbcBlock, 16))
ASSUME LET st == States(Sha1IV, SampleW)
       IN \A i \in 0..79 : UnStep(i, st[i+2], SampleW[i+1]) = st[i+1]
\* Recompressing the same message from any step is the compression itself.
ASSUME LET st == States(Sha1IV, SampleW)
       IN \A t \in {0, 58, 65, 80} : Recompress(t, st[t+1], SampleW) = Compress(Sha1IV, AbcBlock)

\* The table of DVs.
ASSUME NDv = 32 /\ Len(UbcConds) = NDv
ASSUME Cardinality({<<DvList[k][1], DvList[k][2], DvList[k][3]>> : k \in 1..NDv}) = NDv
ASSUME Cardinality({DvTable[k] : k \in 1..NDv}) = NDv
\* A message difference obeys the message expansion, so that the companion
\* of an expanded message is an expanded message.
ASSUME \A k \in 1..NDv : DvTable[k] = Expand(SubSeq(DvTable[k], 1, 16))
\* The step to recompress from has no disturbance pending: the five DV words
\* before it are zero, so the attack's two messages share that state.
ASSUME \A k \in 1..NDv :
  LET v == DvWords(DvList[k][1], DvList[k][2], DvList[k][3])
  IN \A j \in 1..5 : v[TestT(k) - j + 6] = WZero
\* An unavoidable bit condition speaks about bits that the DV changes.
ASSUME \A k \in 1..NDv : \A n \in 1..Len(UbcConds[k]) :
  LET c == UbcConds[k][n]
  IN /\ WBit(DvTable[k][c[1]+1], c[2]) = 1
     /\ WBit(DvTable[k][c[3]+1], c[4]) = 1
\* so that both messages of an attack meet the conditions or neither does.
ASSUME \A k \in 1..NDv :
  UbcHolds(k, SampleW) = UbcHolds(k, XorW(SampleW, DvTable[k]))

ASSUME JsonSerialize(IOEnv.TABLES,
  [conds |-> UbcConds,
   dvs |-> [k \in 1..NDv |-> [type |-> DvList[k][1], k |-> DvList[k][2], b |-> DvList[k][3],
                              t |-> TestT(k), bit |-> k - 1, dm |-> WordsHalves(DvTable[k])]]])
=============================================================================
