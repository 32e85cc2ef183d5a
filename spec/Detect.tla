------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Collision detection and the safe hash of one block.                     *)
(* `dms' holds the message differences that a scenario has put in place of *)
(* those of DvTable: a function from some DV numbers (normally none).      *)
(***************************************************************************)
EXTENDS Dv, UbcTable

\* The unavoidable bit conditions of DV k on an expanded message.
UbcHolds(k, w) ==
  \A n \in 1..Len(UbcConds[k]) :
     LET c == UbcConds[k][n]
     IN (WBit(w[c[1]+1], c[2]) + WBit(w[c[3]+1], c[4])) % 2 = c[5]
UbcSet(w) == {k \in 1..NDv : UbcHolds(k, w)}
\* The same as a 32-bit mask.
UbcMask(w) ==
  FoldLeft(LAMBDA acc, k : IF UbcHolds(k, w) THEN WOr(acc, WOneBit(k-1)) ELSE acc,
           WZero, [k \in 1..NDv |-> k])

\* The chaining value that the companion message w2 leads to, given the
\* common state st before step t.
Recompress(t, st, w2) ==
  LET back == FoldLeft(LAMBDA s, i : UnStep(i, s, w2[i+1]), st, [j \in 1..t |-> t - j])
      fwd  == FoldLeft(LAMBDA s, i : Step(i, s, w2[i+1]), st, [j \in 1..(80 - t) |-> t + j - 1])
  IN AddState(back, fwd)

DmOf(dms, k) == IF k \in DOMAIN dms THEN dms[k] ELSE DvTable[k]
XorW(w, dm) == [i \in 1..80 |-> WXor(w[i], dm[i])]

\* One block: its digest contribution and whether it is a near-collision
\* block of an attack.  Such a block is compressed three times.
ProcessBlock(dms, h, blk) ==
  LET w   == Expand(WordsOf(blk, 16))
      st  == States(h, w)
      h1  == AddState(h, st[81])
      hit == \E k \in UbcSet(w) :
                Recompress(TestT(k), st[TestT(k) + 1], XorW(w, DmOf(dms, k))) = h1
  IN IF hit THEN [h |-> CompressW(CompressW(h1, w), w), col |-> TRUE]
            ELSE [h |-> h1, col |-> FALSE]
=============================================================================
