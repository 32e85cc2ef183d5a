------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* The scaled-down instance of Digest for exhaustive checking: blocks of   *)
(* four bytes, a one-digit length counter, and a block function about      *)
(* which nothing is known but its inputs.                                  *)
(*                                                                         *)
(* A chaining value is the list of blocks it was made from, with how often *)
(* each was compressed, so two chaining values are equal only if they were *)
(* made the same way.  Whether a block is an attack block depends on the   *)
(* block and the chaining value, as it does in reality.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Blk == 4
\* Attack blocks: some blocks after some chaining values; the second and
\* the fourth are completed by padding.
Attack(h, b) ==
  \/ b = <<1, 0, 1, 0>>
  \/ b = <<1, 1, 3, 4>>                     \* tail <<1,1>> of a 2-byte message, padded
  \/ h # <<>> /\ h[Len(h)][1] = <<0, 0, 0, 0>> /\ b = <<0, 0, 1, 1>>
  \/ Len(h) = 1 /\ b = <<0, 0, 3, 12>>       \* tail of a 6-byte message, padded
Process4(env, h, b) ==
  IF Attack(h, b) THEN [h |-> Append(h, <<b, 3>>), col |-> TRUE]
                  ELSE [h |-> Append(h, <<b, 1>>), col |-> FALSE]

\* A digit is 0..15, a byte counts two bits, so a length field holds up to
\* seven bytes before it wraps, like 2^61 bytes in reality.
D == INSTANCE Digest WITH
       BlockLen <- Blk, LenLen <- 1, ByteBase <- 16, BitsPerByte <- 2,
       PadByte <- 3, IV0 <- <<>>, Process <- Process4,
       OutH <- LAMBDA h : h, EncH <- LAMBDA h : <<h>>, DecH <- LAMBDA s : s[1],
       HLen <- 1, MagicClean <- <<"clean">>, MagicCol <- <<"collided">>
Env == 0
=============================================================================
