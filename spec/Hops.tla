-------------------------------- MODULE Hops --------------------------------
(***************************************************************************)
(* The loop of add_frames for any sample rate, window and size of calls:   *)
(* the write index into the ring buffer, the frames needed for the next     *)
(* block, and the counter of short-term blocks.  The theorems say, without  *)
(* bounds, that no piece ever leaves the buffer, that the blocks completed  *)
(* depend on the number of frames fed, however they are cut (C01, C05,      *)
(* C06), and that the index is where the most recent frames end (C03).      *)
(* HopsProof proves them; Impl, the code's data structures, keeps Inv.      *)
(*                                                                         *)
(* H is samples_in_100ms, A the length of the buffer in hops; a restart     *)
(* (reset, set_max_window, change_parameters) may choose others.  A >= MB   *)
(* is what allocate_audio_data has to guarantee (62d3c4e).                 *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS MB, SB, SS          \* hops in a gating block (4), in a short-term block (30), between two of these (10)
ASSUME Shape == /\ MB \in Nat /\ SB \in Nat /\ SS \in Nat
                /\ MB > 0 /\ SS > 0 /\ MB <= SB /\ SS <= SB

VARIABLES H, A,                     \* sizes since the analysis (re)started
          fed,                      \* frames since then
          idx, needed, stc,         \* audio_data_index, needed_frames, short_term_frame_counter
          blocks, sts,              \* completed gating and short-term blocks
          slot, sth, laps           \* only for the proof: hops where the next block ends, same for stc, rounds
vars == <<H, A, fed, idx, needed, stc, blocks, sts, slot, sth, laps>>

Sizes == H \in Nat /\ H > 0 /\ A \in Nat /\ A >= MB
Init == /\ Sizes
        /\ fed = 0 /\ idx = 0 /\ needed = MB * H /\ stc = 0 /\ blocks = 0 /\ sts = 0
        /\ slot = MB /\ sth = MB /\ laps = 0

Restart(h, a) ==
  /\ h > 0 /\ a >= MB /\ H' = h /\ A' = a
  /\ fed' = 0 /\ idx' = 0 /\ needed' = MB * h /\ stc' = 0 /\ blocks' = 0 /\ sts' = 0
  /\ slot' = MB /\ sth' = MB /\ laps' = 0

(* the branch of the loop that completes a block *)
Complete ==
  /\ fed' = fed + needed
  /\ idx' = IF idx + needed = A * H THEN 0 ELSE idx + needed
  /\ laps' = IF idx + needed = A * H THEN laps + 1 ELSE laps
  /\ slot' = IF idx + needed = A * H THEN 1 ELSE slot + 1
  /\ blocks' = blocks + 1
  /\ IF stc + needed = SB * H
     THEN stc' = (SB - SS) * H /\ sts' = sts + 1 /\ sth' = SB - SS + 1
     ELSE stc' = stc + needed /\ sts' = sts /\ sth' = sth + 1
  /\ needed' = H
  /\ H' = H /\ A' = A

(* the other one *)
Partial(n) ==
  /\ n < needed
  /\ fed' = fed + n /\ idx' = idx + n /\ needed' = needed - n /\ stc' = stc + n
  /\ UNCHANGED <<H, A, blocks, sts, slot, sth, laps>>

Next == Complete \/ (\E h, a \in Nat : Restart(h, a)) \/ \E n \in Nat : n > 0 /\ Partial(n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ Sizes
          /\ fed \in Nat /\ idx \in Nat /\ needed \in Nat /\ stc \in Nat /\ blocks \in Nat /\ sts \in Nat
          /\ slot \in Nat /\ sth \in Nat /\ laps \in Nat
Small == /\ needed > 0 /\ needed <= IF blocks = 0 THEN MB * H ELSE H
         /\ slot >= 1 /\ slot <= A
         /\ sth >= 1 /\ sth <= SB
Ends == /\ idx + needed = slot * H
        /\ stc + needed = sth * H
        /\ fed + needed = (blocks + MB) * H
Total == /\ blocks + MB = sth + SS * sts
         /\ sts > 0 => sth > SB - SS
         /\ blocks + MB = slot + A * laps
Inv == TypeOK /\ Small /\ Ends /\ Total

(* every piece process() writes lies in the buffer *)
Fits == idx + needed <= A * H
(* what is complete depends on the number of frames alone *)
BlocksOf == /\ (blocks > 0 => (blocks + (MB - 1)) * H <= fed)
            /\ fed < (blocks + MB) * H
ShortTermOf == /\ (sts = 0 => blocks + MB <= SB)
               /\ (sts > 0 => SB + SS * (sts - 1) < blocks + MB /\ blocks + MB <= SB + SS * sts)
(* the write index is the number of frames, round the buffer *)
IndexOf == fed = idx + laps * (A * H) /\ idx < A * H

=============================================================================
