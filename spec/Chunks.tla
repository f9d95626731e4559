------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* The parallel workflow documented at loudness_global_multiple: the stream *)
(* is cut at multiples of 100 ms, every chunk but the first starts one      *)
(* gating block early, its first 100 ms are seeded and the rest is added.   *)
(* Every gating block of the stream must then be measured by exactly one    *)
(* chunk, with the energy it has in one pass.                               *)
(***************************************************************************)
EXTENDS Small
CONSTANTS Levels, MaxHops, Rate, Mode,
          Shown       \* print the behaviours, for the real library to take
VARIABLES audio,      \* the stream, one level per frame
          cuts        \* where the chunks after the first begin to count, in hops
vars == <<audio, cuts>>

Hops == Len(audio) \div Hop(Rate)
Frame(st, k, seed) == IF seed THEN Seed(st, audio[k], k, 1).st ELSE Add(st, audio[k], k, 1).st
Fresh0 == New(1, Rate, Mode).st
(* frames from+1 .. to, of which the first n are seeded *)
Measured(from, to, n) == FoldLeft(LAMBDA st, k : Frame(st, from + k, k <= n), Fresh0, [k \in 1..to - from |-> k])
Whole == Measured(0, Len(audio), 0)
Chunks ==
  LET order == SetToSortSeq(cuts, LAMBDA a, b : a < b)
      start == <<0>> \o order
      end == order \o <<Hops>>
      s == Hop(Rate)
  IN  [k \in 1..Len(start) |->
         IF k = 1 THEN Measured(0, end[1] * s, 0)
         ELSE Measured((start[k] - MB) * s, IF k = Len(start) THEN Len(audio) ELSE end[k] * s, s)]

Init == audio = <<>> /\ cuts = {}
Next == \/ /\ Len(audio) < MaxHops * Hop(Rate)
           /\ \E x \in Levels : audio' = Append(audio, x) /\ UNCHANGED cuts
        \/ \E k \in MB + 1..Hops - 1 : k \notin cuts /\ cuts' = cuts \cup {k} /\ UNCHANGED audio
Spec == Init /\ [][Next]_vars
Show == Shown => PrintT(<<"CHUNKS", ToString(audio), ToString(cuts)>>)

OnePass ==
  LET cs == Chunks IN
  IF Has(Mode, ModeHist) THEN Whole.blk = [b \in 1..NBins |-> FoldLeft(LAMBDA acc, c : acc + c.blk[b], 0, cs)]
  ELSE Whole.blk = FlattenSeq([k \in 1..Len(cs) |-> cs[k].blk])
SameLoudness ==
  LET p == IntegratedLoudness(Chunks)
      q == IntegratedLoudness(Reverse(Chunks))
      w == IntegratedLoudness(<<Whole>>)
      same(a, b) == a.kind = b.kind /\ (a.kind = "ok" => a.count = b.count /\ a.energy = b.energy /\ a.thr = b.thr)
  IN  p.code = OK /\ same(p.g, w.g) /\ same(q.g, w.g)
=============================================================================
