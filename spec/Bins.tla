-------------------------------- MODULE Bins --------------------------------
(***************************************************************************)
(* The algorithms of history.rs - binary search for a bin, prefix sums and *)
(* two further searches for the percentiles, the first bin of a gate, the  *)
(* sorted queue with its index arithmetic - against what Meter says the    *)
(* result is.  The searches of the standard library are specified by their *)
(* contract only: binary_search may return any matching position.          *)
(*                                                                         *)
(* A state is a histogram; blocks arrive one by one, with any energy.       *)
(***************************************************************************)
EXTENDS Small
CONSTANTS Bounds,     \* NBins + 1 bin boundaries
          Centres,    \* the energy of each bin
          Energies,   \* energies that arrive
          MaxBlocks, Factor, RangeFactor   \* the gates: mean \div Factor
VARIABLES h, q        \* the histogram, and the same blocks as a queue

bBinOf(e) == IF e = NaN \/ e < Bounds[2] THEN 1
             ELSE MCMax({b \in 1..NBins : e >= Bounds[b]})
bCentre(b) == Centres[b]
bRelGate(x) == x \div Factor
bRangeGate(x) == x \div RangeFactor

(* find_histogram_index: positions count from 0; every comparison with NaN fails *)
RECURSIVE Search(_, _, _)
Search(e, min, max) ==
  LET mid == (min + max) \div 2
      lo == IF e # NaN /\ e >= Bounds[mid + 1] THEN mid ELSE min
      hi == IF e # NaN /\ e >= Bounds[mid + 1] THEN max ELSE mid
  IN  IF hi - lo = 1 THEN lo ELSE Search(e, lo, hi)
FindIndex(e) == Search(e, 0, NBins)

FirstBin(gate) ==
  IF gate < Bounds[1] THEN 0
  ELSE LET k == FindIndex(gate) IN IF gate > Centres[k + 1] THEN k + 1 ELSE k

(* Histogram::loudness_range *)
SumOfBins(hh, b) == FoldLeft(LAMBDA acc, k : acc + hh[k], 0, [k \in 1..b + 1 |-> k])
Sums == [b \in 0..NBins - 1 |-> SumOfBins(h, b)]
(* slice::binary_search over sums[from..]: all positions (relative to from) it may return *)
Searched(from, v) ==
  LET len == NBins - from
      hits == {k \in 0..len - 1 : Sums[from + k] = v}
  IN  IF hits # {} THEN hits ELSE {Cardinality({k \in 0..len - 1 : Sums[from + k] < v})}
(* the bin the code arrives at from position j: rposition over sums[..from + j] *)
Landing(from, j, p) ==
  LET before == {k \in 0..from + j - 1 : Sums[k] <= p}
  IN  IF before = {} THEN 0 ELSE MCMax(before) + 1
Power == FoldLeft(LAMBDA acc, k : acc + h[k] * Centres[k], 0, [k \in 1..NBins |-> k])
RangeResults ==
  LET size == Sums[NBins - 1]
      gate == bRangeGate(Power \div size)
      from == FirstBin(gate)
      below == IF from = 0 THEN 0 ELSE Sums[from - 1]
      n == size - below
      low == (10 * (n - 1) + 50) \div 100 + below
      high == (95 * (n - 1) + 50) \div 100 + below
  IN  IF size = 0 \/ n = 0 THEN {[kind |-> "none"]}
      ELSE {[kind |-> "ok", low |-> Centres[Landing(from, j, low) + 1], high |-> Centres[Landing(from, k, high) + 1]] :
              j \in Searched(from, low + 1), k \in Searched(from, high + 1)}

(* gating: bins from FirstBin on *)
GatedBins ==
  LET size == Sums[NBins - 1]
      from == FirstBin(bRelGate(Power \div size))
      in == SelectSeq([k \in 1..NBins |-> k], LAMBDA k : k > from)
  IN  [count |-> FoldLeft(LAMBDA acc, k : acc + h[k], 0, in), energy |-> FoldLeft(LAMBDA acc, k : acc + h[k] * Centres[k], 0, in)]

(* Queue::loudness_range: sort, skip what is below the gate, index *)
QueueRange ==
  LET s == SortSeq(q, LAMBDA a, b : a < b)
      gate == bRangeGate(FoldLeft(LAMBDA acc, x : acc + x, 0, q) \div Len(q))
      skip == Cardinality({k \in 1..Len(s) : s[k] < gate})
      n == Len(s) - skip
  IN  IF q = <<>> \/ n = 0 THEN [kind |-> "none"]
      ELSE [kind |-> "ok", low |-> s[skip + (10 * (n - 1) + 50) \div 100 + 1], high |-> s[skip + (95 * (n - 1) + 50) \div 100 + 1]]

Init == h = [b \in 1..NBins |-> 0] /\ q = <<>>
Next == /\ Len(q) < MaxBlocks
        /\ \E e \in Energies :
             /\ IF q = <<>> THEN TRUE ELSE e >= q[Len(q)]       \* the order does not matter to either
             /\ h' = [h EXCEPT ![FindIndex(e) + 1] = @ + 1]
             /\ q' = Append(q, e)
Spec == Init /\ [][Next]_<<h, q>>

Mode(hist) == IF hist THEN ModeLRA + 4 + ModeHist ELSE ModeLRA + 4
Instance(hist, blocks) == [mode |-> Mode(hist), blk |-> blocks, stblk |-> blocks]
Same(a, r) == a.kind = r.kind /\ (a.kind = "ok" => a.low = r.low /\ a.high = r.high)
SearchOK == \A e \in Energies \cup {NaN} : FindIndex(e) + 1 = bBinOf(e)
HistogramRangeOK == q # <<>> => \A r \in RangeResults : Same(LoudnessRange(<<Instance(TRUE, h)>>).r, r)
QueueRangeOK == q # <<>> => Same(LoudnessRange(<<Instance(FALSE, q)>>).r, QueueRange)
GatedOK == q # <<>> =>
  LET g == GatingOf(<<Instance(TRUE, h)>>) IN
  g.kind = "ok" /\ g.count = GatedBins.count /\ g.energy = GatedBins.energy
(* the histogram is the queue at the resolution of the bins *)
QuantisedOK == h = [b \in 1..NBins |-> Cardinality({k \in 1..Len(q) : bBinOf(q[k]) = b})]

B5 == <<4, 8, 16, 32, 64, 128>>
C5 == <<5, 11, 22, 45, 90>>
E5 == {4, 7, 8, 12, 16, 31, 40, 64, 127, 200}
=============================================================================
