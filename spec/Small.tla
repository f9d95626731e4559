-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* Meter over small integers, for exhaustive checking (MC) and for the     *)
(* generation of call sequences (Gen).                                     *)
(***************************************************************************)
EXTENDS Meter, FiniteSetsExt, TLC

-----------------------------------------------------------------------------
(* The abstract numbers: NaN is -1; a filter with one frame of memory.     *)
NaN == -1
MCMax(S) == FoldSet(LAMBDA x, acc : IF acc < x THEN x ELSE acc, -2, S)
iAdd(a, b) == IF a = NaN \/ b = NaN THEN NaN ELSE a + b
iMul(n, a) == IF n = 0 THEN (IF a = NaN THEN NaN ELSE 0) ELSE IF a = NaN THEN NaN ELSE n * a
iDiv(a, n) == IF a = NaN THEN NaN ELSE a \div n
iLt(a, b) == a # NaN /\ b # NaN /\ a < b
iIsNaN(a) == a = NaN
iNear(a, b) == FALSE
iWeight(role, e) == IF role \in Surround THEN iMul(2, e) ELSE IF role = RDualMono THEN iMul(3, e) ELSE e
iRelGate(x) == x \div 2
iRangeGate(x) == x \div 4
iBinOf(e) == IF e = NaN \/ e < 4 THEN 1 ELSE IF e < 8 THEN 2 ELSE 3
iBinCentre(b) == <<3, 6, 12>>[b]
iUnsure(s, e) == FALSE
iSort(ws) == SortSeq(ws, LAMBDA a, b : a[2] < b[2])
iMsLt(a, b) == a < b
iMsFrames(rate, ms) == rate * ms
iHop(rate) == rate
iCapHops(ms) == ms
iMayAlloc(ch, rate, win) == ch * rate * win <= 40
iHistBlocks(ms) == ms
iHistStBlocks(ms) == ms \div 2
iOversampled(rate) == rate = 1
MCJoins(a, b) == a[1] = b[1] /\ a[4] = b[4] /\ a[5] = b[5]

(* value of channel c while level x plays *)
V(x, c) == IF x <= 0 THEN x ELSE x + c - 1

(* fed as a list of frames: [x, used, seed] *)
FedFrames(fed) ==
  FlattenSeq([k \in 1..Len(fed) |-> [i \in 1..fed[k][3] |->
     [x |-> fed[k][1], used |-> fed[k][4], seed |-> fed[k][5]]]])

(* y of every frame for channel c: its value plus the previous one the    *)
(* filter saw; 0 where the channel was not in use                          *)
FilterOut(fs, c) ==
  FoldLeft(LAMBDA acc, f : IF ~f.used[c] THEN [acc EXCEPT !.y = Append(@, 0)]
                           ELSE [y |-> Append(acc.y, iAdd(V(f.x, c), acc.prev)), prev |-> V(f.x, c)],
           [y |-> <<>>, prev |-> 0], fs).y

iFilteredEnergy(rate, fed, c, from, n) ==
  LET fs == FedFrames(fed)
      y == FilterOut(fs, c)
      added == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : i > from /\ ~fs[i].seed)
      ks == Newest(added, n)
  IN  FoldLeft(LAMBDA acc, i : iAdd(acc, y[i]), 0, ks)

Abs0(x) == IF x = NaN THEN 0 ELSE x
iSamplePeakOf(sig, c, from, len) == Abs0(V(sig, c))
iTruePeakOf(rate, fed, c, len) ==
  LET fs == FedFrames(fed)
      y(i) == IF i = 1 THEN V(fs[i].x, c) ELSE iAdd(V(fs[i].x, c), V(fs[i - 1].x, c))
  IN  MCMax({0} \cup {Abs0(y(i)) : i \in Len(fs) - len + 1 .. Len(fs)})

=============================================================================
