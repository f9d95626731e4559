------------------------------- MODULE Meter -------------------------------
(***************************************************************************)
(* One loudness analyser of the ebur128 crate: its state, one operator per *)
(* public call, and one per query.  A call operator maps a state to a      *)
(* record [ret, st]: the set of return codes the call may give and the     *)
(* state after it.  The structure follows the implementation: a call       *)
(* that adds frames is cut at block boundaries exactly like add_frames(),  *)
(* every completed 100 ms step stores a gating block and possibly a        *)
(* short-term block, and peaks are folded in at the end of the call.       *)
(*                                                                         *)
(* Numbers (energies, sample values) and milliseconds are abstract; the    *)
(* CONSTANT operators below are bound to small integers by the exhaustive  *)
(* models (MC*.tla) and to IEEE doubles by the trace checker (Trace.tla),  *)
(* so both use the very same definitions of the calls and queries.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS
  (* the block structure, in hops of 100 ms *)
  MB,                   \* hops per gating block                        (4)
  SB,                   \* hops per short-term block                   (30)
  SSTEP,                \* hops from one short-term block to the next  (10)
  Hop(_),               \* rate -> frames per hop
  MsFrames(_, _),       \* rate, ms -> frames in that time (rounded down)
  MaxChannels, MinRate, MaxRate,
  (* milliseconds *)
  MsLt(_, _), MinWinM, MinWinS, MinHistM, MinHistS, NoHistLimit,
  CapHops(_),           \* ms -> whole hops a window of that length must hold at least
  HistBlocks(_), HistStBlocks(_),   \* ms of history -> number of (short-term) blocks
  MayAlloc(_, _, _),    \* channels, rate, window: can the audio buffer be allocated
  (* numbers *)
  NZero, NAdd(_, _), NMulInt(_, _), NDivInt(_, _), NLt(_, _), NIsNaN(_), NNear(_, _),
  NWeight(_, _),        \* role, energy -> weighted energy
  AbsGate, RelGate(_), RangeGate(_),
  SortByEnergy(_),      \* <<count, energy>> pairs in increasing order of energy
  NBins, BinOf(_), BinCentre(_),
  Unsure(_, _),         \* state, energy: so close to a gate or bin edge that rounding decides
  (* the signal: the audio itself and its measurement *)
  SigEnergy(_, _, _, _, _), \* rate, fed, channel, from, n
  SigPeak(_, _, _, _),      \* signal, channel, from, len
  Oversampled(_),                \* rate -> is there an interpolator
  SigTruePeak(_, _, _, _)         \* rate, fed, channel, len

-----------------------------------------------------------------------------
(* Return codes: those of the C API. Rust errors map to 1, 2, 3. *)
OK == 0   NoMem == 1   InvalidMode == 2   InvalidIndex == 3   NoChange == 4

(* Mode bits *)
ModeM == 1  ModeS == 3  ModeI == 5  ModeLRA == 11  ModeSP == 17  ModeTP == 49  ModeHist == 64
Bit(m, k) == (m \div (2^k)) % 2
Has(m, f) == \A k \in 0..6 : Bit(f, k) = 1 => Bit(m, k) = 1

(* Channel roles *)
Unused == 0  RLeft == 1  RRight == 2  RCenter == 3  RLs == 4  RRs == 5  RDualMono == 6
Mp060 == 9  Mm060 == 10  Mp090 == 11  Mm090 == 12
Surround == {RLs, RRs, Mp060, Mm060, Mp090, Mm090}
MaxRole == 31

DefaultMap(ch) ==
  CASE ch = 4 -> <<RLeft, RRight, RLs, RRs>>
    [] ch = 5 -> <<RLeft, RRight, RCenter, RLs, RRs>>
    [] OTHER  -> LET six == <<RLeft, RRight, RCenter, Unused, RLs, RRs>>
                 IN  [c \in 1..ch |-> IF c <= 6 THEN six[c] ELSE Unused]

RoleAllowed(ch, role) == role = RDualMono => ch = 1
UsedOf(map) == [c \in 1..Len(map) |-> map[c] # Unused]

MsMax(a, b) == IF MsLt(a, b) THEN b ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
NMax(a, b) == IF NLt(a, b) THEN b ELSE a      \* NaN in b never wins
Zeros(ch) == [c \in 1..ch |-> NZero]

(* frames in the audio buffer: at least the window, in whole hops *)
Capacity(rate, win) ==
  LET s == Hop(rate)
      f == Max2(MsFrames(rate, win), s * CapHops(win))
  IN  ((f + s - 1) \div s) * s

EmptyHistory(mode) == IF Has(mode, ModeHist) THEN [b \in 1..NBins |-> 0] ELSE <<>>

(***************************************************************************)
(* State of an instance                                                    *)
(*   mode, ch, rate, map, win, hist : settings                             *)
(*   fed    : everything the filters and the interpolator have seen since  *)
(*            they were last cleared, as runs <<signal, from, len, used,   *)
(*            seed>>: frames from..from+len-1 of that signal, with the     *)
(*            channels in use at that time, added (FALSE) or seeded (TRUE) *)
(*   ftot   : total frames in fed                                          *)
(*   wstart : value of ftot when the audio window was last emptied         *)
(*   needed : frames missing for the next gating block                     *)
(*   stc    : frames counted towards the next short-term block             *)
(*   blk, stblk : gating and short-term block energies above -70 LUFS      *)
(*            (a sequence; in histogram mode the number of blocks per bin) *)
(*   sp, tp : peaks per channel; psp, ptp: those of the last add call      *)
(*   doubtI, doubtR : -1, or, if an energy was too close to a gate or bin  *)
(*            boundary for rounding not to matter, the number of blocks    *)
(*            surely stored since (always -1 in the exhaustive models)     *)
(***************************************************************************)
Fresh(ch, rate, mode, map, win, hist) ==
  [ mode |-> mode, ch |-> ch, rate |-> rate, map |-> map, win |-> win, hist |-> hist,
    fed |-> <<>>, ftot |-> 0, wstart |-> 0,
    needed |-> MB * Hop(rate), stc |-> 0,
    blk |-> EmptyHistory(mode), stblk |-> EmptyHistory(mode),
    sp |-> Zeros(ch), tp |-> Zeros(ch), psp |-> Zeros(ch), ptp |-> Zeros(ch),
    doubtI |-> -1, doubtR |-> -1 ]

MinWin(mode) == IF Has(mode, ModeS) THEN MinWinS ELSE MinWinM
MinHist(mode) == IF Has(mode, ModeS) THEN MinHistS ELSE MinHistM

Dead == [mode |-> 0]      \* no instance
Res(codes, st) == [ret |-> codes, st |-> st]

ConfigErrors(ch, rate) == IF ch \in 1..MaxChannels /\ rate \in MinRate..MaxRate THEN {} ELSE {NoMem}

-----------------------------------------------------------------------------
(* Calls *)

New(ch, rate, mode) ==
  LET errs == ConfigErrors(ch, rate) \cup (IF Has(mode, ModeM) THEN {} ELSE {InvalidMode})
  IN  IF errs # {} THEN Res(errs, Dead)
      ELSE Res({OK}, Fresh(ch, rate, mode, DefaultMap(ch), MinWin(mode), NoHistLimit))

SetChannel(st, c, role) ==      \* c counts from 0, as in the API
  IF c \in 0..st.ch - 1 /\ RoleAllowed(st.ch, role)
  THEN Res({OK}, [st EXCEPT !.map[c + 1] = role])
  ELSE Res({InvalidIndex}, st)

SetMap(st, map) ==
  IF Len(map) = st.ch /\ \A c \in 1..Len(map) : RoleAllowed(st.ch, map[c])
  THEN Res({OK}, [st EXCEPT !.map = map])
  ELSE Res({InvalidIndex}, st)

Change(st, ch, rate) ==
  IF ConfigErrors(ch, rate) # {} THEN Res({NoMem}, st)
  ELSE IF ch = st.ch /\ rate = st.rate THEN Res({NoChange}, st)
  ELSE IF ~MayAlloc(ch, rate, st.win) THEN Res({NoMem}, st)
  ELSE LET n == Fresh(ch, rate, st.mode, st.map, st.win, st.hist)
           k == [n EXCEPT !.blk = st.blk, !.stblk = st.stblk,
                          !.doubtI = st.doubtI, !.doubtR = st.doubtR]
       IN  Res({OK}, IF ch = st.ch THEN [k EXCEPT !.sp = st.sp, !.tp = st.tp]
                                   ELSE [k EXCEPT !.map = DefaultMap(ch)])

SetWindow(st, ms) ==
  LET w == MsMax(ms, MinWin(st.mode))
  IN  IF w = st.win THEN Res({NoChange}, st)
      ELSE IF ~MayAlloc(st.ch, st.rate, w) THEN Res({NoMem}, st)
      ELSE Res({OK}, [st EXCEPT !.win = w, !.wstart = st.ftot,
                                !.needed = MB * Hop(st.rate), !.stc = 0])

(* the newest n elements *)
Newest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

(* A doubtful block matters until as many blocks as the history holds have *)
(* surely been stored after it; the histogram never forgets.               *)
Forgotten(mode, limit, d) == IF d >= limit /\ ~Has(mode, ModeHist) THEN -1 ELSE d

SetHistory(st, ms) ==
  LET h == MsMax(ms, MinHist(st.mode))
  IN  IF h = st.hist THEN Res({NoChange}, st)
      ELSE IF Has(st.mode, ModeHist) THEN Res({OK}, [st EXCEPT !.hist = h])
      ELSE Res({OK}, [st EXCEPT !.hist = h, !.blk = Newest(@, HistBlocks(h)),
                                            !.stblk = Newest(@, HistStBlocks(h)),
                                            !.doubtI = Forgotten(st.mode, HistBlocks(h), @),
                                            !.doubtR = Forgotten(st.mode, HistStBlocks(h), @)])

Reset(st) == Res({OK}, Fresh(st.ch, st.rate, st.mode, st.map, st.win, st.hist))

(* -- adding audio -- *)

Joins(a, b) == a[1] = b[1] /\ a[2] + a[3] = b[2] /\ a[4] = b[4] /\ a[5] = b[5]
AppendRun(fed, r) ==
  IF fed # <<>> /\ Joins(fed[Len(fed)], r)
  THEN [fed EXCEPT ![Len(fed)] = <<@[1], @[2], @[3] + r[3], @[4], @[5]>>]
  ELSE Append(fed, r)

(* Mean weighted energy of the newest n added frames, silence before the  *)
(* window was last emptied.                                               *)
Energy(st, n) ==
  NDivInt(FoldLeft(LAMBDA acc, c :
            IF st.map[c] = Unused THEN acc
            ELSE NAdd(acc, NWeight(st.map[c], SigEnergy(st.rate, st.fed, c, st.wstart, n))),
          NZero, [c \in 1..st.ch |-> c]), n)

Store(mode, limit, blocks, e) ==
  IF NLt(e, AbsGate) THEN blocks
  ELSE IF Has(mode, ModeHist) THEN [blocks EXCEPT ![BinOf(e)] = @ + 1]
  ELSE Newest(Append(blocks, e), limit)

Doubt(st, limit, d, e) ==
  IF Unsure(st, e) THEN 0
  ELSE IF d < 0 \/ NLt(e, AbsGate) THEN d
  ELSE Forgotten(st.mode, limit, d + 1)

(* a 100 ms step is complete *)
CompleteHop(st) ==
  LET s == Hop(st.rate)
      a == IF ~Has(st.mode, ModeI) THEN st
           ELSE LET e == Energy(st, MB * s)
                IN  [st EXCEPT !.blk = Store(st.mode, HistBlocks(st.hist), @, e),
                               !.doubtI = Doubt(st, HistBlocks(st.hist), @, e)]
      b == IF ~(Has(a.mode, ModeLRA) /\ a.stc = SB * s) THEN a
           ELSE LET e == Energy(a, SB * s)
                IN  [a EXCEPT !.stblk = Store(a.mode, HistStBlocks(a.hist), @, e),
                              !.doubtR = Doubt(a, HistStBlocks(a.hist), @, e),
                              !.stc = (SB - SSTEP) * s]
  IN  [b EXCEPT !.needed = s]

(* n <= needed frames *)
FeedPart(st, sig, from, n) ==
  LET f == [st EXCEPT !.fed = AppendRun(@, <<sig, from, n, UsedOf(st.map), FALSE>>),
                      !.ftot = @ + n, !.needed = @ - n,
                      !.stc = IF Has(st.mode, ModeLRA) THEN @ + n ELSE @]
  IN  IF f.needed = 0 THEN CompleteHop(f) ELSE f

FoldPeaks(st, sig, from, len) ==
  LET p == IF Has(st.mode, ModeSP)
           THEN [c \in 1..st.ch |-> SigPeak(sig, c, from, len)] ELSE Zeros(st.ch)
      t == IF Has(st.mode, ModeTP) /\ Oversampled(st.rate)
           THEN [c \in 1..st.ch |-> SigTruePeak(st.rate, st.fed, c, len)] ELSE Zeros(st.ch)
  IN  [st EXCEPT !.psp = p, !.ptp = t,
                 !.sp = [c \in 1..st.ch |-> NMax(@[c], p[c])],
                 !.tp = [c \in 1..st.ch |-> NMax(@[c], t[c])]]

(* how many frames each part of a call takes: up to the block boundary,   *)
(* then whole hops, then the rest                                         *)
NumParts(needed, s, len) ==
  IF len <= needed THEN 1 ELSE 1 + ((len - needed) + s - 1) \div s

Add(st, sig, from, len) ==
  IF len = 0 THEN Res({OK}, st)
  ELSE LET parts == [k \in 1..NumParts(st.needed, Hop(st.rate), len) |-> k]
           step(acc, k) ==
             LET n == IF len - acc.off < acc.st.needed THEN len - acc.off ELSE acc.st.needed
             IN  [st |-> FeedPart(acc.st, sig, from + acc.off, n), off |-> acc.off + n]
       IN  Res({OK}, FoldPeaks(FoldLeft(step, [st |-> st, off |-> 0], parts).st, sig, from, len))

(* seeding feeds the filters and the interpolator, nothing else *)
Seed(st, sig, from, len) ==
  IF len = 0 THEN Res({OK}, st)
  ELSE Res({OK}, [st EXCEPT !.fed = AppendRun(@, <<sig, from, len, UsedOf(st.map), TRUE>>),
                            !.ftot = @ + len])

(* Buffers whose shape does not fit are refused.  A planar buffer is given *)
(* as the sequence of its channels' lengths, an interleaved one by its     *)
(* number of samples.                                                      *)
PlanarFits(st, lens) == Len(lens) = st.ch /\ \A k \in 1..Len(lens) : lens[k] = lens[1]
InterleavedFits(st, samples) == samples % st.ch = 0

-----------------------------------------------------------------------------
(* Queries *)

(* energy over the last n frames, or an error if the window is too short *)
WindowQuery(st, n) ==
  IF n > Capacity(st.rate, st.win) THEN [code |-> InvalidMode, val |-> NZero]
  ELSE [code |-> OK, val |-> Energy(st, n)]
Momentary(st) == WindowQuery(st, MB * Hop(st.rate))
ShortTerm(st) == WindowQuery(st, SB * Hop(st.rate))
Window(st, ms) == WindowQuery(st, MsFrames(st.rate, ms))

(* The blocks of an instance as <<count, energy>> pairs *)
Weighted(mode, blocks) ==
  IF Has(mode, ModeHist)
  THEN LET bs == SelectSeq([b \in 1..NBins |-> b], LAMBDA b : blocks[b] > 0)
       IN  [k \in 1..Len(bs) |-> <<blocks[bs[k]], BinCentre(bs[k])>>]
  ELSE [k \in 1..Len(blocks) |-> <<1, blocks[k]>>]

WCount(ws) == FoldLeft(LAMBDA acc, w : acc + w[1], 0, ws)
WSum(ws) == FoldLeft(LAMBDA acc, w : NAdd(acc, NMulInt(w[1], w[2])), NZero, ws)

(* two-stage gating: relative threshold, number and energy of the gated blocks *)
Gating(ws) ==
  LET n == WCount(ws)
      sum == WSum(ws)
  IN  IF n = 0 THEN [kind |-> "none"]
      ELSE IF NIsNaN(sum) THEN [kind |-> "nan"]
      ELSE LET thr == RelGate(NDivInt(sum, n))
               sel == SelectSeq(ws, LAMBDA w : ~NLt(w[2], thr))
           IN  [kind |-> "ok", thr |-> thr, count |-> WCount(sel), energy |-> WSum(sel),
                vague |-> \E k \in 1..Len(ws) : NNear(ws[k][2], thr)]

(* all blocks of several instances together *)
Together(sts, blocksOf(_)) ==
  FlattenSeq([k \in 1..Len(sts) |-> Weighted(sts[k].mode, blocksOf(sts[k]))])

GatingOf(sts) == Gating(Together(sts, LAMBDA st : st.blk))
IntegratedLoudness(sts) ==
  IF \E k \in 1..Len(sts) : ~Has(sts[k].mode, ModeI) THEN [code |-> InvalidMode]
  ELSE [code |-> OK, g |-> GatingOf(sts)]

(* loudness range: percentiles of the gated short-term blocks; the element  *)
(* with index i (from 0) of the sorted blocks, each pair repeated count times *)
AtIndex(ws, i) ==
  FoldLeft(LAMBDA acc, w : IF acc.left < 0 THEN acc ELSE [left |-> acc.left - w[1], val |-> w[2]],
           [left |-> i, val |-> NZero], ws).val

RangeOf(ws) ==
  LET n == WCount(ws)
      sum == WSum(ws)
  IN  IF n = 0 THEN [kind |-> "none"]
      ELSE IF NIsNaN(sum) THEN [kind |-> "nan"]
      ELSE LET gate == RangeGate(NDivInt(sum, n))
               sel == SortByEnergy(SelectSeq(ws, LAMBDA w : ~NLt(w[2], gate)))
               m == WCount(sel)
           IN  IF m = 0 THEN [kind |-> "none"]
               ELSE [kind |-> "ok",
                     low |-> AtIndex(sel, (10 * (m - 1) + 50) \div 100),
                     high |-> AtIndex(sel, (95 * (m - 1) + 50) \div 100),
                     vague |-> \E k \in 1..Len(ws) : NNear(ws[k][2], gate)]

LoudnessRange(sts) ==
  LET mixed == \E j, k \in 1..Len(sts) : Has(sts[j].mode, ModeHist) # Has(sts[k].mode, ModeHist)
  IN  IF mixed \/ \E k \in 1..Len(sts) : ~Has(sts[k].mode, ModeLRA) THEN [code |-> InvalidMode]
      ELSE [code |-> OK, r |-> RangeOf(Together(sts, LAMBDA st : st.stblk))]

(* peaks: c counts from 0 *)
PeakErrors(st, mode, c) ==
  (IF Has(st.mode, mode) THEN {} ELSE {InvalidMode}) \cup
  (IF c \in 0..st.ch - 1 THEN {} ELSE {InvalidIndex})
SamplePeak(st, c) == st.sp[c + 1]
PrevSamplePeak(st, c) == st.psp[c + 1]
TruePeak(st, c) == NMax(st.tp[c + 1], st.sp[c + 1])
PrevTruePeak(st, c) == NMax(st.ptp[c + 1], st.psp[c + 1])
=============================================================================
