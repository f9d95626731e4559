--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive model: Meter over small integers against a declarative       *)
(* account of what the calls so far mean.                                  *)
(*                                                                         *)
(* The ghost variable g only records what was fed - every frame with the   *)
(* settings in force when it was fed - and the Decl* operators state, from *)
(* that record alone and without any counters, which blocks exist, what    *)
(* they measure, which of them are still remembered, what every window     *)
(* contains and what the peaks are.  The invariants say that the           *)
(* implementation-shaped Meter always agrees, and the Law* invariants      *)
(* check the relations between calls (splitting, resetting, seeding,       *)
(* refusing, combining instances) in every reachable state.                *)
(***************************************************************************)
EXTENDS Small

CONSTANTS Calls,        \* the calls that may be made
          MaxCalls, MaxFrames, StartCh, StartRate, StartMode

VARIABLES st, g, calls
vars == <<st, g, calls>>

-----------------------------------------------------------------------------
(* The ghost record *)
NoCall == [from |-> 1, to |-> 0]
GInit == [ frames |-> <<>>, fe |-> 0, we |-> 0, ch |-> StartCh, rate |-> StartRate,
           map |-> DefaultMap(StartCh), win |-> MinWin(StartMode), hist |-> NoHistLimit,
           mem |-> [c \in 1..StartCh |-> 0], \* per channel: last value while in use since the filters were cleared
           since |-> 0,          \* frames up to here belong to before the last reset
           psince |-> 0,         \* frames up to here no longer count for the overall peaks
           last |-> NoCall,      \* frames of the last non-empty add call
           limits |-> <<>> ]     \* earlier history limits, <<limit, frames when it ended>>

GFrames(gg, x, n, seed) ==
  [i \in 1..n |-> [x |-> x, map |-> gg.map, rate |-> gg.rate, seed |-> seed, fe |-> gg.fe, we |-> gg.we,
                   y |-> [c \in 1..gg.ch |-> IF gg.map[c] = Unused THEN 0
                            ELSE iAdd(V(x, c), IF i = 1 THEN gg.mem[c] ELSE V(x, c))]]]
GMem(gg, x) == [c \in 1..gg.ch |-> IF gg.map[c] = Unused THEN gg.mem[c] ELSE V(x, c)]
GStep(gg, call) ==
  LET n == Len(gg.frames) IN
  CASE call.op = "add" /\ call.n > 0 ->
         [gg EXCEPT !.frames = @ \o GFrames(gg, call.x, call.n, FALSE),
                    !.mem = GMem(gg, call.x),
                    !.last = [from |-> n + 1, to |-> n + call.n]]
    [] call.op = "seed" -> [gg EXCEPT !.frames = @ \o GFrames(gg, call.x, call.n, TRUE),
                                !.mem = GMem(gg, call.x)]
    [] call.op = "reset" -> [gg EXCEPT !.fe = @ + 1, !.we = @ + 1, !.since = n, !.psince = n, !.mem = [c \in 1..gg.ch |-> 0],
                                       !.last = NoCall, !.limits = <<>>]
    [] call.op = "change" /\ ConfigErrors(call.ch, call.rate) = {}
       /\ <<call.ch, call.rate>> # <<gg.ch, gg.rate>> /\ iMayAlloc(call.ch, call.rate, gg.win) ->
         [gg EXCEPT !.fe = @ + 1, !.we = @ + 1, !.rate = call.rate, !.ch = call.ch, !.last = NoCall,
                    !.mem = [c \in 1..call.ch |-> 0],
                    !.map = IF call.ch = gg.ch THEN @ ELSE DefaultMap(call.ch),
                    !.psince = IF call.ch = gg.ch THEN @ ELSE n]
    [] call.op = "win" /\ iMayAlloc(gg.ch, gg.rate, MCMax({call.ms, MinWin(StartMode)}))
       /\ MCMax({call.ms, MinWin(StartMode)}) # gg.win ->
         [gg EXCEPT !.we = @ + 1, !.win = MCMax({call.ms, MinWin(StartMode)})]
    [] call.op = "hist" -> [gg EXCEPT !.hist = MCMax({call.ms, MinHist(StartMode)}),
                                      !.limits = Append(@, <<gg.hist, n>>)]
    [] call.op = "role" /\ call.c < gg.ch /\ (call.role = RDualMono => gg.ch = 1) ->
         [gg EXCEPT !.map[call.c + 1] = call.role]
    [] OTHER -> gg

-----------------------------------------------------------------------------
(* Declarative meaning *)
F == g.frames
AddedIn(e, upto) == {i \in 1..upto : F[i].we = e /\ ~F[i].seed}
Ordinal(i) == Cardinality(AddedIn(F[i].we, i))
Y(i, c) == F[i].y[c]
(* mean weighted energy of the last n frames added up to frame i in epoch e *)
SumOver(S, f(_)) == FoldSet(LAMBDA i, acc : iAdd(acc, f(i)), 0, S)
DeclEnergy(e, i, n, map) ==
  LET in == ToSet(Newest(SelectSeq([k \in 1..i |-> k], LAMBDA k : F[k].we = e /\ ~F[k].seed), n))
  IN  iDiv(SumOver({c \in 1..Len(map) : map[c] # Unused},
                   LAMBDA c : iWeight(map[c], SumOver(in, LAMBDA k : Y(k, c)))), n)

(* a block of `length` hops ends with frame i, the first one after `length` hops, then every `step` *)
EndsBlock(i, length, step) ==
  LET s == F[i].rate
      o == Ordinal(i)
  IN  ~F[i].seed /\ i > g.since /\ o >= length * s /\ (o - length * s) % (step * s) = 0
Ends(length, step) ==
  SelectSeq([i \in 1..Len(F) |-> i],
     LAMBDA i : EndsBlock(i, length, step)
                /\ ~iLt(DeclEnergy(F[i].we, i, length * F[i].rate, F[i].map), AbsGate))
(* remembered: at no time since its end more newer blocks than the limit of that time allows *)
Periods == Append(g.limits, <<g.hist, Len(F)>>)
Remembered(ends, blocksOf(_)) ==
  SelectSeq(ends, LAMBDA i : \A p \in 1..Len(Periods) :
     i <= Periods[p][2] =>
       Cardinality({k \in 1..Len(ends) : ends[k] >= i /\ ends[k] <= Periods[p][2]}) <= blocksOf(Periods[p][1]))
DeclBlocks(length, step, blocksOf(_)) ==
  LET ends == Ends(length, step)
      kept == IF Has(StartMode, ModeHist) THEN ends ELSE Remembered(ends, blocksOf)
  IN  [k \in 1..Len(kept) |-> DeclEnergy(F[kept[k]].we, kept[k], length * F[kept[k]].rate, F[kept[k]].map)]
InBins(es) == [b \in 1..NBins |-> Cardinality({k \in 1..Len(es) : iBinOf(es[k]) = b})]
AsStored(es) == IF Has(StartMode, ModeHist) THEN InBins(es) ELSE es

DeclPeak(from, to, c) == MCMax({0} \cup {Abs0(V(F[i].x, c)) : i \in {j \in from..to : ~F[j].seed}})
TPY(i, c) == LET js == {j \in 1..i - 1 : F[j].fe = F[i].fe}
             IN  Abs0(iAdd(V(F[i].x, c), IF js = {} THEN 0 ELSE V(F[MCMax(js)].x, c)))
DeclTP(from, to, c) ==
  MCMax({0} \cup {TPY(i, c) : i \in {j \in from..to : ~F[j].seed /\ iOversampled(F[j].rate)}})

-----------------------------------------------------------------------------
(* Behaviours *)
Do(s, call) ==
  CASE call.op = "add"    -> Add(s, call.x, 0, call.n)
    [] call.op = "seed"   -> Seed(s, call.x, 0, call.n)
    [] call.op = "reset"  -> Reset(s)
    [] call.op = "change" -> Change(s, call.ch, call.rate)
    [] call.op = "win"    -> SetWindow(s, call.ms)
    [] call.op = "hist"   -> SetHistory(s, call.ms)
    [] call.op = "role"   -> SetChannel(s, call.c, call.role)

Init == /\ st = New(StartCh, StartRate, StartMode).st
        /\ g = GInit
        /\ calls = 0
Next == /\ calls < MaxCalls
        /\ \E call \in Calls :
             /\ call.op \in {"add", "seed"} => Len(g.frames) + call.n <= MaxFrames
             /\ st' = Do(st, call).st
             /\ g' = GStep(g, call)
             /\ calls' = calls + 1
Spec == Init /\ [][Next]_vars
View == <<st, g>>      \* the number of calls made does not matter

-----------------------------------------------------------------------------
(* Invariants *)
BlocksOK   == Has(StartMode, ModeI) => st.blk = AsStored(DeclBlocks(MB, 1, iHistBlocks))
StBlocksOK == Has(StartMode, ModeLRA) => st.stblk = AsStored(DeclBlocks(SB, SSTEP, iHistStBlocks))
WindowsOK  == \A n \in 1..Capacity(st.rate, st.win) :
                Energy(st, n) = DeclEnergy(g.we, Len(F), n, g.map)
FitsOK     == /\ Capacity(st.rate, st.win) >= MB * Hop(st.rate)
              /\ Has(st.mode, ModeS) => Capacity(st.rate, st.win) >= SB * Hop(st.rate)
              /\ Momentary(st).code = OK
              /\ Has(st.mode, ModeS) => ShortTerm(st).code = OK
PeaksOK    ==
  \A c \in 1..st.ch :
    /\ Has(st.mode, ModeSP) =>
         /\ SamplePeak(st, c - 1) = DeclPeak(g.psince + 1, Len(F), c)
         /\ PrevSamplePeak(st, c - 1) = DeclPeak(g.last.from, g.last.to, c)
    /\ Has(st.mode, ModeTP) =>
         /\ TruePeak(st, c - 1) = MCMax({DeclPeak(g.psince + 1, Len(F), c), DeclTP(g.psince + 1, Len(F), c)})
         /\ PrevTruePeak(st, c - 1) = MCMax({DeclPeak(g.last.from, g.last.to, c), DeclTP(g.last.from, g.last.to, c)})
         /\ TruePeak(st, c - 1) >= SamplePeak(st, c - 1)
SettingsOK == /\ st.ch = g.ch /\ st.rate = g.rate /\ st.map = g.map /\ st.win = g.win
              /\ st.hist = g.hist /\ Len(st.map) = st.ch
CountersOK == /\ st.needed \in 1..MB * Hop(st.rate)
              /\ st.stc \in 0..SB * Hop(st.rate) - 1
              /\ st.ftot = Cardinality({i \in 1..Len(F) : F[i].fe = g.fe})
BoundedOK  == ~Has(st.mode, ModeHist) =>
                Len(st.blk) <= HistBlocks(st.hist) /\ Len(st.stblk) <= HistStBlocks(st.hist)
RangeOK    == Has(st.mode, ModeLRA) =>
                LET r == LoudnessRange(<<st>>).r IN r.kind = "ok" => r.low <= r.high

(* the two gates, stated over the multiset of remembered blocks *)
BlockList(blocks) ==
  IF Has(st.mode, ModeHist)
  THEN FlattenSeq([b \in 1..NBins |-> [k \in 1..blocks[b] |-> iBinCentre(b)]]) ELSE blocks
SumSeq(s) == FoldLeft(LAMBDA acc, x : iAdd(acc, x), 0, s)
GatingOK ==       \* C05, C07
  Has(st.mode, ModeI) =>
    LET es == BlockList(st.blk)
        gt == IntegratedLoudness(<<st>>).g
        thr == iRelGate(iDiv(SumSeq(es), Len(es)))
        in == SelectSeq(es, LAMBDA e : e >= thr)
    IN  CASE es = <<>> -> gt.kind = "none"
          [] es # <<>> /\ SumSeq(es) = NaN -> gt.kind = "nan"
          [] OTHER -> gt.kind = "ok" /\ gt.thr = thr /\ gt.count = Len(in) /\ gt.energy = SumSeq(in) /\ gt.count > 0
NearestRank(es, v, num) ==      \* v is the element of index round((n-1) num / 100) of the sorted es
  LET i == (num * (Len(es) - 1) + 50) \div 100
  IN  /\ Cardinality({k \in 1..Len(es) : es[k] < v}) <= i
      /\ Cardinality({k \in 1..Len(es) : es[k] <= v}) > i
PercentileOK ==   \* C06, C07
  Has(st.mode, ModeLRA) =>
    LET es == BlockList(st.stblk)
        r == LoudnessRange(<<st>>).r
        gate == iRangeGate(iDiv(SumSeq(es), Len(es)))
        in == SelectSeq(es, LAMBDA e : e >= gate)
    IN  CASE es = <<>> -> r.kind = "none"
          [] es # <<>> /\ SumSeq(es) = NaN -> r.kind = "nan"
          [] OTHER -> r.kind = "ok" /\ NearestRank(in, r.low, 10) /\ NearestRank(in, r.high, 95) /\ r.low <= r.high

(* what all queries can see, without the peaks of the last call *)
Visible(s) ==
  [ w |-> [n \in 1..Capacity(s.rate, s.win) |-> Energy(s, n)], blk |-> s.blk, stblk |-> s.stblk,
    sp |-> s.sp, tp |-> s.tp, map |-> s.map, win |-> s.win, hist |-> s.hist, ch |-> s.ch, rate |-> s.rate ]
Fed(s) == FedFrames(s.fed)

Levels == {c.x : c \in {d \in Calls : d.op = "add"}}
TopLevel == MCMax(Levels)
LawSplit ==       \* C01
  \A x \in {TopLevel} : \A n \in {2, Hop(st.rate) + 1, MB * Hop(st.rate) + 1} :
    LET whole == Add(st, x, 0, n).st IN
    \A k \in 0..n :
      LET cut == Add(Add(st, x, 0, k).st, x, k, n - k).st
      IN  /\ [cut EXCEPT !.psp = <<>>, !.ptp = <<>>] = [whole EXCEPT !.psp = <<>>, !.ptp = <<>>]
          /\ \A c \in 1..st.ch : ~(cut.psp[c] > whole.psp[c])
LawEmpty ==       \* C01
  \A x \in Levels : Add(st, x, 0, 0).st = st /\ Seed(st, x, 0, 0).st = st
LawReset ==       \* C10: the settings of st, applied to a new instance, give exactly the reset state
  LET new == New(st.ch, st.rate, st.mode).st
      mapped == SetMap(new, st.map).st
      windowed == SetWindow(mapped, st.win).st
      limited == IF st.hist = NoHistLimit THEN windowed ELSE SetHistory(windowed, st.hist).st
  IN  Reset(st).st = limited
LawChange ==      \* C11: the analysis is that of a new instance, the programme is kept
  \A ch \in 1..MaxChannels : \A rate \in MinRate..MaxRate :
    LET r == Change(st, ch, rate)
        s == r.st
        new == New(ch, rate, st.mode).st
    IN  r.ret = {OK} =>
          /\ [s EXCEPT !.blk = new.blk, !.stblk = new.stblk, !.win = new.win, !.hist = new.hist, !.map = new.map, !.sp = new.sp, !.tp = new.tp] = new
          /\ s.blk = st.blk /\ s.stblk = st.stblk /\ s.win = st.win /\ s.hist = st.hist
          /\ IF ch = st.ch THEN s.map = st.map /\ s.sp = st.sp /\ s.tp = st.tp
             ELSE s.map = DefaultMap(ch) /\ s.sp = Zeros(ch) /\ s.tp = Zeros(ch)
LawWindow ==      \* C12: what a new window keeps, and that it is measurable
  \A ms \in 1..9 :
    LET r == SetWindow(st, ms)
        s == r.st
    IN  /\ r.ret = {OK} =>
             /\ [s EXCEPT !.win = st.win, !.wstart = st.wstart, !.needed = st.needed, !.stc = st.stc] = st
             /\ \A n \in 1..Capacity(s.rate, s.win) : Energy(s, n) = NZero
        /\ r.ret \cap {OK, NoChange} # {} => WindowQuery(s, MsFrames(s.rate, ms)).code = OK
        /\ r.ret \cap {OK, NoChange} = {} => s = st
LawHistory ==     \* C13: lowering drops the oldest blocks, raising adds nothing
  \A ms \in 1..8 :
    LET s == SetHistory(st, ms).st
    IN  /\ ~Has(st.mode, ModeHist) =>
             /\ s.blk = Newest(st.blk, HistBlocks(s.hist)) /\ s.stblk = Newest(st.stblk, HistStBlocks(s.hist))
        /\ Has(st.mode, ModeHist) => s.blk = st.blk /\ s.stblk = st.stblk
        /\ [s EXCEPT !.hist = st.hist, !.blk = st.blk, !.stblk = st.stblk] = st
LawContained ==   \* C20: NaN never becomes a peak and never lowers one; unused channels contain it
  \A c \in 1..st.ch :
    LET off == SetChannel(st, c - 1, Unused).st
        s == Add(off, NaN, 0, 1).st
    IN  /\ \A d \in 1..st.ch : s.sp[d] = st.sp[d] /\ s.psp[d] = NZero /\ ~NLt(s.tp[d], st.tp[d])
        /\ st.ch = 1 => Energy(s, 1) = NZero
LawSeed ==        \* C15
  \A x \in Levels : \A n \in 1..2 :
    LET s == Seed(st, x, 0, n).st
    IN  /\ Visible(s) = Visible(st) /\ s.psp = st.psp /\ s.ptp = st.ptp
        /\ s.needed = st.needed /\ s.stc = st.stc
        /\ Fed(Add(s, x, 0, 1).st) = Append(Fed(st) \o [i \in 1..n |-> [x |-> x, used |-> UsedOf(st.map), seed |-> TRUE]],
                                            [x |-> x, used |-> UsedOf(st.map), seed |-> FALSE])
LawSame ==        \* C11, C12, C13: asking for the present value changes nothing
  /\ Change(st, st.ch, st.rate) = Res({NoChange}, st)
  /\ SetWindow(st, st.win) = Res({NoChange}, st)
  /\ SetHistory(st, st.hist) = Res({NoChange}, st)
LawRefuse ==      \* C16: whatever is refused leaves the state as it is
  LET refused(r) == r.ret \cap {OK, NoChange} = {} /\ r.st = st IN
  /\ refused(Change(st, 0, st.rate)) /\ refused(Change(st, MaxChannels + 1, st.rate))
  /\ refused(Change(st, st.ch, MinRate - 1)) /\ refused(Change(st, st.ch, MaxRate + 1))
  /\ refused(SetChannel(st, st.ch, RLeft)) /\ refused(SetMap(st, Append(st.map, RLeft)))
  /\ st.ch > 1 => refused(SetChannel(st, 0, RDualMono))
  /\ refused(SetWindow(st, 1000))
LawTogether ==    \* C14: cutting the blocks into two instances in any place, in any order
  ~Has(st.mode, ModeHist) =>
    /\ Has(st.mode, ModeI) => \A k \in 0..Len(st.blk) :
         LET a == [st EXCEPT !.blk = SubSeq(@, 1, k)]
             b == [st EXCEPT !.blk = SubSeq(@, k + 1, Len(@))]
         IN  IntegratedLoudness(<<a, b>>) = IntegratedLoudness(<<st>>) /\ IntegratedLoudness(<<b, a>>) = IntegratedLoudness(<<st>>)
    /\ Has(st.mode, ModeLRA) => \A k \in 0..Len(st.stblk) :
         LET a == [st EXCEPT !.stblk = SubSeq(@, 1, k)]
             b == [st EXCEPT !.stblk = SubSeq(@, k + 1, Len(@))]
         IN  LoudnessRange(<<a, b>>) = LoudnessRange(<<st>>) /\ LoudnessRange(<<b, a>>) = LoudnessRange(<<st>>)
LawTogetherBins == \* C07, C14: histograms add up, bin by bin
  Has(st.mode, ModeHist) =>
    \A b \in 1..NBins : st.blk[b] > 0 =>
      LET one == [EmptyHistory(st.mode) EXCEPT ![b] = 1]
          x == [st EXCEPT !.blk = one, !.stblk = IF st.stblk[b] > 0 THEN one ELSE EmptyHistory(st.mode)]
          y == [st EXCEPT !.blk[b] = @ - 1, !.stblk[b] = IF @ > 0 THEN @ - 1 ELSE 0]
          same(p, q) == \/ p.kind = q.kind /\ p.kind # "ok"
                        \/ p.kind = "ok" /\ q.kind = "ok" /\ p.thr = q.thr /\ p.count = q.count /\ p.energy = q.energy
          sameR(p, q) == p.kind = q.kind /\ (p.kind = "ok" => p.low = q.low /\ p.high = q.high)
      IN  /\ Has(st.mode, ModeI) => same(IntegratedLoudness(<<x, y>>).g, IntegratedLoudness(<<st>>).g)
                                   /\ same(IntegratedLoudness(<<y, x>>).g, IntegratedLoudness(<<st>>).g)
          /\ Has(st.mode, ModeLRA) => sameR(LoudnessRange(<<x, y>>).r, LoudnessRange(<<st>>).r)
LawRoles ==       \* C04: an unused channel never counts, whatever its audio; roles do not touch peaks
  \A c \in 1..st.ch :
    LET off == SetChannel(st, c - 1, Unused).st
        on == SetChannel(off, c - 1, RLeft).st
        x == TopLevel
        fed == Add(off, x, 0, 1).st
    IN  /\ off.sp = st.sp /\ off.tp = st.tp /\ on.sp = st.sp
        /\ Energy(SetChannel(fed, c - 1, RLeft).st, 1) = Energy(fed, 1)

-----------------------------------------------------------------------------
(* Alphabets of the registered models (MC_*.cfg) *)
A(x, n) == [op |-> "add", x |-> x, n |-> n]
S(x, n) == [op |-> "seed", x |-> x, n |-> n]
R == [op |-> "reset"]
C(ch, rate) == [op |-> "change", ch |-> ch, rate |-> rate]
W(ms) == [op |-> "win", ms |-> ms]
H(ms) == [op |-> "hist", ms |-> ms]
P(c, role) == [op |-> "role", c |-> c, role |-> role]

CallsStream  == {A(x, n) : x \in {0, 1, 7}, n \in 1..3}
CallsHistory == {A(x, n) : x \in {1, 5, 9}, n \in {1, 2}} \cup {H(2), H(4), H(6), R}
CallsWindow  == {A(x, n) : x \in {3, 8}, n \in 1..3} \cup {W(3), W(4), W(7), W(99), R}
CallsRoles   == {A(x, n) : x \in {2, 9}, n \in {1, 2}} \cup
                {P(c, r) : c \in {0, 1}, r \in {Unused, RLeft, RLs, RDualMono}} \cup {P(2, RLeft), C(1, 1), C(2, 1)}
CallsChange  == {A(x, n) : x \in {4, 9}, n \in {1, 3}} \cup {S(6, 1), R} \cup
                {C(1, 1), C(1, 2), C(2, 1), C(2, 2), C(3, 1), C(1, 9)} \cup {W(5), H(3)}
CallsSeed    == {A(x, n) : x \in {0, 6}, n \in {1, 2}} \cup {S(x, n) : x \in {0, 6}, n \in {1, 2}} \cup {R}
CallsNaN     == {A(x, n) : x \in {NaN, 2, 9}, n \in {1, 2}} \cup {S(NaN, 1), P(0, Unused), P(0, RLeft), R}
CallsAll     == CallsHistory \cup CallsWindow \cup CallsRoles \cup CallsChange \cup CallsSeed \cup CallsNaN
=============================================================================
