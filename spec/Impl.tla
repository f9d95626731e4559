-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* The implementation's own data structures, step by step: the audio ring  *)
(* buffer with its write index and wrap-around, the counters, the filter   *)
(* and interpolator memory, the block queue with its limit, the histogram, *)
(* and the C wrapper's copy of the parameters.  It runs in lockstep with   *)
(* Meter; the invariants say that every query gives the same answer, that  *)
(* return codes agree, and that no index ever leaves the buffer (the        *)
(* assertions and slice bounds in filter.rs hold).                          *)
(*                                                                         *)
(* Rates are chosen so that 100 ms are not a whole number of frames: a hop  *)
(* is rate/2 rounded up while a window is rounded down, as in the code.     *)
(***************************************************************************)
EXTENDS Small
CONSTANTS Calls, MaxCalls, StartCh, StartRate, StartMode
VARIABLES st, im, agree, calls
vars == <<st, im, agree, calls>>

jHop(rate) == (rate + 1) \div 2
jMsFrames(rate, ms) == (rate * ms) \div 2
Min2(a, b) == IF a < b THEN a ELSE b
jCapHops(ms) == Min2(ms, SB)
jMayAlloc(ch, rate, win) == ch * rate * win <= 60
jOversampled(rate) == rate < 3

-----------------------------------------------------------------------------
(* allocate_audio_data: frames per channel *)
AllocFrames(rate, win) ==
  LET s == jHop(rate)
      wanted == Max2(jMsFrames(rate, win), s * Min2(win, SB))
  IN  IF wanted % s # 0 THEN wanted + s - (wanted % s) ELSE wanted
Silence(ch, frames) == [c \in 1..ch |-> [i \in 1..frames |-> 0]]

QueueOrBins(mode, max) == [q |-> IF Has(mode, ModeHist) THEN [b \in 1..NBins |-> 0] ELSE <<>>, max |-> max]
NewFilter(ch) == [mem |-> [c \in 1..ch |-> 0], tap |-> [c \in 1..ch |-> 0],
                  sp |-> [c \in 1..ch |-> 0], tp |-> [c \in 1..ch |-> 0]]

NothingDone == [fed |-> 0, blocks |-> 0, sts |-> 0]
NewImpl(ch, rate, mode) ==
  [ mode |-> mode, ch |-> ch, rate |-> rate, s |-> jHop(rate), map |-> DefaultMap(ch),
    win |-> MinWin(mode), hist |-> NoHistLimit,
    buf |-> Silence(ch, AllocFrames(rate, MinWin(mode))), idx |-> 0,
    needed |-> MB * jHop(rate), stc |-> 0, f |-> NewFilter(ch),
    done |-> NothingDone,                 \* not in the code: what Hops counts
    blk |-> QueueOrBins(mode, iHistBlocks(NoHistLimit)), stblk |-> QueueOrBins(mode, iHistStBlocks(NoHistLimit)),
    sp |-> [c \in 1..ch |-> 0], tp |-> [c \in 1..ch |-> 0],
    cch |-> ch, crate |-> rate ]          \* the fields of the C state
Frames(i) == Len(i.buf[1])

(* calc_gating_block, with its two cases; out of bounds is an error of TLC *)
SumOf(s) == FoldLeft(LAMBDA acc, v : iAdd(acc, v), 0, s)
ChannelSum(data, idx, n) ==
  IF idx < n THEN iAdd(SumOf(SubSeq(data, 1, idx)), SumOf(SubSeq(data, Len(data) - n + idx + 1, Len(data))))
  ELSE SumOf(SubSeq(data, idx - n + 1, idx))
GatingBlock(i, n) ==
  iDiv(FoldLeft(LAMBDA acc, c : IF i.map[c] = Unused THEN acc
                                ELSE iAdd(acc, iWeight(i.map[c], ChannelSum(i.buf[c], i.idx, n))),
                0, [c \in 1..i.ch |-> c]), n)
InInterval(i, n) == IF n > Frames(i) THEN [code |-> InvalidMode, val |-> 0] ELSE [code |-> OK, val |-> GatingBlock(i, n)]

(* History::add *)
Put(mode, h, e) ==
  IF iLt(e, AbsGate) THEN h
  ELSE IF Has(mode, ModeHist) THEN [h EXCEPT !.q[iBinOf(e)] = @ + 1]
  ELSE [h EXCEPT !.q = Append(IF Len(@) = h.max THEN Tail(@) ELSE @, e)]
SetMaxSize(mode, h, max) ==
  IF Has(mode, ModeHist) THEN h
  ELSE [q |-> IF Len(h.q) > max THEN SubSeq(h.q, Len(h.q) - max + 1, Len(h.q)) ELSE h.q, max |-> max]

(* Filter::process of n frames of level x *)
Process(i, x, n) ==
  [i EXCEPT
     !.f.sp = [c \in 1..i.ch |-> IF Has(i.mode, ModeSP) /\ iSamplePeakOf(x, c, 0, n) > @[c] THEN iSamplePeakOf(x, c, 0, n) ELSE @[c]],
     !.buf = [c \in 1..i.ch |->
        [k \in 1..Len(@[c]) |->
           IF k <= i.idx \/ k > i.idx + n THEN @[c][k]
           ELSE IF i.map[c] = Unused THEN 0
           ELSE iAdd(V(x, c), IF k = i.idx + 1 THEN i.f.mem[c] ELSE V(x, c))]],
     !.f.mem = [c \in 1..i.ch |-> IF i.map[c] = Unused THEN @[c] ELSE V(x, c)],
     !.f.tp = [c \in 1..i.ch |->
        IF ~(Has(i.mode, ModeTP) /\ jOversampled(i.rate)) THEN @[c]
        ELSE MCMax({@[c], Abs0(iAdd(V(x, c), i.f.tap[c]))} \cup (IF n > 1 THEN {Abs0(iAdd(V(x, c), V(x, c)))} ELSE {}))],
     !.f.tap = [c \in 1..i.ch |-> V(x, c)]]

RECURSIVE AddLoop(_, _, _)
AddLoop(i, x, left) ==
  IF left = 0 THEN i
  ELSE IF left >= i.needed
  THEN LET n == i.needed
           p == [Process(i, x, n) EXCEPT !.idx = @ + n, !.done.fed = @ + n, !.done.blocks = @ + 1]
           g == IF Has(p.mode, ModeI) THEN [p EXCEPT !.blk = Put(p.mode, @, GatingBlock(p, MB * p.s))] ELSE p
           h == IF ~Has(g.mode, ModeLRA) THEN g
                ELSE LET k == [g EXCEPT !.stc = @ + n]
                     IN  IF k.stc # SB * k.s THEN k
                         ELSE [k EXCEPT !.stblk = Put(k.mode, @, InInterval(k, SB * k.s).val), !.stc = (SB - SSTEP) * k.s, !.done.sts = @ + 1]
           w == IF h.idx = Frames(h) THEN [h EXCEPT !.idx = 0] ELSE h
       IN  AddLoop([w EXCEPT !.needed = w.s], x, left - n)
  ELSE [Process(i, x, left) EXCEPT !.idx = @ + left, !.stc = IF Has(i.mode, ModeLRA) THEN @ + left ELSE @, !.needed = @ - left, !.done.fed = @ + left]

DoAdd(i, x, n) ==
  IF n = 0 THEN Res(OK, i)
  ELSE LET a == AddLoop([i EXCEPT !.f.sp = [c \in 1..i.ch |-> 0], !.f.tp = [c \in 1..i.ch |-> 0]], x, n)
       IN  Res(OK, [a EXCEPT !.sp = [c \in 1..i.ch |-> IF a.f.sp[c] > @[c] THEN a.f.sp[c] ELSE @[c]],
                             !.tp = [c \in 1..i.ch |-> IF a.f.tp[c] > @[c] THEN a.f.tp[c] ELSE @[c]]])
DoSeed(i, x, n) ==
  IF n = 0 THEN Res(OK, i)
  ELSE Res(OK, [i EXCEPT !.f.mem = [c \in 1..i.ch |-> IF i.map[c] = Unused THEN @[c] ELSE V(x, c)],
                         !.f.tap = [c \in 1..i.ch |-> V(x, c)]])

Restart(i) == [i EXCEPT !.needed = MB * i.s, !.idx = 0, !.stc = 0, !.done = NothingDone]
DoReset(i) ==
  Res(OK, [Restart(i) EXCEPT !.buf = Silence(i.ch, Frames(i)), !.f = NewFilter(i.ch),
             !.sp = [c \in 1..i.ch |-> 0], !.tp = [c \in 1..i.ch |-> 0],
             !.blk = [q |-> QueueOrBins(i.mode, 0).q, max |-> @.max], !.stblk = [q |-> QueueOrBins(i.mode, 0).q, max |-> @.max]])

(* change_parameters, behind ebur128_change_parameters *)
RustChange(i, ch, rate) ==
  IF ch = 0 \/ ch > MaxChannels \/ rate < MinRate \/ rate > MaxRate THEN Res(NoMem, i)
  ELSE IF i.rate = rate /\ i.ch = ch THEN Res(OK, i)
  ELSE IF ~jMayAlloc(ch, rate, i.win) THEN Res(NoMem, i)
  ELSE LET a == [i EXCEPT !.buf = Silence(ch, AllocFrames(rate, i.win))]
           b == IF a.ch = ch THEN a
                ELSE [a EXCEPT !.ch = ch, !.map = DefaultMap(ch), !.sp = [c \in 1..ch |-> 0], !.tp = [c \in 1..ch |-> 0]]
           c == IF b.rate = rate THEN b ELSE [b EXCEPT !.rate = rate, !.s = jHop(rate)]
       IN  Res(OK, Restart([c EXCEPT !.f = NewFilter(ch)]))
DoChange(i, ch, rate) ==
  IF i.cch = ch /\ i.crate = rate THEN Res(NoChange, i)
  ELSE LET r == RustChange(i, ch, rate)
       IN  IF r.ret # OK THEN r ELSE Res(OK, [r.st EXCEPT !.cch = ch, !.crate = rate])

RustWindow(i, ms) ==
  LET w == Max2(ms, MinWin(i.mode))
  IN  IF w = i.win THEN Res(OK, i)
      ELSE IF ~jMayAlloc(i.ch, i.rate, w) THEN Res(NoMem, i)
      ELSE Res(OK, Restart([i EXCEPT !.buf = Silence(i.ch, AllocFrames(i.rate, w)), !.win = w]))
DoWindow(i, ms) ==
  LET r == RustWindow(i, ms) IN IF r.ret = OK /\ r.st.win = i.win THEN Res(NoChange, r.st) ELSE r
RustHistory(i, ms) ==
  LET h == Max2(ms, MinHist(i.mode))
  IN  IF h = i.hist THEN Res(OK, i)
      ELSE Res(OK, [i EXCEPT !.hist = h, !.blk = SetMaxSize(i.mode, @, iHistBlocks(h)), !.stblk = SetMaxSize(i.mode, @, iHistStBlocks(h))])
DoHistory(i, ms) ==
  LET r == RustHistory(i, ms) IN IF r.ret = OK /\ r.st.hist = i.hist THEN Res(NoChange, r.st) ELSE r
DoRole(i, c, role) ==
  IF c >= i.ch THEN Res(InvalidIndex, i)
  ELSE IF role = RDualMono /\ (i.ch # 1 \/ c # 0) THEN Res(InvalidIndex, i)
  ELSE Res(OK, [i EXCEPT !.map[c + 1] = role])

-----------------------------------------------------------------------------
DoMeter(s, c) ==
  CASE c.op = "add" -> Add(s, c.x, 0, c.n) [] c.op = "seed" -> Seed(s, c.x, 0, c.n) [] c.op = "reset" -> Reset(s)
    [] c.op = "change" -> Change(s, c.ch, c.rate) [] c.op = "win" -> SetWindow(s, c.ms) [] c.op = "hist" -> SetHistory(s, c.ms)
    [] c.op = "role" -> SetChannel(s, c.c, c.role)
DoImpl(i, c) ==
  CASE c.op = "add" -> DoAdd(i, c.x, c.n) [] c.op = "seed" -> DoSeed(i, c.x, c.n) [] c.op = "reset" -> DoReset(i)
    [] c.op = "change" -> DoChange(i, c.ch, c.rate) [] c.op = "win" -> DoWindow(i, c.ms) [] c.op = "hist" -> DoHistory(i, c.ms)
    [] c.op = "role" -> DoRole(i, c.c, c.role)

Init == st = New(StartCh, StartRate, StartMode).st /\ im = NewImpl(StartCh, StartRate, StartMode) /\ agree = TRUE /\ calls = 0
Next == /\ calls < MaxCalls
        /\ calls' = calls + 1
        /\ \E c \in Calls :
             LET m == DoMeter(st, c)
                 i == DoImpl(im, c)
             IN  st' = m.st /\ im' = i.st /\ agree' = (i.ret \in m.ret)
Spec == Init /\ [][Next]_vars
View == <<st, im, agree>>

-----------------------------------------------------------------------------
CodesAgree == agree
SameSettings == /\ im.ch = st.ch /\ im.rate = st.rate /\ im.map = st.map /\ im.win = st.win /\ im.hist = st.hist /\ im.mode = st.mode
                /\ im.cch = st.ch /\ im.crate = st.rate                    \* the public fields of the C state
SameWindows == \A n \in 1..Frames(im) + 2 : InInterval(im, n) = WindowQuery(st, n)
SameBlocks == im.blk.q = st.blk /\ im.stblk.q = st.stblk
SamePeaks == /\ im.sp = st.sp /\ im.tp = st.tp
             /\ Has(st.mode, ModeSP) => im.f.sp = st.psp
             /\ Has(st.mode, ModeTP) => im.f.tp = st.ptp
SameCounters == im.needed = st.needed /\ (Has(st.mode, ModeLRA) => im.stc = st.stc)
(* what the assertions and slice bounds of the code rely on *)
InBounds == /\ im.s = jHop(im.rate) /\ im.needed \in 1..MB * im.s
            /\ im.idx + im.needed <= Frames(im) /\ im.idx < Frames(im)
            /\ Frames(im) % im.s = 0 /\ MB * im.s <= Frames(im)
            /\ Has(im.mode, ModeS) => SB * im.s <= Frames(im)
            /\ ~Has(im.mode, ModeHist) => Len(im.blk.q) <= im.blk.max /\ Len(im.stblk.q) <= im.stblk.max

(* The loop is the one of Hops, whose theorems hold for all sizes. *)
Loop == INSTANCE Hops WITH H <- im.s, A <- Frames(im) \div im.s, SS <- SSTEP,
          fed <- im.done.fed, idx <- im.idx, needed <- im.needed, stc <- im.stc, blocks <- im.done.blocks, sts <- im.done.sts,
          slot <- (im.idx + im.needed) \div im.s, sth <- (im.stc + im.needed) \div im.s,
          laps <- (im.done.fed - im.idx) \div Frames(im)
LoopKept == Has(im.mode, ModeLRA) => Loop!Inv /\ Loop!Fits /\ Loop!BlocksOf /\ Loop!ShortTermOf /\ Loop!IndexOf

A(x, n) == [op |-> "add", x |-> x, n |-> n]
S(x, n) == [op |-> "seed", x |-> x, n |-> n]
C(ch, rate) == [op |-> "change", ch |-> ch, rate |-> rate]
W(ms) == [op |-> "win", ms |-> ms]
H(ms) == [op |-> "hist", ms |-> ms]
P(c, role) == [op |-> "role", c |-> c, role |-> role]
R == [op |-> "reset"]
ImplStream == {A(x, n) : x \in {2, 9}, n \in {1, 2, 5}} \cup {A(9, 0), S(6, 1), R, W(4), W(5), H(2)}
ImplChange == {A(x, n) : x \in {4, 9}, n \in {1, 4}} \cup {S(6, 2), R, W(5), H(3)} \cup
              {C(ch, r) : ch \in 1..2, r \in 1..4} \cup {C(0, 1), C(3, 1), C(1, 9)}
ImplRoles == {A(x, n) : x \in {2, 9}, n \in {1, 3}} \cup {S(6, 1), R, C(1, 2), C(2, 2)} \cup
             {P(c, r) : c \in {0, 1, 2}, r \in {Unused, RLeft, RLs, RDualMono}}
ImplNaN == {A(x, n) : x \in {NaN, 9}, n \in {1, 3}} \cup {S(NaN, 1), R, C(1, 2), C(1, 3), W(4), H(2), P(0, Unused), P(0, RLeft)}
=============================================================================
