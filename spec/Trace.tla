-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: a recorded execution of the real library, event by event,  *)
(* against Meter bound to IEEE doubles and real sample rates.              *)
(*                                                                         *)
(* A trace is a list of events, one per call of the library, with the      *)
(* arguments, the return code, what was returned, and the floating-point   *)
(* control word before (env) and after (fe) the call.  Every step takes    *)
(* the next event, applies the operator of Meter to the model of that      *)
(* instance and compares.  A disagreement is printed as a MISMATCH record  *)
(* and the rest of the trace is still checked; an instance whose return    *)
(* code disagreed is lost (its state is unknown) until it is created       *)
(* again.                                                                  *)
(***************************************************************************)
EXTENDS Meter, Dsp, Tally, Load, TLC, Json, IOUtils

(* all traces: records [name, sigs, events]. Each is checked on its own,   *)
(* as one behaviour of this specification.                                 *)
Traces == LoadTraces(IOEnv.TRACES)

VARIABLES tr,       \* the trace
          l,        \* next event
          inst      \* instance -> [st, lost, obs, tscale]
vars == <<tr, l, inst>>
View == <<tr, l>>
Events == Traces[tr].events
Sigs == Traces[tr].sigs

-----------------------------------------------------------------------------
(* Milliseconds: three digits of base 2^24, most significant first *)
Big == 2147483647
W3(n) == <<0, n \div 16777216, n % 16777216>>
WLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
WInt(w) == IF w[1] = 0 /\ w[2] < 128 THEN w[2] * 16777216 + w[3] ELSE Big
WFits32(w) == w[1] = 0 /\ w[2] < 256
WFloat(w) == (((FInt(w[1]) ** FInt(16777216)) ++ FInt(w[2])) ** FInt(16777216)) ++ FInt(w[3])
W400 == <<0, 0, 400>>    W3000 == <<0, 0, 3000>>    WMax == <<65535, 16777215, 16777215>>

MinI(a, b) == IF a < b THEN a ELSE b
tHop(rate) == (rate + 5) \div 10
tMsFrames(rate, w) ==    \* rate * ms / 1000 rounded down, Big if that does not fit
  LET n == WInt(w)
      q == n \div 1000
      r == n % 1000
  IN  IF n = Big \/ q >= Big \div rate - 1 THEN Big
      ELSE rate * q + (rate \div 1000) * r + ((rate % 1000) * r) \div 1000
tCapHops(w) == MinI(WInt(w), 3000) \div 100
tHistBlocks(w) == WInt(w) \div 100
tHistStBlocks(w) == WInt(w) \div 3000
(* The audio buffer takes 8 bytes per sample. Sizes between what surely can *)
(* and what surely cannot be allocated must not occur in traces.           *)
tMayAlloc(ch, rate, w) ==
  LET bytes == ((FInt(rate) ** WFloat(w)) // FInt(1000)) ** FInt(8 * ch)
  IN  IF ~WFits32(w) \/ FLt(FDec("140737488355328"), bytes) THEN FALSE
      ELSE Assert(FLt(bytes, FDec("2e9")), "allocation of unclear outcome in trace")

-----------------------------------------------------------------------------
(* Numbers *)
Lufs(x) == FPow(FInt(10), (x ++ FDec("0.691")) // FInt(10))    \* loudness -> energy
ToLufs(e) == (FInt(10) ** FLog10(e)) -- FDec("0.691")
FZ == <<0, 0>>
Close(a, b, rel) == FLe(FAbs(a -- b), rel ** FAbs(b))
NearRel == FDec("3e-6")
tMulInt(n, a) == FInt(n) ** a
tDivInt(a, n) == a // FInt(n)
tNear(a, b) == ~FIsFinite(a) \/ ~FIsFinite(b) \/ Close(a, b, NearRel)
Wt == FDec("1.41")
tWeight(role, e) == IF role \in Surround THEN Wt ** e
                    ELSE IF role = RDualMono THEN FInt(2) ** e ELSE e
Gate70 == Lufs(FInt(-70))
tRelGate(x) == FDec("0.1") ** x
tRangeGate(x) == FDec("0.01") ** x

(* Histogram: bin b (from 1) is [-70 + (b-1)/10, -70 + b/10) LUFS *)
Edge == [b \in 1..1001 |-> Lufs(FRatio(b - 701, 10))]
Centre == [b \in 1..1000 |-> Lufs(FRatio(2 * b - 1401, 20))]
tBinCentre(b) == Centre[b]
tBinOf(e) ==
  IF FIsNaN(e) \/ FLt(e, Edge[1]) THEN 1
  ELSE IF FLe(Edge[1000], e) THEN 1000
  ELSE LET b == FToInt(FFloor(FInt(10) ** (ToLufs(e) ++ FInt(70)))) + 1
           c == IF b < 1 THEN 1 ELSE IF b > 1000 THEN 1000 ELSE b
       IN  IF FLt(e, Edge[c]) THEN c - 1 ELSE IF FLe(Edge[c + 1], e) THEN c + 1 ELSE c
BinEdgeWithin(e, err) ==
  LET b == tBinOf(e) IN \/ FLt(e -- err, Edge[b]) /\ b > 1
                        \/ FLe(Edge[b + 1], e ++ err) /\ b < 1000

(* Rounding errors of the filters in the newest n frames are NoiseRel (Dsp) *)
(* of the largest value they have seen there or not forgotten (ErrorScale)  *)
Scale(st, n) ==
  FoldLeft(LAMBDA acc, c : IF st.map[c] = Unused THEN acc
                           ELSE LET m == ErrorScale(Sigs, st.rate, st.fed, c, n)
                                IN  IF FLt(acc, m) THEN m ELSE acc, FZ, [c \in 1..st.ch |-> c])
Always == 2000000000
ErrWith(rate, scale, e, rel) ==
  LET d == NoiseRel(rate) ** scale IN ((rel ** e) ++ ((FInt(2) ** d) ** FSqrt(e))) ++ (d ** d)
WinRel == FDec("1e-6")      BlockRel == FDec("1e-9")
Huge == FDec("1e140")       Tiny == FDec("1e-290")

tUnsure(st, e) ==
  IF FIsNaN(e) THEN FALSE
  ELSE IF ~FIsFinite(e) THEN TRUE
  ELSE LET err == ErrWith(st.rate, Scale(st, 30 * Hop(st.rate)), e, BlockRel)
       IN  IF FLt(e ++ err, Gate70) THEN FALSE
           ELSE ~FLe(err, NearRel ** e) \/ FLt(e -- err, Gate70)
                \/ (Has(st.mode, ModeHist) /\ BinEdgeWithin(e, err))

tEnergy(rate, fed, c, from, n) == FilteredEnergy(Sigs, rate, fed, c, from, n)
tPeak(sig, c, from, len) == SamplePeakOf(Sigs, sig, c, from, len)
tOversampled(rate) == Factor(rate) > 1
tTruePeak(rate, fed, c, len) == TruePeakOf(Sigs, rate, fed, c, len)

-----------------------------------------------------------------------------
(* Comparing.  Counters: 1 comparisons, 2 of finite numbers, 3 left open  *)
(* because the expected value is not determined, 4 mismatches.             *)
Count(r) == Tick(r)
Report(aspect, i, exp, obs) ==
  /\ Count(4)
  /\ PrintT(<<"MISMATCH", ToJson([a |-> aspect, l |-> l, t |-> tr, i |-> i, exp |-> exp, obs |-> obs])>>)
Expect(cond, aspect, i, exp, obs) ==
  /\ Count(1)
  /\ IF cond THEN TRUE ELSE Report(aspect, i, ToString(exp), ToString(obs))
Open == l > 0 /\ Count(3)     \* of state level, so that TLC does not take it for a constant

Val(r) == <<r[2], r[3]>>
PlusInf == FDec("Infinity")
NotANumber(v) == FIsNaN(v) \/ FSameBits(v, PlusInf)     \* NaN or infinite, never a number
MinusInf(v) == FSameBits(v, FDec("-Infinity"))
ShowRes(r) == IF r[1] # 0 THEN <<"code", r[1]>> ELSE <<FShow(Val(r))>>

InDoubtI(st) == st.doubtI >= 0
InDoubtR(st) == st.doubtR >= 0

(* a loudness that is the energy e of state st, observed as r *)
Loudness(aspect, i, st, q, r, scale) ==
  IF q.code # r[1] THEN Expect(FALSE, aspect, i, <<"code", q.code>>, ShowRes(r))
  ELSE IF q.code # OK THEN Count(1)
  ELSE LET v == Val(r)
           e == q.val
       IN  IF FIsNaN(e) THEN Expect(NotANumber(v), aspect, i, "not a number", FShow(v))
           ELSE IF ~FIsFinite(e)
                THEN IF FIsFinite(scale) THEN Open ELSE Expect(NotANumber(v), aspect, i, "not a number", FShow(v))
           ELSE IF ~FLt(scale, Huge) \/ (FLt(FZ, e) /\ FLt(e, Tiny)) THEN Open
           ELSE IF FSameBits(e, FZ) THEN Expect(MinusInf(v), aspect, i, "-Infinity", FShow(v))
           ELSE /\ Count(2)
                /\ Expect(FLe(FAbs(Lufs(v) -- e), ErrWith(st.rate, scale, e, WinRel)),
                          aspect, i, FShow(ToLufs(e)), FShow(v))

LuTol == FDec("1e-4")
LuClose(v, x) == FLe(FAbs(v -- x), LuTol)
(* integrated loudness *)
Integrated(aspect, i, q, vague, r) ==
  IF q.code # r[1] THEN Expect(FALSE, aspect, i, <<"code", q.code>>, ShowRes(r))
  ELSE IF q.code # OK THEN Count(1)
  ELSE LET v == Val(r)
           g == q.g
       IN  IF g.kind = "none" THEN IF vague THEN Open ELSE Expect(MinusInf(v), aspect, i, "-Infinity", FShow(v))
           ELSE IF g.kind = "nan" \/ ~FIsFinite(g.thr)
                THEN IF vague THEN Open ELSE Expect(NotANumber(v), aspect, i, "not a number", FShow(v))
           ELSE IF vague \/ g.vague THEN Open
           ELSE LET x == ToLufs(g.energy // FInt(g.count))
                IN  Count(2) /\ Expect(LuClose(v, x), aspect, i, FShow(x), FShow(v))
RelThreshold(aspect, i, st, g, r) ==
  LET code == IF Has(st.mode, ModeI) THEN OK ELSE InvalidMode IN
  IF code # r[1] THEN Expect(FALSE, aspect, i, <<"code", code>>, ShowRes(r))
  ELSE IF code # OK THEN Count(1)
  ELSE LET v == Val(r)
       IN  IF InDoubtI(st) THEN Open
           ELSE IF g.kind = "none" THEN Expect(FSameBits(v, FInt(-70)), aspect, i, "-70", FShow(v))
           ELSE IF g.kind = "nan" \/ ~FIsFinite(g.thr) THEN Expect(NotANumber(v), aspect, i, "not a number", FShow(v))
           ELSE Count(2) /\ Expect(LuClose(v, ToLufs(g.thr)), aspect, i, FShow(ToLufs(g.thr)), FShow(v))
(* r is <<code, count, energy>>; code 5: there is none; -1: not in this API *)
CountEnergy(aspect, i, st, g, r) ==
  LET none == ~Has(st.mode, ModeI) \/ g.kind # "ok"
      v == <<r[3], r[4]>>
  IN  IF r[1] = -1 THEN TRUE
      ELSE IF InDoubtI(st) \/ (g.kind = "ok" /\ (g.vague \/ ~FIsFinite(g.thr))) THEN Open
      ELSE IF none THEN Expect(r[1] = 5, aspect, i, "none", <<r[1], r[2]>>)
      ELSE /\ Count(2)
           /\ Expect(r[1] = 0 /\ r[2] = g.count /\ Close(v, g.energy, FDec("1e-5")), aspect, i,
                     <<g.count, FShow(g.energy)>>, <<r[1], r[2], FShow(v)>>)
LRange(aspect, i, q, vague, r) ==
  IF q.code # r[1] THEN Expect(FALSE, aspect, i, <<"code", q.code>>, ShowRes(r))
  ELSE IF q.code # OK THEN Count(1)
  ELSE LET v == Val(r)
           x == q.r
       IN  IF vague THEN Open
           ELSE IF x.kind = "none" THEN Expect(FLe(FAbs(v), FZ), aspect, i, "0.0", FShow(v))
           ELSE IF x.kind = "nan" \/ ~FIsFinite(x.high) THEN Expect(NotANumber(v), aspect, i, "not a number", FShow(v))
           ELSE IF x.vague THEN Open
           ELSE LET y == ToLufs(x.high) -- ToLufs(x.low)
                IN  Count(2) /\ Expect(LuClose(v, y) /\ FLe(FZ, v), aspect, i, FShow(y), FShow(v))

PeakTol == FDec("4e-6")
SmallestNormal == FDec("1e-300")
(* peaks, c from 0; entry c + 1 of the observation. The entries after that  *)
(* of channel ch are for numbers far beyond, and must be refused as well.  *)
Peaks(aspect, i, st, mode, r, val(_), tol(_)) ==
  \A c \in 0..Len(r) - 1 :
    LET errs == PeakErrors(st, mode, c)
        o == r[c + 1]
        v == Val(o)
    IN  IF errs # {} THEN Expect(o[1] \in errs, aspect, i, <<"channel", c, "code", errs>>, ShowRes(o))
        ELSE LET x == val(c)
                 t == tol(c)
             IN  IF o[1] = 0 /\ ~FIsFinite(t) THEN Expect(~FIsNaN(v) /\ FLe(st.sp[c + 1], PlusInf), aspect, i, "a number", FShow(v))
                 ELSE Expect(/\ o[1] = 0
                             /\ \/ FSameBits(v, x)
                                \/ FLe(FAbs(v -- x), t)
                             /\ FLe(FZ, v), aspect, i, <<"channel", c, FShow(x)>>, ShowRes(o))

ScaleOfTp(x, c) == LET a == x.tscale[c + 1]
                   IN  IF FLt(a, FDec("1e30")) THEN (PeakTol ** a) ++ FDec("1e-36") ELSE PlusInf

Observe(i, x, o) ==
  LET st == x.st
      g == IF Has(st.mode, ModeI) THEN GatingOf(<<st>>) ELSE [kind |-> "none"]
  IN  /\ Loudness("m", i, st, Momentary(st), o.m, Scale(st, 4 * Hop(st.rate)))
      /\ Loudness("s", i, st, ShortTerm(st), o.s, Scale(st, 30 * Hop(st.rate)))
      /\ \A k \in 1..Len(o.w) :
           LET ms == o.w[k][1]
               n == tMsFrames(st.rate, ms)
           IN  IF ~WFits32(ms)
               THEN Expect(o.w[k][2][1] \in {NoMem, InvalidMode}, "w", i, "refused", ShowRes(o.w[k][2]))
               ELSE IF n = 0 THEN Open
               ELSE Loudness("w", i, st, Window(st, ms), o.w[k][2], Scale(st, n))
      /\ Integrated("g", i, IntegratedLoudness(<<st>>), InDoubtI(st), o.g)
      /\ LRange("r", i, LoudnessRange(<<st>>), InDoubtR(st), o.r)
      /\ RelThreshold("t", i, st, g, o.t)
      /\ CountEnergy("c", i, st, g, o.c)
      /\ IF \E r \in {o.sp, o.psp, o.tp, o.ptp} : Len(r) # st.ch + 3
         THEN Expect(FALSE, "cfg", i, st.ch, Len(o.sp) - 3)
         ELSE /\ Peaks("sp", i, st, ModeSP, o.sp, LAMBDA c : SamplePeak(st, c), LAMBDA c : SmallestNormal)
              /\ Peaks("psp", i, st, ModeSP, o.psp, LAMBDA c : PrevSamplePeak(st, c), LAMBDA c : SmallestNormal)
              /\ Peaks("tp", i, st, ModeTP, o.tp, LAMBDA c : TruePeak(st, c), LAMBDA c : ScaleOfTp(x, c))
              /\ Peaks("ptp", i, st, ModeTP, o.ptp, LAMBDA c : PrevTruePeak(st, c), LAMBDA c : ScaleOfTp(x, c))
              (* the true peak is never below the sample peak *)
              /\ Has(st.mode, ModeTP) =>
                   \A c \in 1..st.ch : Expect(FLe(Val(o.sp[c]), Val(o.tp[c])) /\ FLe(Val(o.psp[c]), Val(o.ptp[c])), "tp", i,
                        <<"at least the sample peak of channel", c - 1>>, <<ShowRes(o.sp[c]), ShowRes(o.tp[c])>>)
      /\ Expect(o.cfg = <<st.mode, st.ch, st.rate>>, "cfg", i, <<st.mode, st.ch, st.rate>>, o.cfg)
      /\ Expect(o.mem[1] = 0 /\ o.mem[2] <= 127 /\ o.mem[2] * 16777216 + o.mem[3] <= x.room, "mem", i, <<"at most", x.room>>, o.mem)
      /\ o.ms # <<>> =>
           /\ Expect(o.map = st.map, "map", i, st.map, o.map)
           /\ Expect(o.ms[1] = st.win, "win", i, st.win, o.ms[1])
           /\ Expect(o.ms[2] = st.hist, "hist", i, st.hist, o.ms[2])

-----------------------------------------------------------------------------
(* Two instances that must agree: compares their last observations *)
SameLoudness(st, scale, a, b) ==
  /\ a[1] = b[1]
  /\ a[1] = 0 =>
      LET u == Val(a)
          v == Val(b)
      IN  \/ FSameBits(u, v)
          \/ NotANumber(u) /\ NotANumber(v)
          \/ ~FLt(scale, Huge)
          \/ /\ ~FIsNaN(u) /\ ~FIsNaN(v)
             /\ LET e == Lufs(u)
                    d == Lufs(v)
                IN  \/ FLt(e, Tiny) /\ FLt(d, Tiny)
                    \/ FLe(FAbs(e -- d), FInt(2) ** ErrWith(st.rate, scale, IF FLt(e, d) THEN d ELSE e, FDec("1e-8")))
SameLu(a, b) == /\ a[1] = b[1]
                /\ a[1] = 0 => LET u == Val(a)
                                   v == Val(b)
                               IN  \/ FSameBits(u, v)
                                   \/ NotANumber(u) /\ NotANumber(v)
                                   \/ FLe(FAbs(u -- v), FDec("1e-6"))
SameCount(a, b) == a[1] = -1 \/ b[1] = -1 \/
  (/\ a[1] = b[1] /\ a[2] = b[2] /\ (a[1] = 0 => Close(<<a[3], a[4]>>, <<b[3], b[4]>>, FDec("1e-7"))))
SamePeaks(a, b, tol(_)) ==
  /\ Len(a) = Len(b)
  /\ \A c \in 1..Len(a) : /\ a[c][1] = b[c][1]
                          /\ \/ a[c][1] # 0 \/ FSameBits(Val(a[c]), Val(b[c]))
                             \/ FLe(FAbs(Val(a[c]) -- Val(b[c])), tol(c - 1))
VagueG(x) == InDoubtI(x.st) \/ (Has(x.st.mode, ModeI) /\ LET g == GatingOf(<<x.st>>) IN g.kind = "ok" /\ g.vague)
VagueR(x) == InDoubtR(x.st) \/ (Has(x.st.mode, ModeLRA) /\ LET r == RangeOf(Together(<<x.st>>, LAMBDA s : s.stblk)) IN r.kind = "ok" /\ r.vague)
SameObs(k, x, y) ==
  LET a == x.obs
      b == y.obs
      scale(n) == LET u == Scale(x.st, n)
                      v == Scale(y.st, n)
                  IN  IF FLt(u, v) THEN v ELSE u
  IN  CASE k = "m" -> SameLoudness(x.st, scale(4 * Hop(x.st.rate)), a.m, b.m)
        [] k = "s" -> SameLoudness(x.st, scale(30 * Hop(x.st.rate)), a.s, b.s)
        [] k = "w" -> /\ Len(a.w) = Len(b.w)
                      /\ \A j \in 1..Len(a.w) :
                           LET n == tMsFrames(x.st.rate, a.w[j][1])
                           IN  n > 0 => SameLoudness(x.st, scale(n), a.w[j][2], b.w[j][2])
        [] k = "g" -> VagueG(x) \/ VagueG(y) \/ SameLu(a.g, b.g)
        [] k = "t" -> VagueG(x) \/ VagueG(y) \/ SameLu(a.t, b.t)
        [] k = "c" -> VagueG(x) \/ VagueG(y) \/ SameCount(a.c, b.c)
        [] k = "r" -> VagueR(x) \/ VagueR(y) \/ SameLu(a.r, b.r)
        [] k = "sp" -> SamePeaks(a.sp, b.sp, LAMBDA c : SmallestNormal)
        [] k = "psp" -> SamePeaks(a.psp, b.psp, LAMBDA c : SmallestNormal)
        [] k = "tp" -> SamePeaks(a.tp, b.tp, LAMBDA c : ScaleOfTp(x, c))
        [] k = "ptp" -> SamePeaks(a.ptp, b.ptp, LAMBDA c : ScaleOfTp(x, c))
        [] k = "cfg" -> a.cfg = b.cfg
        [] k = "map" -> a.map = <<>> \/ b.map = <<>> \/ a.map = b.map
        [] k = "ms" -> a.ms = <<>> \/ b.ms = <<>> \/ a.ms = b.ms
ShowKey(k, o) ==
  CASE k = "m" -> ToString(ShowRes(o.m)) [] k = "s" -> ToString(ShowRes(o.s))
    [] k = "w" -> ToString([j \in 1..Len(o.w) |-> ShowRes(o.w[j][2])])
    [] k = "g" -> ToString(ShowRes(o.g)) [] k = "t" -> ToString(ShowRes(o.t))
    [] k = "c" -> ToString(<<o.c[1], o.c[2], FShow(<<o.c[3], o.c[4]>>)>>) [] k = "r" -> ToString(ShowRes(o.r))
    [] k = "sp" -> ToString([j \in 1..Len(o.sp) |-> ShowRes(o.sp[j])])
    [] k = "psp" -> ToString([j \in 1..Len(o.psp) |-> ShowRes(o.psp[j])])
    [] k = "tp" -> ToString([j \in 1..Len(o.tp) |-> ShowRes(o.tp[j])])
    [] k = "ptp" -> ToString([j \in 1..Len(o.ptp) |-> ShowRes(o.ptp[j])])
    [] OTHER -> ToString(o.cfg) \o ToString(o.map) \o ToString(o.ms)
(* with a role-independent part only (peaks, settings) the model states need not agree *)
Equal(e) ==
  LET x == inst[e.a]
      y == inst[e.b]
  IN  x.lost \/ y.lost \/ x.obs = <<>> \/ y.obs = <<>> \/
      \A k \in 1..Len(e.keys) :
        Expect(SameObs(e.keys[k], x, y), "eq:" \o e.keys[k], e.a, ShowKey(e.keys[k], x.obs), ShowKey(e.keys[k], y.obs))

(* The last observation against a stated loudness (in 1/100 LU), and two   *)
(* instances fed the same signal, b's 2^e times a's                        *)
Stated(e) ==
  LET x == inst[e.i] IN
  IF x.lost \/ x.obs = <<>> THEN TRUE
  ELSE LET check(k, r) == Expect(r[1] = 0 /\ FLe(FAbs(Val(r) -- FRatio(e.x, 100)), FRatio(e.tol, 100)),
                                 "level:" \o k, e.i, FShow(FRatio(e.x, 100)), ShowRes(r))
       IN  \A k \in 1..Len(e.keys) :
             CASE e.keys[k] = "m" -> check("m", x.obs.m) [] e.keys[k] = "s" -> check("s", x.obs.s)
               [] e.keys[k] = "g" -> check("g", x.obs.g)
Scaled(e) ==
  LET x == inst[e.a]
      y == inst[e.b]
      f == FScale(FInt(1), 2 * e.e)
      check(k, a, b) ==
        Expect(/\ a[1] = b[1]
               /\ a[1] = 0 => LET u == Lufs(Val(a)) ** f
                                  v == Lufs(Val(b))
                              IN  FLe(FAbs(u -- v), FInt(2) ** ErrWith(y.st.rate, Scale(y.st, Always), IF FLt(u, v) THEN v ELSE u, WinRel)),
               "diff:" \o k, e.b, <<ShowRes(a), "raised by 2^", e.e>>, ShowRes(b))
  IN  IF x.lost \/ y.lost \/ x.obs = <<>> \/ y.obs = <<>> THEN TRUE
      ELSE /\ check("m", x.obs.m, y.obs.m) /\ check("s", x.obs.s, y.obs.s)
           /\ \A j \in 1..Len(x.obs.w) : check("w", x.obs.w[j][2], y.obs.w[j][2])

(* Channel p[1] of a and channel p[2] of b have the same peaks, for every p *)
(* of e.pairs, and the results named in e.keys agree                        *)
SameChannels(e) ==
  LET x == inst[e.a]
      y == inst[e.b]
      same(k, f(_), tol(_)) ==
        \A j \in 1..Len(e.pairs) :
          LET c == e.pairs[j][1]
              a == f(x.obs)[c + 1]
              b == f(y.obs)[e.pairs[j][2] + 1]
          IN  Expect(a[1] = b[1] /\ (a[1] # 0 \/ FSameBits(Val(a), Val(b)) \/ FLe(FAbs(Val(a) -- Val(b)), tol(c))),
                     "channels:" \o k, e.a, <<e.pairs[j], ShowRes(b)>>, ShowRes(a))
  IN  x.lost \/ y.lost \/ x.obs = <<>> \/ y.obs = <<>> \/
      /\ \A k \in 1..Len(e.keys) :
           Expect(SameObs(e.keys[k], x, y), "channels:" \o e.keys[k], e.a, ShowKey(e.keys[k], y.obs), ShowKey(e.keys[k], x.obs))
      /\ same("sp", LAMBDA o : o.sp, LAMBDA c : SmallestNormal) /\ same("psp", LAMBDA o : o.psp, LAMBDA c : SmallestNormal)
      /\ same("tp", LAMBDA o : o.tp, LAMBDA c : ScaleOfTp(x, c)) /\ same("ptp", LAMBDA o : o.ptp, LAMBDA c : ScaleOfTp(x, c))

(* Chunks of a stream, measured as documented at loudness_global_multiple,  *)
(* against the stream measured whole                                        *)
(* What the filter of a chunk has not seen has died away but for Unseen of *)
(* the largest value: 100 ms after it, the critically damped high pass at    *)
(* 38 Hz passes 24 e^-24 = 9e-10 of it.                                     *)
Unseen(st) == FDec("3e-9") ** Scale(st, Always)
ChunkLoudness(e, xs, w) ==
  LET vague == InDoubtI(w.st) \/ VagueG(w) \/ \E k \in 1..Len(xs) : InDoubtI(xs[k].st)
      a == e.res
      b == w.obs.g
  IN  IF w.lost \/ w.obs = <<>> \/ \E k \in 1..Len(xs) : xs[k].lost THEN TRUE
      ELSE IF vague THEN Open
      ELSE Expect(/\ a[1] = b[1]
                  /\ a[1] = 0 => LET u == Val(a)
                                     v == Val(b)
                                 IN  FSameBits(u, v) \/ (NotANumber(u) /\ NotANumber(v)) \/ FLe(FAbs(u -- v), FDec("1e-8") ++ (FInt(18) ** (Unseen(w.st) // FSqrt(Lufs(v))))),
                  "chunks:g", e.whole, <<"of the whole", ShowRes(b)>>, ShowRes(a))
ChunkPeaks(e) ==
  LET w == inst[e.whole]
      xs == [k \in 1..Len(e.is) |-> inst[e.is[k]]]
      top(f(_), c) == FoldLeft(LAMBDA acc, x : LET v == Val(f(x.obs)[c]) IN IF FLt(acc, v) THEN v ELSE acc, FZ, xs)
      all(aspect, f(_), tol(_)) ==
        \A c \in 1..w.st.ch :
          LET u == top(f, c)
              v == Val(f(w.obs)[c])
          IN  IF f(w.obs)[c][1] # 0 THEN TRUE
              ELSE Expect((\A k \in 1..Len(xs) : f(xs[k].obs)[c][1] = 0) /\ (FSameBits(u, v) \/ FLe(FAbs(u -- v), tol(c - 1))),
                          "chunks:" \o aspect, e.whole, <<"of the whole, channel", c - 1, FShow(v)>>, FShow(u))
      d == Unseen(w.st)
      last == xs[Len(xs)].obs
      same(k, a, b) ==
        Expect(/\ a[1] = b[1]
               /\ a[1] = 0 => LET u == Lufs(Val(a))
                                  v == Lufs(Val(b))
                                  err == ((FDec("1e-8") ** v) ++ ((FInt(4) ** d) ** FSqrt(v))) ++ ((FInt(4) ** d) ** d)
                              IN  (NotANumber(Val(a)) /\ NotANumber(Val(b))) \/ FLe(FAbs(u -- v), err),
               "chunks:" \o k, e.whole, <<"of the whole", ShowRes(b)>>, ShowRes(a))
  IN  IF w.lost \/ w.obs = <<>> \/ \E k \in 1..Len(xs) : xs[k].lost \/ xs[k].obs = <<>> THEN TRUE
      ELSE /\ same("m", last.m, w.obs.m)
           /\ \A j \in 1..Len(last.w) : same("w", last.w[j][2], w.obs.w[j][2])
           /\ all("sp", LAMBDA o : o.sp, LAMBDA c : SmallestNormal)
           /\ all("tp", LAMBDA o : o.tp, LAMBDA c : ScaleOfTp(w, c))

-----------------------------------------------------------------------------
(* Steps *)
E == Events[l]
Env == Expect(E.fe = E.env, "fe", 0, E.env, E.fe)
RustCodes(s) == {IF c = NoChange THEN OK ELSE c : c \in s}
Codes(x, s) == IF x.api = 1 THEN s ELSE RustCodes(s)

(* Bytes an instance may hold: generous, but the history is bounded *)
HistRoom(st) == IF Has(st.mode, ModeHist) THEN 0 ELSE 32 * (Len(st.blk) + Len(st.stblk))
RoomFor(st) ==
  LET n == tMsFrames(st.rate, st.win) + 8 * Hop(st.rate)
  IN  IF n > 60000000 \div st.ch THEN 2147483647
      ELSE LET room == 262144 + st.ch * (8192 + 32 * n)
           IN  IF room > 2000000000 THEN 2147483647 ELSE room + HistRoom(st)
MaxOf(a, b) == IF a < b THEN b ELSE a

NoInst == [st |-> Dead, lost |-> TRUE, obs |-> <<>>, tscale |-> <<>>, api |-> 0, room |-> 0]
RetOk(i, codes) == Expect(E.ret \in codes, "ret:" \o E.ev, i, codes, E.ret)

TScale(x, st) ==
  [c \in 1..st.ch |->
     LET m == IF Has(st.mode, ModeTP) THEN MaxInput(Sigs, st.fed, c) ELSE FZ
     IN  IF c <= Len(x.tscale) /\ ~FLt(x.tscale[c], m) THEN x.tscale[c] ELSE m]

Update(i, x) == inst' = (i :> x) @@ inst

(* a call on instance i with result r = [ret, st] *)
Apply(x, r) ==
  LET codes == Codes(x, r.ret) IN
  /\ RetOk(E.i, codes)
  /\ Update(E.i, IF E.ret \in codes THEN [x EXCEPT !.st = r.st, !.tscale = TScale(x, r.st), !.room = MaxOf(@, RoomFor(r.st))] ELSE [x EXCEPT !.lost = TRUE])

(* frames * channels of a C call, in the same digits: does it fit in 64 bit *)
CountFits(w, ch) == LET lo == w[3] * ch
                        mid == w[2] * ch + lo \div 16777216
                    IN  w[1] * ch + mid \div 16777216 < 65536

CallResult(x) ==
  LET st == x.st IN
  CASE E.ev = "add"    -> Add(st, E.sig, E.from, E.n)
    [] E.ev = "seed"   -> Seed(st, E.sig, E.from, E.n)
    [] E.ev = "raw"    ->
         LET fits == IF E.planar = 1 THEN PlanarFits(st, E.lens) ELSE InterleavedFits(st, E.lens[1])
             n == IF E.planar = 1 THEN E.lens[1] ELSE E.lens[1] \div st.ch
         IN  IF ~fits THEN Res({NoMem}, st)
             ELSE IF E.seed = 1 THEN Seed(st, E.sig, 0, n) ELSE Add(st, E.sig, 0, n)
    [] E.ev = "count"  -> IF CountFits(E.n, st.ch) THEN Assert(FALSE, "a count that fits") ELSE Res({NoMem}, st)
    [] E.ev = "reset"  -> Reset(st)
    [] E.ev = "change" -> Change(st, E.ch, E.rate)
    [] E.ev = "win"    -> SetWindow(st, E.ms)
    [] E.ev = "hist"   -> IF ~WFits32(E.ms) /\ E.ms # st.hist THEN Res({NoMem}, st) ELSE SetHistory(st, E.ms)
    [] E.ev = "role"   -> SetChannel(st, E.c, E.role)
    [] E.ev = "map"    -> SetMap(st, E.map)

Known(i) == i \in DOMAIN inst
Get(i) == IF Known(i) THEN inst[i] ELSE NoInst

Step ==
  CASE E.ev = "trace" -> inst' = <<>>
    [] E.ev = "new" ->
         LET r == New(E.ch, E.rate, E.mode)
             codes == IF E.api = 0 THEN r.ret ELSE {IF c = OK THEN OK ELSE 6 : c \in r.ret}
             good == E.ret \in codes
         IN  /\ Env
             /\ RetOk(E.i, codes)
             /\ Update(E.i, [st |-> r.st, lost |-> ~good \/ E.ret # 0, obs |-> <<>>, api |-> E.api,
                             tscale |-> IF good /\ E.ret = 0 THEN Zeros(E.ch) ELSE <<>>,
                             room |-> IF good /\ E.ret = 0 THEN RoomFor(r.st) ELSE 0])
    [] E.ev \in {"add", "seed", "raw", "count", "reset", "change", "win", "hist", "role", "map"} ->
         LET x == Get(E.i) IN
         /\ Env
         /\ IF x.lost THEN UNCHANGED inst ELSE Apply(x, CallResult(x))
    [] E.ev = "obs" ->
         LET x == Get(E.i) IN
         /\ Env
         /\ IF x.lost THEN UNCHANGED inst
            ELSE IF E.ret # 0 THEN RetOk(E.i, {0}) /\ Update(E.i, [x EXCEPT !.lost = TRUE])
            ELSE Observe(E.i, x, E.o) /\ Update(E.i, [x EXCEPT !.obs = E.o])
    (* several threads asked the same instance at the same time *)
    [] E.ev = "together" ->
         LET x == Get(E.i) IN
         /\ Env
         /\ IF x.lost THEN UNCHANGED inst
            ELSE IF E.ret # 0 THEN RetOk(E.i, {0}) /\ Update(E.i, [x EXCEPT !.lost = TRUE])
            ELSE /\ Observe(E.i, x, E.os[1])
                 /\ \A k \in 2..Len(E.os) : Expect(E.os[k] = E.os[1], "eq:together", E.i, "the same answers", "others")
                 /\ Update(E.i, [x EXCEPT !.obs = E.os[1]])
    (* what the last of several lives of an instance left behind *)
    [] E.ev = "lives" -> UNCHANGED inst /\ Env /\ RetOk(0, {0}) /\ (E.ret = 0 => Expect(E.left = 0, "left", 0, 0, E.left))
    [] E.ev = "version" -> UNCHANGED inst /\ Env /\ RetOk(0, {0}) /\ (E.ret = 0 => Expect(E.v = <<1, 2, 6>>, "version", 0, <<1, 2, 6>>, E.v))
    [] E.ev = "multi" ->
         LET xs == [k \in 1..Len(E.is) |-> Get(E.is[k])]
             sts == [k \in 1..Len(xs) |-> xs[k].st]
         IN  /\ Env
             /\ UNCHANGED inst
             /\ IF \E k \in 1..Len(xs) : xs[k].lost THEN TRUE
                ELSE IF E.ret # 0 THEN RetOk(0, {0})
                ELSE IF E.range = 1 THEN LRange("multi:r", 0, LoudnessRange(sts), \E k \in 1..Len(sts) : InDoubtR(sts[k]), E.res)
                ELSE Integrated("multi:g", 0, IntegratedLoudness(sts), \E k \in 1..Len(sts) : InDoubtI(sts[k]), E.res)
             /\ ("whole" \in DOMAIN E /\ E.ret = 0 /\ Known(E.whole)) => ChunkLoudness(E, xs, inst[E.whole])
    [] E.ev = "channels" -> UNCHANGED inst /\ (Known(E.a) /\ Known(E.b) => SameChannels(E))
    [] E.ev = "chunks" -> UNCHANGED inst /\ ChunkPeaks(E)
    [] E.ev = "eq" -> /\ UNCHANGED inst
                      /\ Known(E.a) /\ Known(E.b) => Equal(E)
    [] E.ev = "level" -> UNCHANGED inst /\ (Known(E.i) => Stated(E))
    [] E.ev = "diff" -> UNCHANGED inst /\ (Known(E.a) /\ Known(E.b) => Scaled(E))
    [] E.ev = "destroy" ->
         LET x == Get(E.i) IN
         /\ Env
         /\ IF x.lost THEN TRUE ELSE RetOk(E.i, {0})
         /\ Update(E.i, NoInst)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ inst = <<>>
Next == /\ IF l <= Len(Events) THEN TRUE ELSE Forget(Sigs) /\ FALSE
        /\ l' = l + 1 /\ UNCHANGED tr /\ Step
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE Len(Traces[k].events) + 1 + Total(k - 1)
(* every event of every trace was taken *)
Consumed ==
  /\ PrintT(<<"CONSUMED", ToJson([traces |-> Len(Traces), states |-> TLCGet("stats").distinct, compared |-> TickCount(1),
                                  numbers |-> TickCount(2), open |-> TickCount(3), mismatches |-> TickCount(4)])>>)
  /\ TLCGet("stats").distinct = Total(Len(Traces))
=============================================================================
