--------------------------------- MODULE Dsp ---------------------------------
(***************************************************************************)
(* The signals used in tests and their measurement: K-weighting (BS.1770), *)
(* the true-peak interpolator, and sums over them.                         *)
(*                                                                         *)
(* Everything is defined here in terms of the IEEE operators of Ieee.tla.  *)
(* The operators FilteredEnergy, SamplePeakOf, TruePeakOf, ErrorScale,     *)
(* MaxInput, KCoef and NoiseRel are evaluated by java/Dsp.java, which      *)
(* computes the same and remembers filter states; NumTest.tla checks it    *)
(* against the ...Def                                                      *)
(* operators below.                                                        *)
(*                                                                         *)
(* A signal is a record                                                    *)
(*   k    kind: zero, dc, sq, imp, sine, noise                             *)
(*   a    peak value of each channel in 16 bit units (cyclic)              *)
(*   lev  envelope: factor n/32768 of each stretch of h frames (cyclic)    *)
(*   s    seed;  p  period of sq and imp;  fr, rate  frequency of sine     *)
(*   e    everything times 2^e (floating-point formats only)               *)
(*   low  are the 16 bits below the 16 bit value used (i32, f64 only)      *)
(*   f32  is it always fed as f32                                          *)
(*   sp   special samples <<channel, frame, kind>>                         *)
(*   cp   channel c carries what channel cp[c] does without it             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Ieee

Hash(sig, c, i) ==
  LET a == ((i % 32749) * 251 + c * 577 + sig.s) % 32749
      b == (a * a + (i % 32719)) % 32749
  IN  (b * b + a) % 32749
Level(sig, c, i) ==
  (sig.a[((c - 1) % Len(sig.a)) + 1] * sig.lev[((i \div sig.h) % Len(sig.lev)) + 1]) \div 32768
Pi == FDec("3.141592653589793")

(* 16 bit value of channel c, frame i (from 0) *)
Value16(sig, c, i) ==
  LET al == Level(sig, c, i) IN
  CASE sig.k = "zero" -> 0
    [] sig.k = "dc" -> al
    [] sig.k = "sq" -> IF ((i + 7 * c) \div sig.p) % 2 = 0 THEN al ELSE 0 - al
    [] sig.k = "imp" -> IF i % sig.p = 0 THEN al ELSE 0
    [] sig.k = "sine" ->
         FToInt(FFloor((FInt(al) **
           FSin((((FInt(2) ** Pi) ** FRatio(sig.fr, 1000)) ** FInt(i)) // FInt(sig.rate)))
           ++ FDec("0.5")))
    [] sig.k = "noise" -> (Hash(sig, c, i) % (2 * al + 1)) - al
LowBits(sig, c, i) == IF sig.low = 1 THEN (Hash(sig, c, i) * 31 + (i % 65536)) % 65536 ELSE 0

SpecialAt(sig, c, i) == SelectSeq(sig.sp, LAMBDA q : q[1] = c /\ q[2] = i)
SpecialValue(sig, kind) ==
  CASE kind = "min" -> FDec("-1.0")
    [] kind = "max" -> IF sig.low = 1 THEN FRatio(2147483647, 1) // FDec("2147483648.0")
                       ELSE FDec("32767.0") // FDec("32768.0")
    [] kind = "nan" -> FDec("NaN")
    [] kind = "inf" -> FDec("Infinity")
    [] kind = "ninf" -> FDec("-Infinity")
    [] kind = "den" -> FDec("1e-310")
    [] kind = "den32" -> FRound32(FDec("1e-40"))
    [] kind = "big" -> FDec("1e300")
    [] kind = "big32" -> FRound32(FDec("3e38"))
    [] kind = "nz" -> FDec("-0.0")

(* the sample as a fraction of full scale *)
X(sig, ch, i) ==
  LET c == IF ch <= Len(sig.cp) THEN sig.cp[ch] ELSE ch
      q == SpecialAt(sig, c, i)
      exact == IF q # <<>> THEN SpecialValue(sig, q[1][3])
               ELSE FScale(((FInt(Value16(sig, c, i)) ** FInt(65536)) ++ FInt(LowBits(sig, c, i)))
                           // FDec("2147483648.0"), sig.e)
  IN  IF sig.f32 = 1 THEN FRound32(exact) ELSE exact

(* tells java/Dsp.java that nothing more will be asked about these signals *)
Forget(sigs) == TRUE

-----------------------------------------------------------------------------
(* K-weighting: both stages transformed bilinearly for the rate and        *)
(* multiplied out to one filter of fourth order                            *)
KCoefDef(rate) ==
  LET one == FInt(1)
      two == FInt(2)
      (* stage 1: high shelf *)
      K == FTan((Pi ** FDec("1681.974450955533")) // FInt(rate))
      Q == FDec("0.7071752369554196")
      Vh == FPow(FInt(10), FDec("3.999843853973347") // FInt(20))
      Vb == FPow(Vh, FDec("0.4996667741545416"))
      KK == K ** K
      a0 == (one ++ (K // Q)) ++ KK
      pb0 == ((Vh ++ ((Vb ** K) // Q)) ++ KK) // a0
      pb1 == (two ** (KK -- Vh)) // a0
      pb2 == ((Vh -- ((Vb ** K) // Q)) ++ KK) // a0
      pa1 == (two ** (KK -- one)) // a0
      pa2 == ((one -- (K // Q)) ++ KK) // a0
      (* stage 2: high pass with numerator 1, -2, 1 *)
      L == FTan((Pi ** FDec("38.13547087602444")) // FInt(rate))
      R == FDec("0.5003270373238773")
      LL == L ** L
      c0 == (one ++ (L // R)) ++ LL
      ra1 == (two ** (LL -- one)) // c0
      ra2 == ((one -- (L // R)) ++ LL) // c0
      m2(x) == FNeg(two ** x)
  IN  [ b |-> << pb0, m2(pb0) ++ pb1, (pb0 ++ m2(pb1)) ++ pb2, pb1 ++ m2(pb2), pb2 >>,
        a |-> << one, ra1 ++ pa1, (ra2 ++ (pa1 ** ra1)) ++ pa2,
                 (pa1 ** ra2) ++ (pa2 ** ra1), pa2 ** ra2 >> ]
KCoef(rate) == KCoefDef(rate)

(* one sample through the filter; w are its last four internal values *)
KStep(co, w, x) ==
  LET w0 == (((x -- (co.a[2] ** w[1])) -- (co.a[3] ** w[2]))
             -- (co.a[4] ** w[3])) -- (co.a[5] ** w[4])
  IN  [ w |-> <<w0, w[1], w[2], w[3]>>,
        y |-> (((((co.b[1] ** w0) ++ (co.b[2] ** w[1])) ++ (co.b[3] ** w[2]))
             ++ (co.b[4] ** w[3])) ++ (co.b[5] ** w[4])) ]

-----------------------------------------------------------------------------
(* fed: runs <<signal, from, len, used, seed>>, see Meter.tla *)
FZero == <<0, 0>>
Frames(fed) ==    \* <<signal, frame, run>>
  FlattenSeq([k \in 1..Len(fed) |-> [i \in 1..fed[k][3] |-> <<fed[k][1], fed[k][2] + i - 1, k>>]])

(* filtered values of channel c; frames during which it was unused are 0 and do not reach the filter *)
FilteredDef(sigs, rate, fed, c) ==
  LET co == KCoefDef(rate)
      go(acc, f) == IF ~fed[f[3]][4][c] THEN [acc EXCEPT !.y = Append(@, FZero)]
                    ELSE LET r == KStep(co, acc.w, X(sigs[f[1]], c, f[2]))
                         IN  [w |-> r.w, y |-> Append(acc.y, r.y)]
  IN  FoldLeft(go, [w |-> <<FZero, FZero, FZero, FZero>>, y |-> <<>>], Frames(fed)).y

(* the newest n frames added (not seeded) after the first `from` frames of fed *)
NewestAdded(fed, from, n) ==
  LET fr == Frames(fed)
      added == SelectSeq([i \in 1..Len(fr) |-> i], LAMBDA i : i > from /\ ~fed[fr[i][3]][5])
  IN  IF Len(added) <= n THEN added ELSE SubSeq(added, Len(added) - n + 1, Len(added))

FilteredEnergyDef(sigs, rate, fed, c, from, n) ==
  LET y == FilteredDef(sigs, rate, fed, c)
  IN  FoldLeft(LAMBDA acc, i : acc ++ (y[i] ** y[i]), FZero, NewestAdded(fed, from, n))
FilteredEnergy(sigs, rate, fed, c, from, n) == FilteredEnergyDef(sigs, rate, fed, c, from, n)

FMaxOf(s) == FoldLeft(LAMBDA acc, x : IF FLt(acc, x) THEN x ELSE acc, FZero, s)

(* The scale of the rounding errors in the newest n added frames: the       *)
(* largest magnitude that went into the filter or came out of it. What was  *)
(* before those frames counts less the longer ago it was: the filter        *)
(* forgets with the radius of its outermost poles, taken to the power 0.8.  *)
(* Beyond 1e140, where energies overflow, nothing is forgotten.             *)
DecayDef(rate) ==
  LET one == FInt(1)
      K == FTan((Pi ** FDec("1681.974450955533")) // FInt(rate))
      L == FTan((Pi ** FDec("38.13547087602444")) // FInt(rate))
      r(k, q) == ((one -- (k // q)) ++ (k ** k)) // ((one ++ (k // q)) ++ (k ** k))
  IN  FPow(FMaxOf(<<FAbs(r(K, FDec("0.7071752369554196"))), FAbs(r(L, FDec("0.5003270373238773")))>>), FDec("0.4"))
(* Rounding errors of a filter relative to that scale grow as the poles     *)
(* approach the unit circle: 3e-10 at 60 kHz, for example                   *)
NoiseRelDef(rate) == LET d == FInt(1) -- FPow(DecayDef(rate), FRatio(5, 4))
                     IN  FDec("1e-13") ++ (FDec("4e-15") // (d ** d))
NoiseRel(rate) == NoiseRelDef(rate)
ErrorScaleDef(sigs, rate, fed, c, n) ==
  LET y == FilteredDef(sigs, rate, fed, c)
      fr == Frames(fed)
      go(acc, i) ==
        LET d == acc.d
            held == IF FLt(d, FDec("1e140")) THEN d ** DecayDef(rate) ELSE d
            now == IF fed[fr[i][3]][4][c] THEN FMaxOf(<<held, FAbs(y[i]), FAbs(X(sigs[fr[i][1]], c, fr[i][2]))>>) ELSE d
        IN  [d |-> now, all |-> Append(acc.all, now)]
      all == FoldLeft(go, [d |-> FZero, all |-> <<>>], [i \in 1..Len(fr) |-> i]).all
      newest == NewestAdded(fed, 0, n)
      start == IF newest = <<>> THEN Len(fr) ELSE newest[1] - 1
  IN  FMaxOf(SubSeq(all, IF start < 1 THEN 1 ELSE start, Len(all)))
ErrorScale(sigs, rate, fed, c, n) == ErrorScaleDef(sigs, rate, fed, c, n)

SamplePeakDef(sigs, sig, c, from, len) ==
  FMaxOf([i \in 1..len |-> FAbs(X(sigs[sig], c, from + i - 1))])
SamplePeakOf(sigs, sig, c, from, len) == SamplePeakDef(sigs, sig, c, from, len)

-----------------------------------------------------------------------------
(* The interpolator: 48 taps of a Hanning-windowed sinc, factor 4 or 2 *)
Factor(rate) == IF rate < 96000 THEN 4 ELSE IF rate < 192000 THEN 2 ELSE 1
Tap(factor, j) ==       \* j from 0
  LET w == FDec("0.5") ** (FInt(1) -- FCos(((FInt(2) ** Pi) ** FInt(j)) // FInt(48)))
      m == (FInt(j - 24) ** Pi) // FInt(factor)
  IN  FRound32(IF j = 24 THEN w ELSE (w ** FSin(m)) // m)

(* the inputs of channel c as binary32, oldest first *)
InputsDef(sigs, fed, c) ==
  LET fr == Frames(fed) IN [i \in 1..Len(fr) |-> FRound32(X(sigs[fr[i][1]], c, fr[i][2]))]

(* Outputs for input k: sum over the last 48/factor inputs, in binary32 *)
Interpolated(factor, x, k, phase) ==      \* phase from 0
  FoldLeft(LAMBDA acc, j :
      FRound32(acc ++ FRound32((IF k - j >= 1 THEN x[k - j] ELSE FZero) ** Tap(factor, j * factor + phase))),
    FZero, [j \in 1..(48 \div factor) |-> j - 1])

TruePeakDef(sigs, rate, fed, c, len) ==
  LET x == InputsDef(sigs, fed, c)
      f == Factor(rate)
  IN  FMaxOf(FlattenSeq([k \in 1..len |-> [p \in 1..f |->
        FAbs(Interpolated(f, x, Len(x) - len + k, p - 1))]]))
TruePeakOf(sigs, rate, fed, c, len) == TruePeakDef(sigs, rate, fed, c, len)

MaxInputDef(sigs, fed, c) == LET x == InputsDef(sigs, fed, c) IN FMaxOf([k \in 1..Len(x) |-> FAbs(x[k])])
MaxInput(sigs, fed, c) == MaxInputDef(sigs, fed, c)
=============================================================================
