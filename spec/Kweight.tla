------------------------------- MODULE Kweight -------------------------------
(* The filter and interpolator definitions of Dsp.tla against what is       *)
(* published about them: at 48 kHz the coefficients of ITU-R BS.1770 annex  *)
(* 1 (tables 1 and 2), at every rate a stable filter with -3.01 LUFS for a  *)
(* full-scale 997 Hz sine; an interpolator whose phases have unit gain at   *)
(* 0 Hz and that is symmetric.  States: sample rates.                       *)
EXTENDS Dsp, TLC
VARIABLE n
Rates == <<8000, 8001, 11025, 12000, 16000, 22050, 24000, 32000, 37800, 44056, 44100, 47250, 48000, 50000, 50400, 64000, 88200,
           95999, 96000, 96001, 176400, 191999, 192000, 192001, 352800, 384000, 705600, 768000, 1411200, 2822400>>
Init == n = 1
Next == n < Len(Rates) /\ n' = n + 1
Spec == Init /\ [][Next]_n
Rate == Rates[n]
Co == KCoefDef(Rate)
Within(a, b, tol) == FLe(FAbs(a -- b), tol)
(* product of the published biquads *)
P(b, c) == << b[1] ** c[1], (b[1] ** c[2]) ++ (b[2] ** c[1]), ((b[1] ** c[3]) ++ (b[2] ** c[2])) ++ (b[3] ** c[1]),
              (b[2] ** c[3]) ++ (b[3] ** c[2]), b[3] ** c[3] >>
B1 == <<FDec("1.53512485958697"), FDec("-2.69169618940638"), FDec("1.19839281085285")>>
A1 == <<FInt(1), FDec("-1.69065929318241"), FDec("0.73248077421585")>>
B2 == <<FInt(1), FInt(-2), FInt(1)>>
A2 == <<FInt(1), FDec("-1.99004745483398"), FDec("0.99007225036621")>>
Published == Rate = 48000 => \A k \in 1..5 : Within(Co.b[k], P(B1, B2)[k], FDec("1e-10")) /\ Within(Co.a[k], P(A1, A2)[k], FDec("1e-10"))
(* |sum c_k z^-k|^2 at frequency f *)
Power(c, f) ==
  LET w(k) == (((FInt(2) ** Pi) ** FInt(f)) ** FInt(k)) // FInt(Rate)
      re == FoldLeft(LAMBDA acc, k : acc ++ (c[k] ** FCos(w(k - 1))), FZero, <<1, 2, 3, 4, 5>>)
      im == FoldLeft(LAMBDA acc, k : acc -- (c[k] ** FSin(w(k - 1))), FZero, <<1, 2, 3, 4, 5>>)
  IN  (re ** re) ++ (im ** im)
Gain(f) == FInt(10) ** FLog10(Power(Co.b, f) // Power(Co.a, f))     \* dB
Sine997 == Within((Gain(997) -- FDec("0.691")) -- (FInt(10) ** FLog10(FInt(2))), FDec("-3.01"), FDec("0.05"))
(* shape: silence at 0 Hz, high pass, shelf of +4 dB *)
Shape == /\ FLe(FAbs(((((Co.b[1] ++ Co.b[2]) ++ Co.b[3]) ++ Co.b[4]) ++ Co.b[5])), FDec("1e-9"))
         /\ Rate <= 200000 => FLt(Gain(20), FInt(-10))
         /\ Rate >= 16000 => Within(Gain(6000), FDec("4.0"), FDec("0.35"))
(* Schur-Cohn: all poles inside the unit circle *)
RECURSIVE StableFrom(_)
StableFrom(a) ==
  LET d == Len(a) - 1
      k == a[Len(a)] // a[1]
  IN  d = 0 \/ (FLt(FAbs(k), FInt(1)) /\ StableFrom([i \in 1..d |-> a[i] -- (k ** a[Len(a) + 1 - i])]))
Stable == StableFrom(Co.a)
(* the interpolator *)
F == Factor(Rate)
PhaseSum(p) == FoldLeft(LAMBDA acc, j : acc ++ Tap(F, j * F + p), FZero, [j \in 1..(48 \div F) |-> j - 1])
UnitGain == F > 1 => \A p \in 0..F - 1 : Within(PhaseSum(p), FInt(1), FDec("0.02"))
Symmetric == F > 1 => \A j \in 1..23 : Within(Tap(F, 24 - j), Tap(F, 24 + j), FDec("1e-6"))
Factors == F = (IF Rate < 96000 THEN 4 ELSE IF Rate < 192000 THEN 2 ELSE 1)
=============================================================================
