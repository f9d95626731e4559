------------------------------ MODULE NumTest ------------------------------
(* java/Dsp.java against the definitions of Dsp.tla, on short histories *)
EXTENDS Dsp, TLC
VARIABLE done
Sig(k, seed, e, low, f32, sp) ==
  [k |-> k, a |-> <<20000, 9000, 32767>>, lev |-> <<32768, 10000, 0, 25000>>, s |-> seed, h |-> 7, p |-> 3,
   e |-> e, low |-> low, f32 |-> f32, fr |-> 997000, rate |-> 48000, sp |-> sp, cp |-> IF seed = 9 THEN <<2, 3, 1>> ELSE <<>>]
Sigs == << Sig("noise", 5, 0, 0, 0, <<>>), Sig("sq", 1, 0, 0, 0, <<>>), Sig("sine", 0, 0, 0, 0, <<>>),
           Sig("imp", 3, -9, 0, 0, <<<<1, 3, "min">>, <<2, 4, "big">>>>), Sig("noise", 77, 3, 1, 0, <<<<3, 2, "max">>>>),
           Sig("dc", 0, 0, 0, 1, <<<<1, 20, "nan">>, <<2, 21, "inf">>>>), Sig("noise", 9, 1, 1, 1, <<>>) >>
U(a, b, c) == <<a, b, c>>
Feds ==
  << << <<1, 0, 30, U(TRUE, TRUE, TRUE), FALSE>> >>,
     << <<1, 0, 9, U(TRUE, FALSE, TRUE), FALSE>>, <<2, 4, 11, U(TRUE, TRUE, TRUE), TRUE>>, <<1, 9, 8, U(FALSE, TRUE, TRUE), FALSE>> >>,
     << <<1, 0, 4, U(TRUE, FALSE, TRUE), FALSE>>, <<2, 4, 11, U(TRUE, TRUE, TRUE), TRUE>>, <<3, 9, 18, U(FALSE, TRUE, TRUE), FALSE>> >>,
     << <<4, 0, 10, U(TRUE, TRUE, TRUE), FALSE>>, <<5, 0, 3, U(TRUE, FALSE, TRUE), TRUE>>, <<7, 100, 2, U(TRUE, TRUE, TRUE), FALSE>>,
        <<5, 2, 12, U(TRUE, TRUE, TRUE), FALSE>> >>,
     << <<7, 50000, 14, U(TRUE, TRUE, FALSE), FALSE>>, <<6, 15, 9, U(TRUE, TRUE, TRUE), FALSE>> >>,
     << <<1, 0, 9, U(TRUE, FALSE, TRUE), FALSE>>, <<2, 4, 15, U(TRUE, TRUE, TRUE), TRUE>> >> >>
Rates == <<16, 8000, 48000, 96000, 191999, 192000, 2822400>>
Same(x, y) == (FIsNaN(x) /\ FIsNaN(y)) \/ FSameBits(x, y)
Near(x, y) == Same(x, y) \/ FLe(FAbs(x -- y), FDec("1e-12") ** FAbs(y))
Total(fed) == FoldLeft(LAMBDA acc, r : acc + r[3], 0, fed)
Case(f, rate) ==
  LET fed == Feds[f] IN
  \A c \in 1..3 :
    /\ \A from \in {0, 7, 12} : \A n \in {1, 6, 40} :
         Near(FilteredEnergy(Sigs, rate, fed, c, from, n), FilteredEnergyDef(Sigs, rate, fed, c, from, n))
    /\ Same(MaxInput(Sigs, fed, c), MaxInputDef(Sigs, fed, c))
    /\ \A n \in {1, 4, 6, 13, 40} :
         LET m == ErrorScale(Sigs, rate, fed, c, n)  d == ErrorScaleDef(Sigs, rate, fed, c, n)
         IN  Same(m, d) \/ (FLe(d ** FDec("0.999999999999"), m) /\ FLe(m, d ** FDec("1.000000000001")))
    /\ rate < 192000 => \A len \in {1, Total(fed)} :
         Same(TruePeakOf(Sigs, rate, fed, c, len), TruePeakDef(Sigs, rate, fed, c, len))
    /\ \A q \in 1..7 : Same(SamplePeakOf(Sigs, q, c, 2, 25), SamplePeakDef(Sigs, q, c, 2, 25))
Coefs == \A rate \in {Rates[k] : k \in 1..Len(Rates)} : /\ KCoef(rate) = KCoefDef(rate)
                                                             /\ Near(NoiseRel(rate), NoiseRelDef(rate))
Init == done = 0
Next == /\ done < Len(Feds) * Len(Rates)
        /\ Assert(Coefs, "coefficients")
        /\ LET f == (done \div Len(Rates)) + 1
               r == Rates[(done % Len(Rates)) + 1]
           IN  Assert(Case(f, r), <<"differs", f, r>>)
        /\ done' = done + 1
=============================================================================
