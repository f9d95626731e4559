----------------------------- MODULE HopsProof -----------------------------
(* The theorems of Hops, for tlapm. *)
EXTENDS Hops, TLAPS

LEMMA Prod == \A a, b \in Nat : a * b \in Nat
  OBVIOUS
LEMMA Step == \A a, h \in Nat : (a + 1) * h = a * h + h
  OBVIOUS

LEMMA Mono == \A a, b, h \in Nat : a < b => a * h + h <= b * h
<1> SUFFICES ASSUME NEW a \in Nat, NEW b \in Nat, NEW h \in Nat, a < b PROVE a * h + h <= b * h
  OBVIOUS
<1>1. PICK d \in Nat : b = a + 1 + d
  <2>1. b - a - 1 \in Nat  OBVIOUS
  <2>2. b = a + 1 + (b - a - 1)  OBVIOUS
  <2> QED BY <2>1, <2>2
<1>2. b * h = a * h + h + d * h  BY <1>1
<1>3. d * h \in Nat /\ a * h \in Nat  BY Prod
<1> QED BY <1>2, <1>3

LEMMA Cancel == \A a, b, h \in Nat : h > 0 /\ a * h = b * h => a = b
<1> SUFFICES ASSUME NEW a \in Nat, NEW b \in Nat, NEW h \in Nat, h > 0, a * h = b * h PROVE a = b
  OBVIOUS
<1>0. a * h \in Nat /\ b * h \in Nat  BY Prod
<1>1. ASSUME a < b PROVE FALSE
  <2>1. a * h + h <= b * h  BY <1>1, Mono
  <2> QED BY <2>1, <1>0
<1>2. ASSUME b < a PROVE FALSE
  <2>1. b * h + h <= a * h  BY <1>2, Mono
  <2> QED BY <2>1, <1>0
<1> QED BY <1>1, <1>2

LEMMA Positive == \A a, h \in Nat : a > 0 /\ h > 0 => a * h \in Nat /\ a * h > 0
<1> SUFFICES ASSUME NEW a \in Nat, NEW h \in Nat, a > 0, h > 0 PROVE a * h \in Nat /\ a * h > 0
  OBVIOUS
<1>1. 0 * h + h <= a * h  BY Mono
<1>2. a * h \in Nat  BY Prod
<1> QED BY <1>1, <1>2

-----------------------------------------------------------------------------
LEMMA Beginning == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>0. /\ Sizes /\ H \in Nat /\ H > 0 /\ A \in Nat /\ A >= MB
      /\ fed = 0 /\ idx = 0 /\ needed = MB * H /\ stc = 0 /\ blocks = 0 /\ sts = 0
      /\ slot = MB /\ sth = MB /\ laps = 0
  BY DEF Init, Sizes
<1>1. MB * H \in Nat /\ MB * H > 0  BY <1>0, Positive, Shape
<1>2. SS * 0 = 0 /\ A * 0 = 0  BY <1>0, Shape
<1>3. TypeOK  BY <1>0, <1>1, Shape DEF TypeOK
<1>4. Small  BY <1>0, <1>1, Shape DEF Small
<1>5. Ends
  <2>1. 0 + MB * H = MB * H /\ 0 + MB = MB  BY <1>1, Shape
  <2> QED BY <2>1, <1>0 DEF Ends
<1>6. Total
  <2>1. 0 + MB = MB + 0 /\ ~(0 > 0)  BY Shape
  <2> QED BY <2>1, <1>0, <1>2 DEF Total
<1> QED BY <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA AtRestart == ASSUME NEW h \in Nat, NEW a \in Nat, Restart(h, a) PROVE Inv'
<1>0. /\ h > 0 /\ a >= MB /\ H' = h /\ A' = a
      /\ fed' = 0 /\ idx' = 0 /\ needed' = MB * h /\ stc' = 0 /\ blocks' = 0 /\ sts' = 0
      /\ slot' = MB /\ sth' = MB /\ laps' = 0
  BY DEF Restart
<1>1. MB * h \in Nat /\ MB * h > 0  BY <1>0, Positive, Shape
<1>2. SS * 0 = 0 /\ a * 0 = 0  BY Shape
<1>3. TypeOK'  BY <1>0, <1>1, Shape DEF TypeOK, Sizes
<1>4. Small'  BY <1>0, <1>1, Shape DEF Small
<1>5. Ends'
  <2>1. 0 + MB * h = MB * h /\ 0 + MB = MB  BY <1>1, Shape
  <2> QED BY <2>1, <1>0 DEF Ends
<1>6. Total'
  <2>1. 0 + MB = MB + 0 /\ ~(0 > 0)  BY Shape
  <2> QED BY <2>1, <1>0, <1>2 DEF Total
<1> QED BY <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA AtPartial == ASSUME Inv, NEW n \in Nat, n > 0, Partial(n) PROVE Inv'
<1>2. /\ n < needed /\ fed' = fed + n /\ idx' = idx + n /\ needed' = needed - n /\ stc' = stc + n
      /\ H' = H /\ A' = A /\ blocks' = blocks /\ sts' = sts /\ slot' = slot /\ sth' = sth /\ laps' = laps
  BY DEF Partial
<1>3. /\ fed' + needed' = fed + needed /\ idx' + needed' = idx + needed /\ stc' + needed' = stc + needed
      /\ fed' \in Nat /\ idx' \in Nat /\ needed' \in Nat /\ stc' \in Nat /\ needed' > 0 /\ needed' <= needed
  <2>1. fed \in Nat /\ idx \in Nat /\ needed \in Nat /\ stc \in Nat  BY DEF Inv, TypeOK
  <2> QED BY <2>1, <1>2
<1>4. needed' <= IF blocks' = 0 THEN MB * H ELSE H
  <2>1. needed \in Nat /\ H \in Nat /\ needed <= IF blocks = 0 THEN MB * H ELSE H  BY DEF Inv, TypeOK, Small, Sizes
  <2>2. MB * H \in Nat  BY <2>1, Prod, Shape
  <2> QED BY <2>1, <2>2, <1>2, <1>3
<1>5. TypeOK'  BY <1>2, <1>3 DEF Inv, TypeOK, Sizes
<1>6. Small'  BY <1>2, <1>3, <1>4 DEF Inv, Small
<1>7. Ends'  BY <1>2, <1>3 DEF Inv, Ends
<1>8. Total'  BY <1>2 DEF Inv, Total
<1> QED BY <1>5, <1>6, <1>7, <1>8 DEF Inv

LEMMA AtComplete == ASSUME Inv, Complete PROVE Inv'
<1>1. /\ H \in Nat /\ H > 0 /\ A \in Nat /\ A >= MB
      /\ fed \in Nat /\ idx \in Nat /\ needed \in Nat /\ stc \in Nat /\ blocks \in Nat /\ sts \in Nat
      /\ slot \in Nat /\ sth \in Nat /\ laps \in Nat
  BY DEF Inv, TypeOK, Sizes
<1>2. needed > 0 /\ slot >= 1 /\ slot <= A /\ sth >= 1 /\ sth <= SB
  BY DEF Inv, Small
<1>3. idx + needed = slot * H /\ stc + needed = sth * H /\ fed + needed = (blocks + MB) * H
  BY DEF Inv, Ends
<1>4. blocks + MB = sth + SS * sts /\ (sts > 0 => sth > SB - SS) /\ blocks + MB = slot + A * laps
  BY DEF Inv, Total
<1>5. /\ fed' = fed + needed /\ blocks' = blocks + 1 /\ needed' = H /\ H' = H /\ A' = A
  BY DEF Complete
<1>6. idx + needed = A * H <=> slot = A
  BY Cancel, <1>1, <1>3
<1>7. stc + needed = SB * H <=> sth = SB
  BY Cancel, <1>1, <1>3, Shape
<1>8. (slot = A /\ idx' = 0 /\ laps' = laps + 1 /\ slot' = 1) \/ (slot # A /\ idx' = idx + needed /\ laps' = laps /\ slot' = slot + 1)
  BY <1>6 DEF Complete
<1>9. \/ (sth = SB /\ stc' = (SB - SS) * H /\ sts' = sts + 1 /\ sth' = SB - SS + 1)
      \/ (sth # SB /\ stc' = stc + needed /\ sts' = sts /\ sth' = sth + 1)
  BY <1>7 DEF Complete
<1>10. /\ slot' \in Nat /\ idx' \in Nat /\ laps' \in Nat /\ slot' >= 1 /\ slot' <= A
       /\ idx' + needed' = slot' * H
       /\ blocks' + MB = slot' + A * laps'
  <2>1. CASE slot = A
    <3>1. idx' = 0 /\ laps' = laps + 1 /\ slot' = 1  BY <2>1, <1>8
    <3>2. 1 * H = 0 + H  BY <1>1
    <3>3. A * (laps + 1) = A * laps + A /\ A * laps \in Nat  BY <1>1, Prod
    <3>4. blocks + 1 + MB = 1 + A * (laps + 1)  BY <2>1, <3>3, <1>1, <1>4, Shape
    <3> QED BY <3>1, <3>2, <3>4, <1>1, <1>5, Shape
  <2>2. CASE slot # A
    <3>1. idx' = idx + needed /\ laps' = laps /\ slot' = slot + 1  BY <2>2, <1>8
    <3>2. (slot + 1) * H = slot * H + H  BY Step, <1>1
    <3>3. slot + 1 <= A /\ slot + 1 >= 1 /\ slot + 1 \in Nat /\ idx + needed \in Nat  BY <2>2, <1>1, <1>2
    <3>4. idx' + needed' = slot' * H  BY <3>1, <3>2, <1>3, <1>5
    <3>5. A * laps \in Nat  BY <1>1, Prod
    <3>6. blocks + 1 + MB = slot + 1 + A * laps  BY <3>5, <1>4, <1>1, Shape
    <3> QED BY <3>1, <3>3, <3>4, <3>6, <1>1, <1>5
  <2> QED BY <2>1, <2>2
<1>11. /\ sth' \in Nat /\ stc' \in Nat /\ sts' \in Nat /\ sth' >= 1 /\ sth' <= SB
       /\ stc' + needed' = sth' * H
       /\ blocks' + MB = sth' + SS * sts'
       /\ sts' > 0 => sth' > SB - SS
  <2>1. CASE sth = SB
    <3>1. stc' = (SB - SS) * H /\ sts' = sts + 1 /\ sth' = SB - SS + 1  BY <2>1, <1>9
    <3>2. SB - SS \in Nat /\ SB - SS + 1 \in Nat /\ SB - SS + 1 >= 1 /\ SB - SS + 1 <= SB /\ SB - SS + 1 > SB - SS  BY Shape
    <3>3. (SB - SS) * H \in Nat /\ (SB - SS + 1) * H = (SB - SS) * H + H  BY <3>2, <1>1, Step, Prod
    <3>4. SS * (sts + 1) = SS * sts + SS /\ SS * sts \in Nat  BY <1>1, Prod, Shape
    <3>5. blocks + 1 + MB = SB - SS + 1 + SS * (sts + 1)  BY <2>1, <3>4, <1>1, <1>4, Shape
    <3> QED BY <3>1, <3>2, <3>3, <3>5, <1>1, <1>5
  <2>2. CASE sth # SB
    <3>1. stc' = stc + needed /\ sts' = sts /\ sth' = sth + 1  BY <2>2, <1>9
    <3>2. (sth + 1) * H = sth * H + H  BY Step, <1>1
    <3>3. stc' + needed' = sth' * H  BY <3>1, <3>2, <1>3, <1>5
    <3>4. SS * sts \in Nat  BY <1>1, Prod, Shape
    <3>5. blocks + 1 + MB = sth + 1 + SS * sts  BY <3>4, <1>4, <1>1, Shape
    <3>6. sth + 1 >= 1 /\ sth + 1 <= SB /\ sth + 1 \in Nat /\ stc + needed \in Nat /\ (sts > 0 => sth + 1 > SB - SS)
      BY <2>2, <1>1, <1>2, <1>4, Shape
    <3> QED BY <3>1, <3>3, <3>5, <3>6, <1>1, <1>5
  <2> QED BY <2>1, <2>2
<1>12. fed' \in Nat /\ fed' + needed' = (blocks' + MB) * H
  <2>1. blocks + MB \in Nat /\ blocks + 1 + MB = blocks + MB + 1  BY <1>1, Shape
  <2>2. (blocks + MB + 1) * H = (blocks + MB) * H + H  BY <2>1, Step, <1>1
  <2> QED BY <2>1, <2>2, <1>1, <1>3, <1>5
<1>13. TypeOK'  BY <1>1, <1>5, <1>10, <1>11, <1>12 DEF TypeOK, Sizes
<1>14. Small'
  <2>1. needed' > 0 /\ ~(blocks' = 0) /\ needed' <= H'  BY <1>1, <1>5
  <2> QED BY <2>1, <1>5, <1>10, <1>11 DEF Small
<1>15. Ends'  BY <1>5, <1>10, <1>11, <1>12 DEF Ends
<1>16. Total'  BY <1>5, <1>10, <1>11 DEF Total
<1> QED BY <1>13, <1>14, <1>15, <1>16 DEF Inv

THEOREM Holds == Spec => []Inv
<1>1. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars  BY <2>1 DEF vars, Inv, TypeOK, Sizes, Small, Ends, Total
  <2> QED BY <2>1, AtComplete, AtRestart, AtPartial DEF Next
<1> QED BY <1>1, Beginning, PTL DEF Spec

THEOREM InBuffer == Inv => Fits
<1> SUFFICES ASSUME Inv PROVE Fits
  OBVIOUS
<1>1. H \in Nat /\ A \in Nat /\ slot \in Nat /\ slot <= A /\ idx + needed = slot * H
  BY DEF Inv, TypeOK, Sizes, Small, Ends
<1>2. slot * H \in Nat /\ A * H \in Nat  BY <1>1, Prod
<1>3. CASE slot = A  BY <1>1, <1>2, <1>3 DEF Fits
<1>4. CASE slot < A
  <2>1. slot * H + H <= A * H  BY <1>1, <1>4, Mono
  <2> QED BY <2>1, <1>1, <1>2 DEF Fits
<1> QED BY <1>1, <1>3, <1>4

THEOREM Counts == Inv => BlocksOf /\ ShortTermOf
<1> SUFFICES ASSUME Inv PROVE BlocksOf /\ ShortTermOf
  OBVIOUS
<1>1. BlocksOf
  <2>1. /\ fed \in Nat /\ needed \in Nat /\ needed > 0 /\ (blocks > 0 => needed <= H) /\ blocks \in Nat /\ H \in Nat
        /\ fed + needed = (blocks + MB) * H
    BY DEF Inv, TypeOK, Sizes, Small, Ends
  <2>2. blocks + (MB - 1) \in Nat /\ blocks + MB = blocks + (MB - 1) + 1  BY <2>1, Shape
  <2>3. (blocks + MB) * H = (blocks + (MB - 1)) * H + H /\ (blocks + (MB - 1)) * H \in Nat  BY <2>1, <2>2, Step, Prod
  <2> QED BY <2>1, <2>3 DEF BlocksOf
<1>2. ShortTermOf
  <2>1. /\ sth \in Nat /\ sts \in Nat /\ blocks \in Nat /\ sth <= SB /\ blocks + MB = sth + SS * sts
        /\ (sts > 0 => sth > SB - SS)
    BY DEF Inv, TypeOK, Small, Total
  <2>2. CASE sts = 0
    <3>1. SS * 0 = 0  BY Shape
    <3> QED BY <2>1, <2>2, <3>1, Shape DEF ShortTermOf
  <2>3. CASE sts > 0
    <3>1. SS * sts = SS * (sts - 1) + SS /\ SS * (sts - 1) \in Nat
      <4>1. sts - 1 \in Nat /\ sts = (sts - 1) + 1  BY <2>1, <2>3
      <4>2. SS * ((sts - 1) + 1) = SS * (sts - 1) + SS  BY <4>1, Shape
      <4> QED BY <4>1, <4>2, Prod, Shape
    <3> QED BY <2>1, <2>3, <3>1, Shape DEF ShortTermOf
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2

THEOREM Index == Inv => IndexOf
<1> SUFFICES ASSUME Inv PROVE IndexOf
  OBVIOUS
<1>0. /\ H \in Nat /\ A \in Nat /\ idx \in Nat /\ needed \in Nat /\ fed \in Nat /\ laps \in Nat /\ slot \in Nat /\ needed > 0
      /\ idx + needed = slot * H /\ fed + needed = (blocks + MB) * H /\ blocks + MB = slot + A * laps
  BY DEF Inv, TypeOK, Sizes, Small, Ends, Total
<1>1. (slot + A * laps) * H = slot * H + laps * (A * H)  BY <1>0
<1>2. fed = idx + laps * (A * H)
  <2>1. A * H \in Nat /\ laps * (A * H) \in Nat  BY <1>0, Prod
  <2>2. fed + needed = (idx + needed) + laps * (A * H)  BY <1>0, <1>1
  <2> QED BY <2>1, <2>2, <1>0
<1>3. idx + needed <= A * H  BY InBuffer DEF Fits
<1>4. idx < A * H
  <2>1. A * H \in Nat  BY <1>0, Prod
  <2> QED BY <2>1, <1>3, <1>0
<1> QED BY <1>2, <1>4 DEF IndexOf
=============================================================================
