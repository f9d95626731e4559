------------------------------- MODULE Formats -------------------------------
(* The four sample formats as fractions of full scale, in IEEE arithmetic:  *)
(* every 16 bit value has the same fraction as i16, i32, f32 and f64, and   *)
(* every such fraction survives the conversion to binary32 that the         *)
(* interpolator makes.  States: blocks of 256 values.                       *)
EXTENDS Integers, Ieee
VARIABLE hi
From16(v) == FInt(v) // FInt(32768)
From32(v) == FInt(v) // FDec("2147483648.0")
(* what the interpolator is fed, from integers: division in binary32 *)
From16as32(v) == FRound32(FRound32(FInt(v)) // FInt(32768))
From32as32(v) == FRound32(FRound32(FInt(v)) // FDec("2147483648.0"))
Init == hi = -128
Next == hi < 127 /\ hi' = hi + 1
Spec == Init /\ [][Next]_hi
Low == {0, 1, 255, 32767, 32768, 65535}
SameEverywhere ==
  \A lo \in 0..255 :
    LET v == hi * 256 + lo
        w == v * 65536
        x == From16(v)
    IN  /\ FSameBits(x, From32(w)) /\ FSameBits(x, FRound32(x))
        /\ FSameBits(x, From16as32(v)) /\ FSameBits(x, From32as32(w))
        /\ \A l \in Low : FSameBits(FRound32(From32(w + l)), From32as32(w + l))
        /\ FLe(FAbs(x), FInt(1))
=============================================================================
