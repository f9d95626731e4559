-------------------------------- MODULE Ieee --------------------------------
(***************************************************************************)
(* IEEE 754 binary64 numbers, as pairs <<high word, low word>> of 32 bit   *)
(* integers.  TLA+ has no such numbers: the operators are evaluated by     *)
(* java/Ieee.java with the host's arithmetic, which is IEEE 754 itself.    *)
(* Their meaning is that of the operation named in the comment.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Native == CHOOSE x \in {<<0, 0>>} : TRUE   \* placeholder, never evaluated

FDec(s) == Native          \* the double nearest to a decimal literal, given as a string
FInt(n) == Native          \* an integer
FRatio(a, b) == Native     \* a / b, integers
FAdd(a, b) == Native       \* a + b
FSub(a, b) == Native       \* a - b
FMul(a, b) == Native       \* a * b
FDiv(a, b) == Native       \* a / b
FNeg(a) == Native          \* -a
FAbs(a) == Native          \* |a|
FSqrt(a) == Native
FTan(a) == Native
FSin(a) == Native
FCos(a) == Native
FPow(a, b) == Native       \* a to the power b
FLog10(a) == Native
FFloor(a) == Native
FRound32(a) == Native      \* rounded to binary32
FScale(a, n) == Native     \* a * 2^n, n an integer
FLt(a, b) == FALSE         \* a < b (FALSE if either is NaN)
FLe(a, b) == FALSE         \* a <= b
FIsNaN(a) == FALSE
FIsFinite(a) == FALSE
FSameBits(a, b) == FALSE
FToInt(a) == 0             \* truncated to an integer, which must fit 32 bits
FShow(a) == ""             \* decimal rendering, for messages
FSortPairs(ws) == ws       \* <<count, number>> pairs in increasing order of the number (NaN last)

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
=============================================================================
