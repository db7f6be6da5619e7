------------------------------ MODULE RealArith ------------------------------
(* Real numbers for TLC.  A real is a string token: "nan", "inf", "-inf",     *)
(* "n" or "n/d" in lowest terms; decimals such as "0.1" are accepted on input *)
(* (and mean exactly 1/10).  The operators below are evaluated by the Java    *)
(* class RealArith (java/RealArith.java): +,-,*,/ and comparisons are exact   *)
(* rational arithmetic with IEEE-style nan/inf; RPow and RLog10 go through    *)
(* IEEE doubles.  The right-hand sides here are placeholders for SANY.        *)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RDiv(a, b) == CHOOSE x \in {} : TRUE
RNeg(a)    == CHOOSE x \in {} : TRUE
RLt(a, b)  == CHOOSE x \in {} : TRUE     \* false when either is nan
RLe(a, b)  == CHOOSE x \in {} : TRUE
REq(a, b)  == CHOOSE x \in {} : TRUE
RIsNan(a)  == CHOOSE x \in {} : TRUE
RIsFinite(a) == CHOOSE x \in {} : TRUE
RNorm(a)   == CHOOSE x \in {} : TRUE     \* canonical token of a
RFloor(a)  == CHOOSE x \in {} : TRUE     \* an integer
RF16(a)    == CHOOSE x \in {} : TRUE     \* nearest binary16 / 32 / 64, ties to even
RF32(a)    == CHOOSE x \in {} : TRUE
RF64(a)    == CHOOSE x \in {} : TRUE
RPow(a, b) == CHOOSE x \in {} : TRUE
RLog10(a)  == CHOOSE x \in {} : TRUE
RClose(a, b, atol, rtol) == CHOOSE x \in {} : TRUE  \* |a-b| <= atol + rtol*|b|
RBits(x, w) == CHOOSE y \in {} : TRUE   \* code of x rounded to a w-bit IEEE format
RFromBits(c, w) == CHOOSE y \in {} : TRUE
RHalfCode(x) == CHOOSE y \in {} : TRUE  \* the same for 16 bits, as an integer
RHalf(c)   == CHOOSE y \in {} : TRUE    \* value of the half with the (integer) code c
RForce(s) == s                          \* s itself, evaluated at once by TLC
RAbsMax(s) == CHOOSE y \in {} : TRUE    \* largest |x| in a sequence
RShow(a)   == CHOOSE x \in {} : TRUE     \* decimal text, for diagnostics

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RClamp(x, lo, hi) == RMin(hi, RMax(lo, x))
RClamp01(x) == RClamp(x, "0", "1")
RAbs(a) == IF RLt(a, "0") THEN RNeg(a) ELSE a
RLerp(a, b, t) == RAdd(RMul(RSub("1", t), a), RMul(t, b))
RSq(a) == RMul(a, a)
=============================================================================
