------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers.  A float is the string of the 16 hexadecimal *)
(* digits of its bits.  The operators are given to TLC by                  *)
(* java/Float64.java, which only uses the arithmetic of the JVM (IEEE-754  *)
(* doubles, round to nearest even) and java.math.BigDecimal.  This is the  *)
(* only part of the specification that is not TLA+ and it is part of the   *)
(* trusted base.                                                           *)
(***************************************************************************)
FAdd(a, b) == CHOOSE x : FALSE
FSub(a, b) == CHOOSE x : FALSE
FMul(a, b) == CHOOSE x : FALSE
FDiv(a, b) == CHOOSE x : FALSE
FNeg(a)    == CHOOSE x : FALSE
FAbs(a)    == CHOOSE x : FALSE
FLt(a, b)  == CHOOSE x : FALSE
FEq(a, b)  == CHOOSE x : FALSE     \* numeric equality: 0 = -0, NaN # NaN
FParse(s)  == CHOOSE x : FALSE     \* nearest double of a decimal literal (bytes), "ERR" when infinite
FStr(a)    == CHOOSE x : FALSE     \* shortest decimal without exponent that reads back as a (bytes)
FExactStr(a) == CHOOSE x : FALSE   \* all decimal digits of a
FIsIntegral(a) == CHOOSE x : FALSE \* finite, no fractional part and |a| < 2^63
FOfInt(s)  == CHOOSE x : FALSE     \* nearest double of a decimal integer (bytes)
FToInt(a, mode) == CHOOSE x : FALSE \* "trunc"|"ceil"|"floor"|"round" -> decimal (bytes); <<>> when not an int64
FDecMinusOne(a) == CHOOSE x : FALSE \* nearest double of shortest decimal of a, minus one
=============================================================================
