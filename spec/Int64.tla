-------------------------------- MODULE Int64 --------------------------------
(***************************************************************************)
(* Two's complement 64-bit integers with wrapping arithmetic.  TLC only    *)
(* has 32-bit integers, so a number is [neg, m] where m is the magnitude   *)
(* in base 10^4, least significant limb first, without leading zero limbs  *)
(* (zero is the empty sequence and is never negative).                     *)
(***************************************************************************)
EXTENDS Bytes

BASE == 10000

RECURSIVE StripZ(_)
StripZ(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN StripZ(SubSeq(m, 1, Len(m) - 1)) ELSE m

Mk(neg, m) == LET z == StripZ(m) IN [neg |-> neg /\ z # <<>>, m |-> z]

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o LimbsOf(n \div BASE)

IntOf(n) == IF n < 0 THEN [neg |-> TRUE, m |-> LimbsOf(-n)] ELSE [neg |-> FALSE, m |-> LimbsOf(n)]
IsSmall(x) == Len(x.m) <= 2               \* |x| < 10^8
SmallMag(x) == Limb(x.m, 1) + BASE * Limb(x.m, 2)
Small(x) == IF x.neg THEN -SmallMag(x) ELSE SmallMag(x)

-----------------------------------------------------------------------------
(* Magnitudes *)
RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF Limb(a, i) < Limb(b, i) THEN -1
                   ELSE IF Limb(a, i) > Limb(b, i) THEN 1 ELSE MCmpAt(a, b, i - 1)
MCmp(a, b) == MCmpAt(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))

RECURSIVE MAddAt(_, _, _, _)
MAddAt(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c
       IN <<t % BASE>> \o MAddAt(a, b, i + 1, t \div BASE)
MAdd(a, b) == MAddAt(a, b, 1, 0)

\* a - b for a >= b
RECURSIVE MSubAt(_, _, _, _)
MSubAt(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == Limb(a, i) - Limb(b, i) - c
       IN IF t < 0 THEN <<t + BASE>> \o MSubAt(a, b, i + 1, 1)
          ELSE <<t>> \o MSubAt(a, b, i + 1, 0)
MSub(a, b) == StripZ(MSubAt(a, b, 1, 0))

RECURSIVE MScaleAt(_, _, _, _)
MScaleAt(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c IN <<t % BASE>> \o MScaleAt(a, d, i + 1, t \div BASE)
MScale(a, d) == StripZ(MScaleAt(a, d, 1, 0))

RECURSIVE MMul(_, _)
MMul(a, b) == IF b = <<>> THEN <<>>
              ELSE MAdd(MScale(a, b[1]), LET r == MMul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

\* the largest d in lo..hi with d*b <= a (binary search)
RECURSIVE QDigit(_, _, _, _)
QDigit(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MScale(b, mid), a) <= 0 THEN QDigit(a, b, mid, hi) ELSE QDigit(a, b, lo, mid - 1)

\* long division; the limbs of a are consumed from the most significant one
RECURSIVE MDivAt(_, _, _, _)
MDivAt(a, b, i, r) ==
  IF i = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET cur == StripZ(<<a[i]>> \o r)
           d == QDigit(cur, b, 0, BASE - 1)
           rest == MDivAt(a, b, i - 1, MSub(cur, MScale(b, d)))
       IN [q |-> rest.q \o <<d>>, r |-> rest.r]
MDivMod(a, b) == LET x == MDivAt(a, b, Len(a), <<>>) IN [q |-> StripZ(x.q), r |-> x.r]

-----------------------------------------------------------------------------
(* Exact integers and reduction to 64 bits *)
ZAdd(x, y) ==
  IF x.neg = y.neg THEN Mk(x.neg, MAdd(x.m, y.m))
  ELSE IF MCmp(x.m, y.m) >= 0 THEN Mk(x.neg, MSub(x.m, y.m))
  ELSE Mk(y.neg, MSub(y.m, x.m))

P64 == <<1616, 955, 737, 6744, 1844>>          \* 2^64
MaxMag == <<5807, 5477, 368, 3372, 922>>      \* 2^63 - 1
MinMag == <<5808, 5477, 368, 3372, 922>>      \* 2^63
ASSUME MAdd(MaxMag, <<1>>) = MinMag /\ MScale(MinMag, 2) = P64
ASSUME LET f[k \in 0..32] == IF k = 0 THEN <<1>> ELSE MScale(f[k - 1], 4) IN f[32] = P64
InRange(x) == MCmp(x.m, IF x.neg THEN MinMag ELSE MaxMag) <= 0

\* the value in -2^63 .. 2^63-1 that is congruent to x modulo 2^64
Wrap(x) ==
  IF Len(x.m) <= 4 \/ InRange(x) THEN x
  ELSE LET r0 == MDivMod(x.m, P64).r
           r  == IF x.neg /\ r0 # <<>> THEN MSub(P64, r0) ELSE r0
       IN IF MCmp(r, MaxMag) <= 0 THEN Mk(FALSE, r) ELSE Mk(TRUE, MSub(P64, r))

INeg(x) == Wrap(Mk(~x.neg, x.m))
IAdd(x, y) == IF IsSmall(x) /\ IsSmall(y) THEN IntOf(Small(x) + Small(y)) ELSE Wrap(ZAdd(x, y))
ISub(x, y) == IF IsSmall(x) /\ IsSmall(y) THEN IntOf(Small(x) - Small(y))
              ELSE Wrap(ZAdd(x, Mk(~y.neg, y.m)))
IMul(x, y) == IF Len(x.m) <= 1 /\ Len(y.m) <= 1 THEN IntOf(Small(x) * Small(y))
              ELSE Wrap(Mk(x.neg # y.neg, MMul(x.m, y.m)))
\* division truncates toward zero; y # 0
IDiv(x, y) == Wrap(Mk(x.neg # y.neg, MDivMod(x.m, y.m).q))
IMod(x, y) == Mk(x.neg, MDivMod(x.m, y.m).r)
ILt(x, y) == IF x.neg # y.neg THEN x.neg
             ELSE IF x.neg THEN MCmp(y.m, x.m) < 0 ELSE MCmp(x.m, y.m) < 0
IsZero(x) == x.m = <<>>
Zero == IntOf(0)
One == IntOf(1)

-----------------------------------------------------------------------------
(* Decimal text *)
Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE MagBytes(_, _)
MagBytes(m, i) == IF i = 0 THEN <<>> ELSE Pad4(m[i]) \o MagBytes(m, i - 1)
IntBytes(x) ==
  IF x.m = <<>> THEN <<48>>
  ELSE (IF x.neg THEN <<45>> ELSE <<>>) \o NatBytes(x.m[Len(x.m)]) \o MagBytes(x.m, Len(x.m) - 1)

RECURSIVE DigitsVal(_, _, _)
DigitsVal(s, a, b) == IF a > b THEN 0 ELSE DigitsVal(s, a, b - 1) * 10 + (s[b] - 48)
RECURSIVE MagOfDigits(_, _)
MagOfDigits(s, b) ==
  IF b < 1 THEN <<>>
  ELSE <<DigitsVal(s, IF b >= 4 THEN b - 3 ELSE 1, b)>> \o MagOfDigits(s, b - 4)
\* exact value of a non-empty sequence of digits, optionally after "-"
IntOfBytes(s) ==
  IF s[1] = 45 THEN Mk(TRUE, MagOfDigits(Tail(s), Len(s) - 1)) ELSE Mk(FALSE, MagOfDigits(s, Len(s)))
=============================================================================
