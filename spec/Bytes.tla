-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Byte strings.  Source text, output and string values are sequences of   *)
(* integers in 0..255.                                                     *)
(***************************************************************************)
EXTENDS Iteration, Sequences, FiniteSets, TLC

\* Printable ASCII, in order, from the space (32) to the tilde (126).
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == TLCEval([c \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} |->
             31 + (CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = c)])

\* B("@if") = <<64, 105, 102>>
B(s) == TLCEval([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

TAB == 9
LF == 10
CR == 13
SPACE == 32
BACKSLASH == 92
AT == 64
LCURLY == 123
RCURLY == 125

IsDigit(b) == b >= 48 /\ b <= 57
IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
IsIdentStart(b) == IsLower(b) \/ IsUpper(b) \/ b = 95
IsIdentPart(b) == IsIdentStart(b) \/ IsDigit(b)
IsSpace(b) == b = 32 \/ b = 9 \/ b = 10 \/ b = 13

\* the byte at position i, or -1 outside of s
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

\* w occurs in s at position i
StartsAt(s, i, w) ==
  /\ i + Len(w) - 1 <= Len(s)
  /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]

HasByte(s, b) == \E i \in 1..Len(s) : s[i] = b

\* position of the first occurrence of w in s at or after i, 0 when none
FindFrom(s, i, w) ==
  LET n == Len(s) - Len(w) + 1
      j == First(LAMBDA k : StartsAt(s, k, w), i, n)
  IN IF j > n THEN 0 ELSE j

Contains(s, w) == FindFrom(s, 1, w) # 0

\* first position >= i whose byte is not a space / identifier part / digit
SkipSpace(s, i) == IF i > Len(s) THEN i ELSE First(LAMBDA k : ~IsSpace(s[k]), i, Len(s))
SkipIdent(s, i) == First(LAMBDA k : ~IsIdentPart(s[k]), i, Len(s))
SkipDigits(s, i) == First(LAMBDA k : ~IsDigit(s[k]), i, Len(s))

AllSpace(s) == \A i \in 1..Len(s) : IsSpace(s[i])

\* TLCEval(x) is x.  TLC evaluates a function that is given by an expression
\* again at each application; TLCEval makes it evaluate the function once.
RECURSIVE ConcatOf(_, _, _)
ConcatOf(ss, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN ss[i]
  ELSE LET m == (i + j) \div 2 IN ConcatOf(ss, i, m) \o ConcatOf(ss, m + 1, j)
Concat(ss) == LET xs == TLCEval(ss) IN ConcatOf(xs, 1, Len(xs))

JoinWith(ss, sep) == Concat([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])

\* every occurrence of w replaced by r, left to right
ReplaceAll(s, w, r) ==
  LET last == Iterate(LAMBDA x : [i |-> x.p + Len(w), p |-> FindFrom(s, x.p + Len(w), w),
                                  out |-> x.out \o SubSeq(s, x.i, x.p - 1) \o r],
                      LAMBDA x : x.p = 0,
                      [i |-> 1, p |-> FindFrom(s, 1, w), out |-> <<>>])
  IN last.out \o SubSeq(s, last.i, Len(s))

\* lexicographic order on byte strings
BLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      i == First(LAMBDA k : a[k] # b[k], 1, n)
  IN IF i > n THEN Len(a) < Len(b) ELSE a[i] < b[i]

\* the elements of a finite set of byte strings in order
RECURSIVE SortedSeq(_)
SortedSeq(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : BLess(x, y)
       IN <<m>> \o SortedSeq(S \ {m})

\* decimal digits of a small natural number
RECURSIVE NatBytes(_)
NatBytes(n) == IF n < 10 THEN <<48 + n>> ELSE NatBytes(n \div 10) \o <<48 + (n % 10)>>

Reverse(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
=============================================================================
