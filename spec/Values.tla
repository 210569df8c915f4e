------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The values of the language.                                             *)
(*   [t |-> "int", v]       a 64-bit integer (module Int64)                *)
(*   [t |-> "float", v]     a double (module Float64)                      *)
(*   [t |-> "str", v, d, o] v is what the string prints.  The text of a    *)
(*                          literal prints HTML-escaped: d is "lit" when   *)
(*                          the string is a literal for which this makes a *)
(*                          difference (its own text is o), "mix" when it  *)
(*                          was built from one and "no" otherwise.         *)
(*   [t |-> "bool", v]  [t |-> "nil"]                                      *)
(*   [t |-> "arr", v]       v is a sequence of values                      *)
(*   [t |-> "obj", v, st]   v maps names to values; st are the names that  *)
(*                          are also reachable with a lower case first     *)
(*                          letter (fields of structs)                     *)
(*   [t |-> "dump"]         unspecified text                               *)
(*                                                                         *)
(* The result of evaluating an expression is V(value), E(lines, names) - an*)
(* error on one of the lines ({} for any line) whose message contains the  *)
(* names - or Unspec when the language does not define it.  The field f of an *)
(* error says in which file the lines are: "here" in the text being        *)
(* evaluated, "page" in the page and "other" in a layout or a component.   *)
(***************************************************************************)
EXTENDS Int64, Float64

V(x) == [r |-> "v", v |-> x]
E(lines, has) == [r |-> "e", lines |-> lines, has |-> has, f |-> "here"]
Unspec == [r |-> "any"]

IntV(x) == [t |-> "int", v |-> x]
FloatV(x) == [t |-> "float", v |-> x]
BoolV(x) == [t |-> "bool", v |-> x]
NilV == [t |-> "nil"]
ArrV(x) == [t |-> "arr", v |-> x]
ObjV(x, st) == [t |-> "obj", v |-> x, st |-> st]
StrV(s) == [t |-> "str", v |-> s, d |-> "no", o |-> s]

-----------------------------------------------------------------------------
(* HTML escaping of literals *)
AMP == B("&amp;")
LTE == B("&lt;")
GTE == B("&gt;")
Escape(s) == Concat([i \in 1..Len(s) |-> CASE s[i] = 38 -> AMP [] s[i] = 60 -> LTE [] s[i] = 62 -> GTE
                                         [] OTHER -> <<s[i]>>])
NeedsEscape(s) == \E i \in 1..Len(s) : s[i] \in {38, 60, 62}
LiteralV(s) == IF NeedsEscape(s) THEN [t |-> "str", v |-> Escape(s), d |-> "lit", o |-> s] ELSE StrV(s)
IsClean(x) == x.t # "str" \/ x.d = "no"
RECURSIVE DeepClean(_)
DeepClean(x) ==
  CASE x.t = "str" -> x.d = "no"
    [] x.t = "arr" -> \A i \in 1..Len(x.v) : DeepClean(x.v[i])
    [] x.t = "obj" -> \A k \in DOMAIN x.v : DeepClean(x.v[k])
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Truth *)
FZERO == "0000000000000000"
Truthy(x) ==
  CASE x.t = "bool" -> x.v
    [] x.t = "nil" -> FALSE
    [] x.t = "int" -> ~IsZero(x.v)
    [] x.t = "float" -> ~FEq(x.v, FZERO)
    [] x.t = "str" -> x.v # <<>>
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Printing.  PrintOf gives the set of possible texts, {} when unspecified *)
DOT0 == B(".0")
HasDot(s) == HasByte(s, 46)
\* a float prints with a decimal point; the digits of a large number may be the
\* exact ones or only as many as are needed to tell it from other floats
FloatTexts(x) ==
  LET s == FStr(x)
      e == FExactStr(x)
  IN
  IF HasDot(s) \/ ~IsDigit(s[Len(s)]) THEN {s}
  ELSE IF FIsIntegral(x) THEN {s \o DOT0, e \o DOT0} ELSE {s, s \o DOT0, e, e \o DOT0}
RECURSIVE PrintOf(_)
SEP == B(", ")
RECURSIVE JoinSets(_, _)
JoinSets(ss, sep) ==
  IF ss = <<>> THEN {<<>>}
  ELSE IF \A i \in 1..Len(ss) : Cardinality(ss[i]) = 1
    THEN {JoinWith([i \in 1..Len(ss) |-> CHOOSE x \in ss[i] : TRUE], sep)}
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE LET R == JoinSets(Tail(ss), sep) IN {a \o sep \o b : a \in Head(ss), b \in R}
PrintOf(x) ==
  CASE x.t = "int" -> {IntBytes(x.v)}
    [] x.t = "float" -> FloatTexts(x.v)
    [] x.t = "str" -> {x.v}
    [] x.t = "bool" -> {IF x.v THEN <<49>> ELSE <<48>>}
    [] x.t = "nil" -> {<<>>}
    [] x.t = "arr" -> JoinSets(TLCEval([i \in 1..Len(x.v) |-> PrintOf(x.v[i])]), SEP)
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Structural equality.  Objects compare by their keys and values. *)
RECURSIVE SameValue(_, _)
SameValue(x, y) ==
  IF x.t # y.t THEN FALSE
  ELSE CASE x.t = "nil" -> TRUE
         [] x.t = "float" -> FEq(x.v, y.v)
         [] x.t = "arr" -> Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : SameValue(x.v[i], y.v[i])
         [] x.t = "obj" -> DOMAIN x.v = DOMAIN y.v /\ \A k \in DOMAIN x.v : SameValue(x.v[k], y.v[k])
         [] OTHER -> x.v = y.v

-----------------------------------------------------------------------------
(* Characters.  A string that is not valid UTF-8 has no characters.        *)
SizeOf(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
ContB(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] <= 191
ValidChar(s, i) ==
  LET b == s[i] IN
  \/ b < 128
  \/ b \in 194..223 /\ ContB(s, i + 1)
  \/ b \in 224..239 /\ ContB(s, i + 1) /\ ContB(s, i + 2) /\ ~(b = 224 /\ s[i + 1] < 160) /\ ~(b = 237 /\ s[i + 1] > 159)
  \/ b \in 240..244 /\ ContB(s, i + 1) /\ ContB(s, i + 2) /\ ContB(s, i + 3)
     /\ ~(b = 240 /\ s[i + 1] < 144) /\ ~(b = 244 /\ s[i + 1] > 143)
ValidUTF8(s) == Iterate(LAMBDA i : i + SizeOf(s[i]), LAMBDA i : i > Len(s) \/ ~ValidChar(s, i), 1) > Len(s)
\* the characters of a valid string, each as a byte string
Chars(s) == Iterate(LAMBDA x : LET n == SizeOf(s[x.i])
                               IN [i |-> x.i + n, cs |-> Append(x.cs, SubSeq(s, x.i, x.i + n - 1))],
                    LAMBDA x : x.i > Len(s), [i |-> 1, cs |-> <<>>]).cs

\* Upper and lower case of a character; <<>> when this module does not know
CodePoint(c) ==
  CASE Len(c) = 1 -> c[1]
    [] Len(c) = 2 -> (c[1] - 192) * 64 + (c[2] - 128)
    [] Len(c) = 3 -> (c[1] - 224) * 4096 + (c[2] - 128) * 64 + (c[3] - 128)
    [] OTHER -> (c[1] - 240) * 262144 + (c[2] - 128) * 4096 + (c[3] - 128) * 64 + (c[4] - 128)
Enc2(p) == <<192 + (p \div 64), 128 + (p % 64)>>
Caseless(p) ==        \* CJK, kana, hangul, symbols, emoji, most punctuation
  \/ p \in 8192..8303 \/ p \in 9728..9983 \/ p \in 12288..12543 \/ p \in 19968..40959
  \/ p \in 44032..55203 \/ p \in 127744..129535
UpperC(c) ==
  LET p == CodePoint(c) IN
  IF p < 128 THEN (IF IsLower(p) THEN <<p - 32>> ELSE c)
  ELSE IF p \in 224..254 /\ p # 247 THEN Enc2(p - 32)
  ELSE IF p \in 192..222 \/ p = 247 \/ p \in 161..180 \/ p \in 182..191 THEN c
  ELSE IF p \in 1072..1103 THEN Enc2(p - 32) ELSE IF p \in 1040..1071 THEN c
  ELSE IF p \in 945..961 THEN Enc2(p - 32) ELSE IF p \in 913..929 THEN c
  ELSE IF Caseless(p) THEN c ELSE <<>>
LowerC(c) ==
  LET p == CodePoint(c) IN
  IF p < 128 THEN (IF IsUpper(p) THEN <<p + 32>> ELSE c)
  ELSE IF p \in 192..222 /\ p # 215 THEN Enc2(p + 32)
  ELSE IF p \in 224..254 \/ p = 215 \/ p \in 161..180 \/ p \in 182..191 THEN c
  ELSE IF p \in 1040..1071 THEN Enc2(p + 32) ELSE IF p \in 1072..1103 THEN c
  ELSE IF p \in 913..929 THEN Enc2(p + 32) ELSE IF p \in 945..961 THEN c
  ELSE IF Caseless(p) THEN c ELSE <<>>

-----------------------------------------------------------------------------
(***************************************************************************)
(* Go data.  A datum is a record of the harness that describes a Go value: *)
(*   [k |-> "bool", v] [k |-> "str", v] [k |-> "nil"] (also nil pointers)  *)
(*   [k |-> "int", neg, m] (any integer kind) [k |-> "float", v]           *)
(*   [k |-> "ptr", x] [k |-> "slice", x] [k |-> "map", x: [n, x]*]         *)
(*   [k |-> "struct", x: [n, e (exported), x]*]                            *)
(*   [k |-> "bad"] an unsupported kind or a cycle                          *)
(*   [k |-> "open"] a kind the language says nothing about                 *)
(* Conv gives V(value), the error of an unsupported value, or Unspec.         *)
(***************************************************************************)
RECURSIVE Conv(_)
Worst(rs) ==   \* Unspec beats an error
  IF \E i \in 1..Len(rs) : rs[i].r = "any" THEN Unspec
  ELSE IF \E i \in 1..Len(rs) : rs[i].r = "e" THEN E({}, <<>>)
  ELSE V(0)
Conv(d) ==
  CASE d.k = "bool" -> V(BoolV(d.v))
    [] d.k = "str" -> V(StrV(d.v))
    [] d.k = "nil" -> V(NilV)
    [] d.k = "int" -> LET x == Mk(d.neg, d.m) IN IF InRange(x) THEN V(IntV(x)) ELSE Unspec
    [] d.k = "float" -> V(FloatV(d.v))
    [] d.k = "ptr" -> Conv(d.x)
    [] d.k = "slice" ->
         LET xs == TLCEval([i \in 1..Len(d.x) |-> Conv(d.x[i])])
             w == Worst(xs)
         IN IF w.r # "v" THEN w ELSE V(ArrV(TLCEval([i \in 1..Len(xs) |-> xs[i].v])))
    [] d.k = "map" ->
         LET xs == TLCEval([i \in 1..Len(d.x) |-> Conv(d.x[i].x)])
             w == Worst(xs)
         IN IF w.r # "v" THEN w
            ELSE V(ObjV(TLCEval([n \in {d.x[i].n : i \in 1..Len(d.x)} |->
                           xs[CHOOSE i \in 1..Len(d.x) : d.x[i].n = n].v]), {}))
    [] d.k = "struct" ->
         LET fs == SelectSeq(d.x, LAMBDA f : f.e)
             xs == TLCEval([i \in 1..Len(fs) |-> Conv(fs[i].x)])
             w == Worst(xs)
             ns == {fs[i].n : i \in 1..Len(fs)}
         IN IF w.r # "v" THEN w
            ELSE V(ObjV(TLCEval([n \in ns |-> xs[CHOOSE i \in 1..Len(fs) : fs[i].n = n].v]), ns))
    [] d.k = "bad" -> E({}, <<>>)
    [] OTHER -> Unspec

-----------------------------------------------------------------------------
(***************************************************************************)
(* What a custom function sees: a canonical description of a plain Go      *)
(* value (int and int64 alike), as written by the harness.                 *)
(***************************************************************************)
RECURSIVE Describe(_)
HexBytes(h) == B(h)
Describe(x) ==
  CASE x.t = "int" -> <<105>> \o IntBytes(x.v)                              \* i5
    [] x.t = "float" -> <<102>> \o HexBytes(x.v)                            \* f3ff0...
    [] x.t = "str" -> <<115>> \o NatBytes(Len(x.v)) \o <<58>> \o x.v        \* s3:abc
    [] x.t = "bool" -> <<98, IF x.v THEN 49 ELSE 48>>                       \* b1
    [] x.t = "nil" -> <<110>>                                               \* n
    [] x.t = "arr" -> <<91>> \o Concat([i \in 1..Len(x.v) |-> Describe(x.v[i]) \o <<59>>]) \o <<93>>
    [] OTHER -> LET ks == SortedSeq(DOMAIN x.v)
                IN <<123>> \o Concat([i \in 1..Len(ks) |-> ks[i] \o <<61>> \o Describe(x.v[ks[i]]) \o <<59>>])
                   \o <<125>>
=============================================================================
