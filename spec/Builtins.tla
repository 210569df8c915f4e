------------------------------ MODULE Builtins ------------------------------
(***************************************************************************)
(* The contracts of the built-in functions: Call(f, x, args) is V(value),  *)
(* E({}, <<>>) or Unspec.  Functions are pure, so this is all there is.       *)
(* shuffle and rand are the only ones with several results; they give a    *)
(* choice [r |-> "choice", c |-> sequence of values].                           *)
(***************************************************************************)
EXTENDS Values

Names == TLCEval([
  str |-> {B("len"), B("split"), B("raw"), B("trim"), B("trimRight"), B("trimLeft"), B("upper"), B("lower"),
           B("capitalize"), B("reverse"), B("contains"), B("truncate"), B("decimal"), B("at"), B("first"),
           B("last"), B("repeat")},
  arr |-> {B("len"), B("join"), B("rand"), B("reverse"), B("slice"), B("shuffle"), B("contains"),
           B("append"), B("prepend")},
  int |-> {B("float"), B("abs"), B("str"), B("len"), B("decimal")},
  float |-> {B("int"), B("str"), B("abs"), B("ceil"), B("floor"), B("round")},
  bool |-> {B("binary"), B("then")},
  nil |-> {}, obj |-> {} ])

Fail == E({}, <<>>)
Nat2Int(n) == IntV(IntOf(n))

TrimDefault == {<<9>>, <<32>>, <<10>>, <<13>>}
TrimL(cs, set) == SubSeq(cs, First(LAMBDA i : cs[i] \notin set, 1, Len(cs)), Len(cs))
TrimR(cs, set) == Reverse(TrimL(Reverse(cs), set))

Split(s, sep) ==
  LET last == Iterate(LAMBDA x : [i |-> x.p + Len(sep), p |-> FindFrom(s, x.p + Len(sep), sep),
                                  out |-> Append(x.out, StrV(SubSeq(s, x.i, x.p - 1)))],
                      LAMBDA x : x.p = 0,
                      [i |-> 1, p |-> FindFrom(s, 1, sep), out |-> <<>>])
  IN Append(last.out, StrV(SubSeq(s, last.i, Len(s))))

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>>
               ELSE LET h == Times(s, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o s

\* the clamped value of an integer, in 0..max
Clamp(x, max) == IF x.neg THEN 0 ELSE IF ~IsSmall(x) \/ SmallMag(x) > max THEN max ELSE SmallMag(x)

MaxCount == 2000      \* larger counts are not evaluated by this specification

IsIntText(s) == /\ s # <<>>
                /\ LET u == IF s[1] = 45 THEN Tail(s) ELSE s
                   IN u # <<>> /\ (\A i \in 1..Len(u) : IsDigit(u[i])) /\ InRange(IntOfBytes(s))
Decimal(s, args) ==
  IF Len(args) > 2 THEN Fail
  ELSE IF (Len(args) >= 1 /\ args[1].t # "str") \/ (Len(args) = 2 /\ args[2].t # "int") THEN Fail
  ELSE LET sep == IF Len(args) >= 1 THEN args[1].v ELSE <<46>>
           n == IF Len(args) = 2 THEN args[2].v ELSE IntOf(2)
       IN IF n.neg \/ ~IsSmall(n) \/ SmallMag(n) > MaxCount THEN Unspec
          ELSE IF IsIntText(s)
            THEN IF IsZero(n) THEN V(StrV(s))
                 ELSE V([t |-> "str", v |-> s \o sep \o Times(<<48>>, SmallMag(n)),
                         d |-> IF Len(args) >= 1 /\ args[1].d # "no" THEN "mix" ELSE "no", o |-> <<>>])
          ELSE IF s # <<>> /\ s[1] = 43 THEN Unspec
          ELSE V(StrV(s))

CharAt(cs, x) ==
  LET n == Len(cs) IN
  IF cs = <<>> \/ ~IsSmall(x) THEN V(NilV)
  ELSE LET i == Small(x)
           j == IF i < 0 THEN n + i ELSE i
       IN IF j < 0 \/ j >= n THEN V(NilV) ELSE V(StrV(cs[j + 1]))

CaseMap(cs, Op(_)) ==
  LET r == TLCEval([i \in 1..Len(cs) |-> Op(cs[i])])
  IN IF \E i \in 1..Len(r) : r[i] = <<>> THEN Unspec ELSE V(StrV(Concat(r)))

HasAmp(s) == HasByte(s, 38)

StrCall(f, x, args) ==
  LET n == Len(args)
      s == x.v
      a1(t) == n >= 1 /\ args[1].t = t
      wrong1(t) == n >= 1 /\ args[1].t # t
  IN
  IF f = B("raw") THEN
    IF n > 0 THEN Unspec
    ELSE IF x.d = "lit" THEN V(StrV(x.o))
    ELSE IF x.d = "no" /\ ~HasAmp(s) THEN V(x) ELSE Unspec
  ELSE IF x.d # "no" \/ ~ValidUTF8(s) \/ (\E i \in 1..n : args[i].t = "str" /\ (args[i].d # "no" \/ ~ValidUTF8(args[i].v)))
    THEN Unspec
  ELSE LET cs == Chars(s) IN
  CASE f = B("len") -> IF n > 0 THEN Unspec ELSE V(Nat2Int(Len(cs)))
    [] f = B("split") ->
         IF n > 1 THEN Unspec ELSE IF wrong1("str") THEN Fail
         ELSE LET sep == IF n = 0 THEN <<32>> ELSE args[1].v
              IN IF sep = <<>> THEN V(ArrV(TLCEval([i \in 1..Len(cs) |-> StrV(cs[i])]))) ELSE V(ArrV(Split(s, sep)))
    [] f \in {B("trim"), B("trimLeft"), B("trimRight")} ->
         IF n > 1 THEN Unspec ELSE IF wrong1("str") THEN Fail
         ELSE LET set == IF n = 0 THEN TrimDefault ELSE LET as == Chars(args[1].v) IN {as[i] : i \in 1..Len(as)}
                  l == IF f = B("trimRight") THEN cs ELSE TrimL(cs, set)
                  r == IF f = B("trimLeft") THEN l ELSE TrimR(l, set)
              IN V(StrV(Concat(r)))
    [] f = B("upper") -> IF n > 0 THEN Unspec ELSE CaseMap(cs, UpperC)
    [] f = B("lower") -> IF n > 0 THEN Unspec ELSE CaseMap(cs, LowerC)
    [] f = B("capitalize") ->
         IF n > 0 THEN Unspec
         ELSE IF cs = <<>> THEN V(StrV(<<>>))
         ELSE LET u == UpperC(cs[1]) IN IF u = <<>> THEN Unspec ELSE V(StrV(u \o Concat(Tail(cs))))
    [] f = B("reverse") -> IF n > 0 THEN Unspec ELSE V(StrV(Concat(Reverse(cs))))
    [] f = B("contains") ->
         IF n = 0 \/ wrong1("str") THEN Fail ELSE IF n > 1 THEN Unspec ELSE V(BoolV(Contains(s, args[1].v)))
    [] f = B("truncate") ->
         IF n = 0 \/ wrong1("int") \/ (n >= 2 /\ args[2].t # "str") THEN Fail
         ELSE IF n > 2 \/ args[1].v.neg THEN Unspec
         ELSE IF Clamp(args[1].v, Len(cs)) = Len(cs) THEN V(StrV(s))
         ELSE V(StrV(Concat(SubSeq(cs, 1, Small(args[1].v))) \o (IF n = 2 THEN args[2].v ELSE <<46, 46, 46>>)))
    [] f = B("decimal") -> Decimal(s, args)
    [] f = B("at") ->
         IF wrong1("int") THEN Fail ELSE IF n > 1 THEN Unspec ELSE CharAt(cs, IF n = 0 THEN Zero ELSE args[1].v)
    [] f = B("first") -> IF n > 0 THEN Unspec ELSE CharAt(cs, Zero)
    [] f = B("last") -> IF n > 0 THEN Unspec ELSE CharAt(cs, IntOf(-1))
    [] OTHER ->       \* repeat
         IF n = 0 \/ wrong1("int") THEN Fail
         ELSE IF n > 1 \/ args[1].v.neg THEN Unspec
         ELSE IF ~IsSmall(args[1].v) \/ Small(args[1].v) * Len(s) > MaxCount \/ Small(args[1].v) > MaxCount THEN Unspec
         ELSE V(StrV(Times(s, Small(args[1].v))))

\* the permutations of 1..n for n <= 4, in some order
PermSet(n) == {q \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => q[i] # q[j]}
RECURSIVE PermSeq(_)
PermSeq(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p>> \o PermSeq(S \ {p})
Perms == TLCEval([n \in 0..4 |-> PermSeq(PermSet(n))])

ArrCall(f, x, args) ==
  LET n == Len(args)
      xs == x.v
  IN
  CASE f = B("len") -> IF n > 0 THEN Unspec ELSE V(Nat2Int(Len(xs)))
    [] f = B("join") ->
         IF n > 1 THEN Unspec ELSE IF n = 1 /\ args[1].t # "str" THEN Fail
         ELSE LET ps == TLCEval([i \in 1..Len(xs) |-> PrintOf(xs[i])])
                  sep == IF n = 0 THEN <<44>> ELSE args[1].v
                  clean == DeepClean(x) /\ (n = 0 \/ IsClean(args[1]))
              IN IF \E i \in 1..Len(ps) : Cardinality(ps[i]) # 1 THEN Unspec
                 ELSE V([t |-> "str", d |-> IF clean THEN "no" ELSE "mix", o |-> <<>>,
                         v |-> JoinWith([i \in 1..Len(ps) |-> CHOOSE p \in ps[i] : TRUE], sep)])
    [] f = B("rand") -> IF n > 0 THEN Unspec ELSE IF xs = <<>> THEN V(NilV)
                        ELSE [r |-> "choice", c |-> xs]
    [] f = B("reverse") -> IF n > 0 THEN Unspec ELSE V(ArrV(Reverse(xs)))
    [] f = B("slice") ->
         IF n = 0 \/ args[1].t # "int" \/ (n >= 2 /\ args[2].t # "int") THEN Fail
         ELSE IF n > 2 THEN Unspec
         ELSE LET a == Clamp(args[1].v, Len(xs))
                  b == IF n = 1 \/ args[2].v.neg THEN Len(xs) ELSE Clamp(args[2].v, Len(xs))
              IN V(ArrV(SubSeq(xs, a + 1, b)))
    [] f = B("shuffle") -> IF n > 0 \/ Len(xs) > 4 THEN Unspec
                           ELSE [r |-> "choice", c |-> [i \in 1..Len(Perms[Len(xs)]) |-> ArrV([j \in 1..Len(xs) |-> xs[Perms[Len(xs)][i][j]]])]]
    [] f = B("contains") ->
         IF n = 0 THEN Fail
         ELSE IF n > 1 \/ ~DeepClean(x) \/ ~DeepClean(args[1]) THEN Unspec
         ELSE V(BoolV(\E i \in 1..Len(xs) : SameValue(xs[i], args[1])))
    [] f = B("append") -> IF n = 0 THEN Fail ELSE V(ArrV(xs \o args))
    [] OTHER -> IF n = 0 THEN Fail ELSE V(ArrV(args \o xs))

IntCall(f, x, args) ==
  LET n == Len(args) IN
  CASE f = B("decimal") -> Decimal(IntBytes(x.v), args)
    [] n > 0 -> Unspec
    [] f = B("float") -> V(FloatV(FOfInt(IntBytes(x.v))))
    [] f = B("abs") -> IF x.v = Mk(TRUE, MinMag) THEN Unspec ELSE V(IntV([x.v EXCEPT !.neg = FALSE]))
    [] f = B("str") -> V(StrV(IntBytes(x.v)))
    [] OTHER -> V(Nat2Int(Len(IntBytes([x.v EXCEPT !.neg = FALSE]))))

FloatCall(f, x, args) ==
  LET ToInt(mode) == LET s == FToInt(x.v, mode) IN IF s = <<>> THEN Unspec ELSE V(IntV(IntOfBytes(s)))
  IN
  CASE Len(args) > 0 -> Unspec
    [] f = B("int") -> ToInt("trunc")
    [] f = B("ceil") -> ToInt("ceil")
    [] f = B("floor") -> ToInt("floor")
    [] f = B("round") -> ToInt("round")
    [] f = B("str") -> V(StrV(FStr(x.v)))
    [] OTHER -> V(FloatV(FAbs(x.v)))

BoolCall(f, x, args) ==
  LET n == Len(args) IN
  IF f = B("binary") THEN IF n > 0 THEN Unspec ELSE V(Nat2Int(IF x.v THEN 1 ELSE 0))
  ELSE IF n = 0 THEN Fail
  ELSE IF n > 2 THEN Unspec
  ELSE IF x.v THEN V(args[1]) ELSE IF n = 2 THEN V(args[2]) ELSE V(NilV)

IsBuiltin(x, f) == f \in Names[x.t]
Call(f, x, args) ==
  CASE x.t = "str" -> StrCall(f, x, args)
    [] x.t = "arr" -> ArrCall(f, x, args)
    [] x.t = "int" -> IntCall(f, x, args)
    [] x.t = "float" -> FloatCall(f, x, args)
    [] OTHER -> BoolCall(f, x, args)
=============================================================================
