------------------------------- MODULE Chains -------------------------------
(***************************************************************************)
(* A model of somebody who calls built-in functions, one on the result of  *)
(* the other: x.f(a).g(b, c)...  P.data are variables; a chain begins with *)
(* one of P.receivers and goes on with the functions P.names called with   *)
(* one of P.arguments, sequences of variables (at most P.arity of them, for *)
(* the functions of the language).  A state is the chain and *)
(* its value.  The laws relate the functions to each other: they are what  *)
(* their documentation promises.  The harness evaluates the text of every  *)
(* chain with the code.                                                    *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

P == TLCEval(JsonDeserialize(IOEnv.PARAMS))
VALUES == TLCEval(DataEnv(P.data).v[1])
NAMESET == TLCEval({P.names[i] : i \in 1..Len(P.names)})

VARIABLES theStartOfIt, theCallsOfIt, theValueOfIt
vars == <<theStartOfIt, theCallsOfIt, theValueOfIt>>

ArgsOf(k) == [i \in 1..Len(P.arguments[k]) |-> VALUES[P.arguments[k][i]]]
Init == theStartOfIt \in 1..Len(P.receivers) /\ theCallsOfIt = <<>> /\ theValueOfIt = V(VALUES[P.receivers[theStartOfIt]])
Next ==
  /\ theValueOfIt.r = "v"
  /\ Len(theCallsOfIt) < P.max
  /\ \E f \in 1..Len(P.names) : \E k \in 1..Len(P.arguments) :
       /\ IF IsBuiltin(theValueOfIt.v, P.names[f]) THEN Len(P.arguments[k]) <= P.arity[f] ELSE k = 1
       /\ theCallsOfIt' = Append(theCallsOfIt, <<f, k>>)
       /\ theValueOfIt' = IF IsBuiltin(theValueOfIt.v, P.names[f]) THEN Call(P.names[f], theValueOfIt.v, ArgsOf(k)) ELSE E({}, <<P.names[f]>>)
  /\ UNCHANGED theStartOfIt

-----------------------------------------------------------------------------
(* Laws.  Is(x, y): both are values and the same, or y is not specified.   *)
Do(f, x, args) == IF x.r # "v" THEN x ELSE Call(B(f), x.v, args)
Do0(f, x) == Do(f, x, <<>>)
Is(x, y) == x.r = "any" \/ y.r = "any" \/ (x.r = "v" /\ y.r = "v" /\ (SameValue(x.v, y.v) \/ Describe(x.v) = Describe(y.v)))
N(i) == IntV(IntOf(i))
S0 == StrV(<<>>)
Size(x) == LET r == Do0("len", x) IN IF r.r = "v" THEN Small(r.v.v) ELSE -1

Texts == {VALUES[n] : n \in {m \in DOMAIN VALUES : VALUES[m].t = "str"}}
Ints == {VALUES[n] : n \in {m \in DOMAIN VALUES : VALUES[m].t = "int"}}
Small0 == -2..6

StrLaws(v) ==
  LET x == V(v)
      n == Size(x)
      Plus(a, b) == StrV(a.v \o b.v)
  IN
  n = -1 \/
  /\ Is(Do0("reverse", Do0("reverse", x)), x)
  /\ Size(Do0("reverse", x)) = n
  /\ Size(Do("split", x, <<S0>>)) = n
  /\ \A sep \in Texts : LET parts == Do("split", x, <<sep>>) IN
        /\ Is(Do("join", parts, <<sep>>), x)
        /\ Is(Do("contains", x, <<sep>>), V(BoolV(sep.v = <<>> \/ Size(parts) > 1)))
        /\ Is(Do("contains", V(Plus(v, sep)), <<sep>>), V(BoolV(TRUE)))
        /\ Is(Do("trim", x, <<sep>>), Do("trimRight", Do("trimLeft", x, <<sep>>), <<sep>>))
        /\ Is(Do("trim", x, <<sep>>), Do("trimLeft", Do("trimRight", x, <<sep>>), <<sep>>))
        /\ Is(Do("trimRight", x, <<sep>>), Do0("reverse", Do("trimLeft", Do0("reverse", x), <<sep>>)))
        /\ Is(Do("trim", Do("trim", x, <<sep>>), <<sep>>), Do("trim", x, <<sep>>))
        /\ (n >= 0 /\ ValidUTF8(sep.v)) => Size(V(Plus(v, sep))) = n + Size(V(sep))
  /\ Is(Do0("upper", Do0("upper", x)), Do0("upper", x))
  /\ Is(Do0("lower", Do0("lower", x)), Do0("lower", x))
  /\ Is(Do0("capitalize", Do0("upper", x)), Do0("upper", x))
  /\ Is(Do0("capitalize", Do0("capitalize", x)), Do0("capitalize", x))
  /\ Is(Do0("first", x), Do0("at", x)) /\ Is(Do0("first", x), Do("at", x, <<N(0)>>))
  /\ Is(Do0("last", x), Do("at", x, <<N(-1)>>)) /\ Is(Do0("last", x), Do0("first", Do0("reverse", x)))
  /\ \A i \in Small0 :
        /\ i >= 0 => Is(Do("at", x, <<N(i)>>), Do("at", Do0("reverse", x), <<N(-i - 1)>>))
        /\ (i < -n \/ i >= n) => Is(Do("at", x, <<N(i)>>), V(NilV))
        /\ (0 <= i /\ i < n) => Size(Do("at", x, <<N(i)>>)) = 1
        /\ i >= 0 => LET t == Do("truncate", x, <<N(i), S0>>) IN
              /\ Size(t) = (IF i < n THEN i ELSE n)
              /\ t.v.v = SubSeq(v.v, 1, Len(t.v.v))
              /\ (i >= n) => Is(Do("truncate", x, <<N(i)>>), x)
              /\ (i < n) => Is(Do("truncate", x, <<N(i)>>), V(Plus(t.v, StrV(B("...")))))
        /\ i >= 0 => LET t == Do("repeat", x, <<N(i)>>) IN t.r = "any" \/ (Size(t) = i * n /\ (i = 1 => Is(t, x)))
  /\ LET d == Do0("decimal", x) IN d.r = "any" \/ Is(d, x) \/ d.v.v = v.v \o B(".00")
ArrLaws(v) ==
  LET x == V(v)
      n == Len(v.v)
      Same0(a, b) == a.r = "any" \/ b.r = "any" \/ (a.r = "v" /\ b.r = "v" /\ Describe(a.v) = Describe(b.v))
  IN
  /\ Same0(Do0("reverse", Do0("reverse", x)), x)
  /\ Size(x) = n /\ Size(Do0("reverse", x)) = n
  /\ Same0(Do("slice", x, <<N(0)>>), x)
  /\ \A i \in 0..5 : \A j \in i..5 :
        /\ Same0(V(ArrV(Do("slice", x, <<N(0), N(i)>>).v.v \o Do("slice", x, <<N(i)>>).v.v)), x)
        /\ Same0(Do("slice", Do("slice", x, <<N(i)>>), <<N(0), N(j - i)>>), Do("slice", x, <<N(i), N(j)>>))
  /\ Same0(Do("slice", x, <<N(n)>>), V(ArrV(<<>>))) /\ Same0(Do("slice", x, <<N(-1)>>), x)
  /\ \A w \in Texts \cup Ints :
        /\ Same0(Do("slice", Do("append", x, <<w>>), <<N(n)>>), V(ArrV(<<w>>)))
        /\ Same0(Do("append", x, <<w>>), Do0("reverse", Do("prepend", Do0("reverse", x), <<w>>)))
        /\ Same0(Do("append", Do("append", x, <<w>>), <<N(1)>>), Do("append", x, <<w, N(1)>>))
        /\ Same0(Do("prepend", Do("prepend", x, <<N(1)>>), <<w>>), Do("prepend", x, <<w, N(1)>>))
        /\ Is(Do("contains", Do("append", x, <<w>>), <<w>>), V(BoolV(TRUE)))
  /\ \A i \in 1..n : LET c == Do("contains", x, <<v.v[i]>>) IN c.r = "any" \/ c.v.v \/ ~SameValue(v.v[i], v.v[i])
  /\ Is(Do0("join", x), Do("join", x, <<StrV(B(","))>>))
  /\ LET c == Do0("shuffle", x) IN c.r = "any" \/
        (/\ \A i \in 1..Len(c.c) : Same0(Do0("len", V(c.c[i])), Do0("len", x))
         /\ \A p \in 1..Len(c.c) : LET y == c.c[p].v IN
              \A i \in 1..n : Cardinality({j \in 1..n : Describe(v.v[j]) = Describe(y[i])}) = Cardinality({j \in 1..n : Describe(y[j]) = Describe(y[i])})
         /\ \E p \in 1..Len(c.c) : Describe(c.c[p]) = Describe(v))
  /\ LET c == Do0("rand", x) IN IF n = 0 THEN Is(c, V(NilV)) ELSE {Describe(c.c[i]) : i \in 1..Len(c.c)} = {Describe(v.v[i]) : i \in 1..n}
IntLaws(v) ==
  LET x == V(v)
      text == Do0("str", x)
  IN
  /\ Is(Do0("abs", Do0("abs", x)), Do0("abs", x)) /\ (~v.v.neg => Is(Do0("abs", x), x))
  /\ Is(V(IntV(IntOfBytes(text.v.v))), x)
  /\ LET w == Size(x) IN Size(text) = w + (IF v.v.neg THEN 1 ELSE 0)
  /\ (Len(v.v.m) <= 3 => Is(Do0("int", Do0("float", x)), x))
  /\ Is(Do("decimal", x, <<StrV(B(",")), N(3)>>), Do("decimal", text, <<StrV(B(",")), N(3)>>))
  /\ Is(Do("decimal", x, <<S0, N(0)>>), text)
FloatLaws(v) ==
  LET x == V(v)
      fl == Do0("floor", x)
      ce == Do0("ceil", x)
      ro == Do0("round", x)
      tr == Do0("int", x)
      Le(a, b) == a.r = "any" \/ b.r = "any" \/ ~ILt(b.v.v, a.v.v)
      minus == V(FloatV(FNeg(v.v)))
      Neg(r) == IF r.r = "v" THEN V(IntV(INeg(r.v.v))) ELSE r
  IN
  /\ Le(fl, ro) /\ Le(ro, ce) /\ Le(fl, tr) /\ Le(tr, ce)
  /\ (fl.r = "v" /\ ce.r = "v") => ce.v.v \in {fl.v.v, IAdd(fl.v.v, One)}
  /\ Is(ce, Neg(Do0("floor", minus))) /\ Is(ro, Neg(Do0("round", minus))) /\ Is(tr, Neg(Do0("int", minus)))
  /\ (fl.r = "v" /\ ce.r = "v" /\ fl.v.v = ce.v.v) => Is(ro, fl) /\ Is(tr, fl) /\ Is(Do0("int", Do0("float", fl)), fl)
  /\ Is(Do0("abs", x), Do0("abs", minus))
  \* its text reads back as the same number
  /\ LET t == Do0("str", Do0("abs", x)).v.v IN ~IsDigit(t[1]) \/ FParse(t) \in {Do0("abs", x).v.v, "ERR"}
BoolLaws(v) ==
  LET x == V(v) IN
  /\ Is(Do0("binary", x), V(N(IF v.v THEN 1 ELSE 0)))
  /\ Is(Do("then", x, <<N(1), N(0)>>), Do0("binary", x))
  /\ Is(Do("then", x, <<N(1)>>), IF v.v THEN V(N(1)) ELSE V(NilV))
ValueLaws(v) ==
  CASE v.t = "str" -> StrLaws(v)
    [] v.t = "arr" -> ArrLaws(v)
    [] v.t = "int" -> IntLaws(v)
    [] v.t = "float" -> FloatLaws(v)
    [] v.t = "bool" -> BoolLaws(v)
    [] OTHER -> TRUE

\* the text of a chain
DOTB == <<46>>
CallText(c) == DOTB \o P.names[c[1]] \o <<40>> \o JoinWith(P.arguments[c[2]], B(", ")) \o <<41>>
ChainText(st, cs) == P.receivers[st] \o Concat([i \in 1..Len(cs) |-> CallText(cs[i])])
\* evaluating it gives the value
EvalLaw(st, cs, x) ==
  LET r == EvalString(Start, B("{{ ") \o ChainText(st, cs) \o B(" }}"), P.data) IN
  CASE x.r = "v" -> PrintOf(x.v) = {} \/ (r.r = "ok" /\ r.out = PrintOf(x.v))
    [] x.r = "e" -> r.r = "e"
    [] x.r = "choice" -> r.r = "ok" \/ \E i \in 1..Len(x.c) : PrintOf(x.c[i]) = {}
    [] OTHER -> r.r = "any"

Laws ==
  IF (theValueOfIt.r = "v" => ValueLaws(theValueOfIt.v)) /\ EvalLaw(theStartOfIt, theCallsOfIt, theValueOfIt)
  THEN PrintT(ToString(<<"G", theStartOfIt, theCallsOfIt>>))
  ELSE PrintT(ToString(<<"BROKEN", ChainText(theStartOfIt, theCallsOfIt), theValueOfIt, theValueOfIt.r = "v" /\ ValueLaws(theValueOfIt.v),
                         EvalString(Start, B("{{ ") \o ChainText(theStartOfIt, theCallsOfIt) \o B(" }}"), P.data)>>)) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
