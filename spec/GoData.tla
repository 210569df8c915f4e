------------------------------- MODULE GoData -------------------------------
(***************************************************************************)
(* A model of somebody who builds Go data, bottom up: the state is the     *)
(* sequence of what was done and the stack of the data that it built.      *)
(* P.leaves are the data to begin with; they are wrapped in pointers,      *)
(* slices, maps and structs.  The laws say that where the data came from   *)
(* does not matter: a part of it that an expression reaches is what it     *)
(* would be by itself.  The harness gives all of them to the code.         *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

P == TLCEval(JsonDeserialize(IOEnv.PARAMS))

VARIABLES theDone, theStack
vars == <<theDone, theStack>>

Ptr(x) == [k |-> "ptr", x |-> x]
Slice(xs) == [k |-> "slice", x |-> xs]
Map(ps) == [k |-> "map", x |-> ps]
Struct(fs) == [k |-> "struct", x |-> fs]
Pair(n, x) == [n |-> B(n), x |-> x]
Field(n, e, x) == [n |-> B(n), e |-> e, x |-> x]

\* the ways to wrap the upper one or two data of the stack
One1 == <<"ptr", "slice", "map", "struct", "hidden">>
Two1 == <<"slice2", "map2", "struct2", "half">>
Wrapped(w, x, y) ==
  CASE w = "ptr" -> Ptr(x)
    [] w = "slice" -> Slice(<<x>>)
    [] w = "map" -> Map(<<Pair("a", x)>>)
    [] w = "struct" -> Struct(<<Field("Name", TRUE, x)>>)
    [] w = "hidden" -> Struct(<<Field("name", FALSE, x)>>)
    [] w = "slice2" -> Slice(<<x, y>>)
    [] w = "map2" -> Map(<<Pair("b", x), Pair("Ab", y)>>)
    [] w = "struct2" -> Struct(<<Field("B", TRUE, x), Field("AB", TRUE, y)>>)
    [] OTHER -> Struct(<<Field("name", FALSE, x), Field("Name", TRUE, y)>>)

Init == theDone = <<>> /\ theStack = <<>>
Next ==
  /\ Len(theDone) < P.max
  /\ \/ \E k \in 1..Len(P.leaves) :
          /\ Len(theStack) < 2
          /\ theDone' = Append(theDone, k) /\ theStack' = Append(theStack, P.leaves[k])
     \/ \E k \in 1..Len(One1) :
          /\ theStack # <<>>
          /\ theDone' = Append(theDone, 100 + k)
          /\ theStack' = SubSeq(theStack, 1, Len(theStack) - 1) \o <<Wrapped(One1[k], theStack[Len(theStack)], 0)>>
     \/ \E k \in 1..Len(Two1) :
          /\ Len(theStack) = 2
          /\ theDone' = Append(theDone, 200 + k)
          /\ theStack' = <<Wrapped(Two1[k], theStack[1], theStack[2])>>

-----------------------------------------------------------------------------
(* Laws *)

\* whether the template can reach something unsupported
RECURSIVE Spoiled(_)
Spoiled(d) ==
  CASE d.k = "ptr" -> Spoiled(d.x)
    [] d.k = "slice" -> \E i \in 1..Len(d.x) : Spoiled(d.x[i])
    [] d.k = "map" -> \E i \in 1..Len(d.x) : Spoiled(d.x[i].x)
    [] d.k = "struct" -> \E i \in 1..Len(d.x) : d.x[i].e /\ Spoiled(d.x[i].x)
    [] OTHER -> d.k = "bad"
\* the texts that reach the parts of x, and the parts
LowerFirst(n) == IF IsUpper(n[1]) THEN <<n[1] + 32>> \o Tail(n) ELSE n
RECURSIVE Parts(_, _)
Parts(d, x) ==
  CASE d.k = "ptr" -> Parts(d.x, x)
    [] d.k = "slice" -> [i \in 1..Len(d.x) |-> [t |-> x \o B("[") \o NatBytes(i - 1) \o B("]"), d |-> d.x[i]]]
    [] d.k = "map" -> Concat([i \in 1..Len(d.x) |-> <<[t |-> x \o B(".") \o d.x[i].n, d |-> d.x[i].x],
                                                     [t |-> x \o B("['") \o d.x[i].n \o B("']"), d |-> d.x[i].x]>>])
    [] d.k = "struct" -> LET fs == SelectSeq(d.x, LAMBDA f : f.e) IN
                         Concat([i \in 1..Len(fs) |-> <<[t |-> x \o B(".") \o fs[i].n, d |-> fs[i].x],
                                                        [t |-> x \o B("['") \o fs[i].n \o B("']"), d |-> fs[i].x],
                                                        [t |-> x \o B(".") \o LowerFirst(fs[i].n), d |-> fs[i].x]>>])
    [] OTHER -> <<>>

VARX == B("v")
Show(text, d) == EvalString(Start, text, <<[n |-> VARX, x |-> d]>>)
In0(x) == B("{{ ") \o x \o B(" }}")
\* the same outcome, except for the lines of an error
Alike(a, b) == a.r = b.r /\ (a.r = "ok" => a.out = b.out)

Law(d) ==
  LET c == TLCEval(Conv(d))
      whole == TLCEval(Show(In0(VARX), d))
  IN
  /\ (c.r = "e") => Spoiled(d)
  /\ Spoiled(d) => c.r # "v"
  /\ Show(B("x"), d).r = (IF c.r = "v" THEN "ok" ELSE c.r)
  /\ c = Conv(Ptr(d))
  /\ c.r = "v" =>
       \* the parts
       /\ LET ps == Parts(d, VARX) IN \A i \in 1..Len(ps) :
            /\ Alike(Show(In0(ps[i].t), d), Show(In0(VARX), ps[i].d))
            /\ LET qs == Parts(ps[i].d, ps[i].t) IN \A j \in 1..Len(qs) : Alike(Show(In0(qs[j].t), d), Show(In0(VARX), qs[j].d))
       \* ways to show the whole
       /\ Alike(whole, Show(B("{{ y = v }}{{ y }}"), d))
       /\ Alike(whole, Show(B("@each(y in [v]){{ y }}@end"), d)) /\ Alike(whole, Show(B("{{ [v][0] }}"), d)) /\ Alike(whole, Show(B("{{ {k: v}.k }}"), d))
       /\ Alike(whole, Show(B("{{ true ? v : v }}"), d)) /\ Alike(whole, Show(B("{{ true.then(v) }}"), d))
       /\ Alike(Show(B("{{ v ? 1 : 2 }}"), d), Show(B("@if(v)1@else{{ 2 }}@end"), d))
       /\ Alike(Show(B("@if(false)3@elseif(v)1@else{{ 2 }}@end"), d), Show(B("{{ v ? 1 : 2 }}"), d))
       /\ c.v.t = "bool" => Alike(Show(B("@if(!v)2@else{{ 1 }}@end"), d), Show(B("{{ v ? 1 : 2 }}"), d))
       \* what is not there
       /\ c.v.t = "arr" => Show(In0(B("v.len()")), d).out = {NatBytes(Len(c.v.v))}
       /\ c.v.t = "obj" => Show(In0(B("v.zzz")), d).r = "e"

Laws ==
  IF Len(theStack) # 1 THEN PrintT(ToString(<<"S", theDone>>))
  ELSE IF Law(theStack[1]) THEN PrintT(ToString(<<"G", theDone>>))
  ELSE PrintT(ToString(<<"BROKEN", theDone, theStack[1], Conv(theStack[1])>>)) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
