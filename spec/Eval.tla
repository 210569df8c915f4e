-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* The meaning of expressions and statements.                              *)
(*                                                                         *)
(* env is a sequence of frames, the innermost last; a frame maps names to  *)
(* values.  G is what a piece of template refers to besides variables:     *)
(*   G.funcs   the registered custom functions: [ty, name, beh, val]       *)
(*   G.where   "string", "page", "layout" or "comp": where the text is     *)
(*   G.comps   the components of the page: name -> statements              *)
(*   G.ins     the inserts of the page                                     *)
(*   G.slots   what the caller passed to the component, [name, v] each     *)
(*   G.caller  the environment of the caller of the component              *)
(*   G.data    the data of the call as an environment                      *)
(***************************************************************************)
EXTENDS Syntax, Builtins

LOOP == B("loop")
EmptyFrame == [x \in {} |-> 0]

RECURSIVE FindVar(_, _, _)
FindVar(env, name, i) == IF i = 0 THEN 0 ELSE IF name \in DOMAIN env[i] THEN i ELSE FindVar(env, name, i - 1)
Visible(env, name) == FindVar(env, name, Len(env)) # 0
Lookup(env, name) == env[FindVar(env, name, Len(env))][name]
SetVar(env, name, v) == [env EXCEPT ![Len(env)] = (name :> v) @@ @]
Push(env) == Append(env, EmptyFrame)

\* the outcome of binding a name: V(environment), an error or Unspec
Bind(env, name, v, lines) ==
  IF name = LOOP THEN E(lines, <<>>)
  ELSE IF Visible(env, name) /\ Lookup(env, name).t # v.t THEN E(lines, <<>>)
  ELSE V(SetVar(env, name, v))

Span(n) == n.l0 .. n.l1

-----------------------------------------------------------------------------
(* Operators *)

FONE == "3ff0000000000000"

IntOp(op, a, b, lines) ==
  CASE op = "ADD" -> V(IntV(IAdd(a, b)))
    [] op = "SUB" -> V(IntV(ISub(a, b)))
    [] op = "MUL" -> V(IntV(IMul(a, b)))
    [] op = "DIV" -> IF IsZero(b) THEN E(lines, <<>>) ELSE V(IntV(IDiv(a, b)))
    [] op = "MOD" -> IF IsZero(b) THEN E(lines, <<>>) ELSE V(IntV(IMod(a, b)))
    [] op = "EQ" -> V(BoolV(a = b))
    [] op = "NE" -> V(BoolV(a # b))
    [] op = "LT" -> V(BoolV(ILt(a, b)))
    [] op = "GT" -> V(BoolV(ILt(b, a)))
    [] op = "LE" -> V(BoolV(~ILt(b, a)))
    [] op = "GE" -> V(BoolV(~ILt(a, b)))
FloatOp(op, a, b, lines) ==
  CASE op = "ADD" -> V(FloatV(FAdd(a, b)))
    [] op = "SUB" -> V(FloatV(FSub(a, b)))
    [] op = "MUL" -> V(FloatV(FMul(a, b)))
    [] op = "DIV" -> V(FloatV(FDiv(a, b)))
    [] op = "MOD" -> E(lines, <<>>)
    [] op = "EQ" -> V(BoolV(FEq(a, b)))
    [] op = "NE" -> V(BoolV(~FEq(a, b)))
    [] op = "LT" -> V(BoolV(FLt(a, b)))
    [] op = "GT" -> V(BoolV(FLt(b, a)))
    [] op = "LE" -> V(BoolV(FLt(a, b) \/ FEq(a, b)))
    [] op = "GE" -> V(BoolV(FLt(b, a) \/ FEq(a, b)))
\* equality of the texts of two strings; the printed text of a literal decides
\* it unless a string from the data contains what only escaping produces
StrEq(x, y) ==
  IF x.d = "mix" \/ y.d = "mix" THEN Unspec
  ELSE IF x.d = y.d THEN V(x.v = y.v)
  ELSE LET p == IF x.d = "no" THEN x ELSE y IN IF NeedsEscape(p.v) THEN Unspec ELSE V(FALSE)
StrOp(op, x, y, lines) ==
  CASE op = "ADD" -> V([t |-> "str", v |-> x.v \o y.v, o |-> <<>>,
                        d |-> IF x.d = "no" /\ y.d = "no" THEN "no" ELSE "mix"])
    [] op \in {"EQ", "NE"} ->
         LET e == StrEq(x, y) IN IF e.r = "any" THEN Unspec ELSE V(BoolV(IF op = "EQ" THEN e.v ELSE ~e.v))
    [] OTHER -> E(lines, <<>>)
BinOp(op, x, y, lines) ==
  IF x.t # y.t THEN E(lines, <<>>)
  ELSE CASE x.t = "int" -> IntOp(op, x.v, y.v, lines)
         [] x.t = "float" -> FloatOp(op, x.v, y.v, lines)
         [] x.t = "str" -> StrOp(op, x, y, lines)
         [] OTHER -> E(lines, <<>>)

PostOp(op, x, lines) ==
  CASE x.t = "int" -> V(IntV(IF op = "INC" THEN IAdd(x.v, One) ELSE ISub(x.v, One)))
    [] x.t = "float" -> V(FloatV(IF op = "INC" THEN FAdd(x.v, FONE) ELSE FDecMinusOne(x.v)))
    [] OTHER -> E(lines, <<>>)
PreOp(op, x, lines) ==
  IF op = "SUB" THEN
    CASE x.t = "int" -> V(IntV(INeg(x.v)))
      [] x.t = "float" -> V(FloatV(FNeg(x.v)))
      [] OTHER -> E(lines, <<>>)
  ELSE CASE x.t = "bool" -> V(BoolV(~x.v))
         [] x.t = "nil" -> V(BoolV(TRUE))
         [] OTHER -> E(lines, <<>>)

\* a property of an object
UpperFirst(s) == IF s # <<>> /\ IsLower(s[1]) THEN <<s[1] - 32>> \o Tail(s) ELSE s
Property(o, name, lines) ==
  IF name \in DOMAIN o.v THEN V(o.v[name])
  ELSE IF name = <<>> THEN E(lines, <<>>)
  ELSE IF UpperFirst(name) \in DOMAIN o.v
    THEN IF UpperFirst(name) \in o.st THEN V(o.v[UpperFirst(name)]) ELSE Unspec
  ELSE IF name[1] >= 128 THEN
    \* the first letter is not ASCII: try the case mapping of Values
    LET c == IF ValidUTF8(name) THEN Chars(name) ELSE <<>>
        u == IF c = <<>> THEN <<>> ELSE UpperC(c[1])
    IN IF u = <<>> THEN Unspec
       ELSE LET k == u \o Concat(Tail(c)) IN
            IF k \in DOMAIN o.v THEN (IF k \in o.st THEN V(o.v[k]) ELSE Unspec) ELSE E(lines, <<>>)
  ELSE E(lines, <<>>)

ElementAt(a, x) ==
  IF x.neg \/ ~IsSmall(x) \/ SmallMag(x) >= Len(a.v) THEN V(NilV) ELSE V(a.v[SmallMag(x) + 1])

-----------------------------------------------------------------------------
(* Expressions *)

TypeName == TLCEval([ty \in {"str", "arr", "int", "float", "bool", "nil", "obj"} |->
  CASE ty = "str" -> B("STR") [] ty = "arr" -> B("ARR") [] ty = "int" -> B("INT") [] ty = "float" -> B("FLOAT")
    [] ty = "bool" -> B("BOOL") [] ty = "nil" -> B("NIL") [] OTHER -> B("OBJ")])

CustomFunc(G, ty, name) ==
  LET S == {k \in 1..Len(G.funcs) : G.funcs[k].ty = ty /\ G.funcs[k].name = name}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
\* The behaviours of the custom functions that the harness registers.  The Go
\* type of the result of a function is fixed by the type of its receiver, so a
\* function on numbers or booleans shows what it received as a hash.
Hash(s) == Iterate(LAMBDA x : [i |-> x.i + 1, h |-> (x.h * 31 + s[x.i]) % 1000003],
                   LAMBDA x : x.i > Len(s), [i |-> 1, h |-> 7]).h
Shown(f, x, args) == f.tag \o <<40>> \o Describe(x) \o Concat([i \in 1..Len(args) |-> <<124>> \o Describe(args[i])])
                     \o <<41>>
CustomCall(f, x, args, lines) ==
  IF ~DeepClean(x) \/ (\E i \in 1..Len(args) : ~DeepClean(args[i])) THEN Unspec
  ELSE CASE f.beh = "show" ->       \* describes what it received
              LET s == Shown(f, x, args) IN
              CASE x.t = "str" -> V(StrV(s))
                [] x.t = "arr" -> V(ArrV(<<StrV(s)>>))
                [] x.t = "int" -> V(IntV(IntOf(Hash(s))))
                [] x.t = "float" -> V(FloatV(FOfInt(NatBytes(Hash(s)))))
                [] OTHER -> V(BoolV(Hash(s) % 2 = 1))
         [] f.beh = "arg" ->        \* returns the first argument when it has the type of the result
              V(IF args # <<>> /\ args[1].t = x.t THEN args[1] ELSE x)
         [] f.beh = "args" -> V(ArrV(args))
         [] f.beh = "const" ->      \* returns a fixed Go value
              LET c == Conv(f.val) IN IF c.r = "e" THEN E(lines, <<>>) ELSE c
         [] OTHER -> Unspec

\* the results of several expressions that are all evaluated
Combine(rs) ==
  IF \E i \in 1..Len(rs) : rs[i].r \in {"any", "choice"} THEN Unspec
  ELSE LET bad == {i \in 1..Len(rs) : rs[i].r = "e"} IN
    IF bad = {} THEN V(TLCEval([i \in 1..Len(rs) |-> rs[i].v]))
    ELSE IF \E i \in bad : rs[i].lines = {} THEN E({}, <<>>)
    ELSE E(UNION {rs[i].lines : i \in bad},
           IF Cardinality(bad) = 1 THEN rs[CHOOSE i \in bad : TRUE].has ELSE <<>>)

RECURSIVE Ev(_, _, _)
EvAll(ns, env, G) == Combine(TLCEval([i \in 1..Len(ns) |-> Ev(ns[i], env, G)]))

CallOn(n, x, args, G) ==
  LET lines == n.l .. n.l1
      unknown == E(lines, <<n.f, TypeName[x.t]>>)
  IN
  IF x.t \in {"nil", "obj"} THEN unknown
  ELSE IF IsBuiltin(x, n.f) THEN
    LET r == Call(n.f, x, args) IN IF r.r = "e" THEN E(lines, <<>>) ELSE r
  ELSE LET k == CustomFunc(G, x.t, n.f) IN
    IF k = 0 THEN unknown ELSE CustomCall(G.funcs[k], x, args, lines)

Ev(n, env, G) ==
  CASE n.k = "int" -> V(IntV(n.v))
    [] n.k = "float" -> V(FloatV(n.v))
    [] n.k = "str" -> V(LiteralV(n.v))
    [] n.k = "bool" -> V(BoolV(n.v))
    [] n.k = "nil" -> V(NilV)
    [] n.k = "var" -> IF Visible(env, n.v) THEN V(Lookup(env, n.v)) ELSE E({n.l}, <<n.v>>)
    [] n.k = "arr" -> LET r == EvAll(n.v, env, G) IN IF r.r = "v" THEN V(ArrV(r.v)) ELSE r
    [] n.k = "obj" ->
         LET r == EvAll([i \in 1..Len(n.v) |-> n.v[i].e], env, G)
             ks == {n.v[i].key : i \in 1..Len(n.v)}
         IN IF r.r = "v" THEN V(ObjV(TLCEval([key \in ks |-> r.v[CHOOSE i \in 1..Len(n.v) : n.v[i].key = key]]), {})) ELSE r
    [] n.k = "bin" ->
         LET r == EvAll(<<n.x, n.y>>, env, G)
         IN IF r.r = "v" THEN BinOp(n.op, r.v[1], r.v[2], Span(n)) ELSE r
    [] n.k = "pre" ->
         LET r == EvAll(<<n.x>>, env, G) IN IF r.r = "v" THEN PreOp(n.op, r.v[1], Span(n)) ELSE r
    [] n.k = "post" ->
         LET r == EvAll(<<n.x>>, env, G) IN IF r.r = "v" THEN PostOp(n.op, r.v[1], Span(n)) ELSE r
    [] n.k = "tern" ->
         LET c == EvAll(<<n.c>>, env, G) IN
         IF c.r # "v" THEN c ELSE Ev(IF Truthy(c.v[1]) THEN n.x ELSE n.y, env, G)
    [] n.k = "index" ->
         LET r == EvAll(<<n.x, n.y>>, env, G) IN
         IF r.r # "v" THEN r
         ELSE LET a == r.v[1]
                  i == r.v[2]
              IN IF a.t = "arr" /\ i.t = "int" THEN ElementAt(a, i.v)
                 ELSE IF a.t = "obj" /\ i.t = "str"
                   THEN IF i.d = "mix" \/ (i.d = "lit" /\ n.y.k # "str") THEN Unspec
                        ELSE Property(a, i.o, Span(n))
                 ELSE E(Span(n), <<>>)
    [] n.k = "dot" ->
         LET r == EvAll(<<n.x>>, env, G) IN
         IF r.r # "v" THEN r
         ELSE IF r.v[1].t = "obj" THEN Property(r.v[1], n.f, n.ld .. n.l)
         ELSE E(n.ld .. n.l, <<>>)
    [] OTHER -> \* call
         LET x == Ev(n.x, env, G)
             as == EvAll(n.args, env, G)
         IN IF x.r = "any" \/ as.r = "any" THEN Unspec
            ELSE IF x.r = "e" /\ as.r = "e"
              THEN IF x.lines = {} \/ as.lines = {} THEN E({}, <<>>) ELSE E(x.lines \cup as.lines, <<>>)
            ELSE IF x.r = "e" THEN x
            ELSE IF as.r = "e" THEN
              \* an unknown function may be reported before its arguments are evaluated
              IF x.r = "choice" THEN Unspec
              ELSE IF x.v.t \in {"nil", "obj"} THEN E(as.lines \cup (n.l .. n.l1), <<>>) ELSE as
            ELSE IF x.r = "choice" THEN
              LET rs == TLCEval([i \in 1..Len(x.c) |-> CallOn(n, x.c[i], as.v, G)]) IN
              IF \E i \in 1..Len(rs) : rs[i].r # "v" THEN Unspec
              ELSE [r |-> "choice", c |-> [i \in 1..Len(rs) |-> rs[i].v]]
            ELSE CallOn(n, x.v, as.v, G)

-----------------------------------------------------------------------------
(* Statements.  The result is [r |-> "ok", out, env, sig]: the possible    *)
(* outputs, the environment afterwards and whether a loop is to be left    *)
(* ("break") or continued ("cont"); or an error, or Unspec.                   *)

MaxOuts == 64
Done(out, env, sig) == [r |-> "ok", out |-> out, env |-> env, sig |-> sig]
Cat(X, Y) == IF Cardinality(X) = 1 /\ Cardinality(Y) = 1
             THEN {(CHOOSE a \in X : TRUE) \o (CHOOSE b \in Y : TRUE)}
             ELSE {a \o b : a \in X, b \in Y}
NoOut == {<<>>}

PrintResult(r, env) ==
  CASE r.r = "v" -> LET p == PrintOf(r.v) IN IF p = {} THEN Unspec ELSE Done(p, env, "no")
    [] r.r = "choice" -> LET ps == {PrintOf(r.c[i]) : i \in 1..Len(r.c)}
                         IN IF {} \in ps THEN Unspec ELSE Done(UNION ps, env, "no")
    [] OTHER -> r

RECURSIVE ExecOne(_, _, _)
RECURSIVE Branches(_, _, _, _)

\* r2, which happened after r1, both of them results of statements
Then(r1, r2) ==
  IF r2.r # "ok" THEN r2
  ELSE LET out == Cat(r1.out, r2.out) IN
    IF Cardinality(out) > MaxOuts THEN Unspec ELSE Done(out, r2.env, r2.sig)

\* A sequence of results: Next(i, r) is what happens after r as number i of n
\* things.  It ends early with an error, something unspecified or a signal.
Sequence(Next(_, _), n, r0) ==
  Iterate(LAMBDA x : [i |-> x.i + 1, r |-> Then(x.r, Next(x.i, x.r))],
          LAMBDA x : x.i > n \/ x.r.r # "ok" \/ x.r.sig # "no",
          [i |-> 1, r |-> r0]).r

ExecBlock(ss, env, G) == Sequence(LAMBDA i, r : ExecOne(ss[i], r.env, G), Len(ss), Done(NoOut, env, "no"))

\* a block with a frame of its own
Scoped(ss, env, G) ==
  LET r == ExecBlock(ss, Push(env), G) IN IF r.r = "ok" THEN Done(r.out, env, r.sig) ELSE r

Branches(s, j, env, G) ==
  IF j > Len(s.br) THEN IF s.el.has THEN Scoped(s.el.v, env, G) ELSE Done(NoOut, env, "no")
  ELSE LET c == EvAll(<<s.br[j].c>>, env, G) IN
    IF c.r # "v" THEN c
    ELSE IF Truthy(c.v[1]) THEN Scoped(s.br[j].v, env, G)
    ELSE Branches(s, j + 1, env, G)

LoopObj(i, n) == ObjV((B("index") :> Nat2Int(i - 1)) @@ (B("iter") :> Nat2Int(i))
                      @@ (B("first") :> BoolV(i = 1)) @@ (B("last") :> BoolV(i = n)), {})

\* what a loop does with the result of a pass: break ends it, continue does not
AfterPass(r) == IF r.r = "ok" /\ r.sig = "cont" THEN [r EXCEPT !.sig = "no"] ELSE r
LoopDone(r) == IF r.r = "ok" THEN [r EXCEPT !.sig = "no"] ELSE r

\* the passes of an @each over the elements xs; env has the loop's frame
EachPass(s, xs, i, env, G) ==
  LET outer == SubSeq(env, 1, Len(env) - 1)
      b == Bind(outer, s.name, xs[i], s.h0 .. s.h1)
  IN IF b.r # "v" THEN b
  ELSE IF Visible(env, s.name) /\ Lookup(env, s.name).t # xs[i].t THEN Unspec
  ELSE AfterPass(ExecBlock(s.v, SetVar(SetVar(env, s.name, xs[i]), LOOP, LoopObj(i, Len(xs))), G))
EachLoop(s, xs, env, G) ==
  LoopDone(Sequence(LAMBDA i, r : EachPass(s, xs, i, r.env, G), Len(xs), Done(NoOut, env, "no")))

\* the clause applied after a pass
Post(s, env, G) ==
  IF ~s.post.has THEN V(env)
  ELSE LET p == s.post.s IN
    IF p.k = "assign" THEN
      LET v == EvAll(<<p.e>>, env, G) IN
      IF v.r # "v" THEN v ELSE Bind(env, p.name, v.v[1], s.h0 .. s.h1)
    ELSE IF p.e.k = "post" /\ p.e.x.k = "var" THEN
      LET v == EvAll(<<p.e>>, env, G) IN
      IF v.r # "v" THEN v ELSE Bind(env, p.e.x.v, v.v[1], s.h0 .. s.h1)
    ELSE Unspec

\* One pass of a @for: the body and the clause after it, or the end of the
\* loop, which the signal "end" tells from a break.
MaxPasses == 20000
ForPass(s, i, env, G) ==
  LET c == EvAll(<<s.c.s>>, env, G) IN
  IF i = MaxPasses THEN Unspec
  ELSE IF c.r # "v" THEN c
  ELSE IF ~Truthy(c.v[1]) THEN
    IF i = 1 /\ s.el.has THEN LET r == ExecBlock(s.el.v, env, G)
                              IN IF r.r = "ok" /\ r.sig = "no" THEN [r EXCEPT !.sig = "end"] ELSE
                                 IF r.r = "ok" THEN [r EXCEPT !.sig = IF r.sig = "break" THEN "else-break" ELSE "else-cont"] ELSE r
    ELSE Done(NoOut, env, "end")
  ELSE LET r == AfterPass(ExecBlock(s.v, env, G)) IN
    IF r.r # "ok" \/ r.sig # "no" THEN r
    ELSE LET p == Post(s, r.env, G) IN IF p.r # "v" THEN p ELSE Done(r.out, p.v, "no")
ForLoop(s, env, G) ==
  LET r == Sequence(LAMBDA i, r : ForPass(s, i, r.env, G), MaxPasses, Done(NoOut, env, "no"))
  IN \* signals in the @else body are about the loop around this one
     IF r.r = "ok" /\ r.sig = "else-break" THEN [r EXCEPT !.sig = "break"]
     ELSE IF r.r = "ok" /\ r.sig = "else-cont" THEN [r EXCEPT !.sig = "cont"]
     ELSE LoopDone(r)

Restore(r, env) == IF r.r = "ok" THEN Done(r.out, env, r.sig) ELSE r

\* the lines of an error are those of another file
In(f, r) == IF r.r = "e" /\ r.f = "here" THEN [r EXCEPT !.f = f] ELSE r

\* what two evaluations have in common: the same result or nothing that is specified
Agree(r1, r2) ==
  IF r1.r # r2.r \/ r1.r = "any" THEN Unspec
  ELSE IF r1.r = "e" THEN
    [r1 EXCEPT !.lines = IF r1.lines = {} \/ r2.lines = {} THEN {} ELSE r1.lines \cup r2.lines, !.has = <<>>,
               !.f = IF r1.f = r2.f THEN r1.f ELSE "other"]
  ELSE IF r1.out = r2.out /\ r1.sig = "no" /\ r2.sig = "no" THEN r1 ELSE Unspec

Assigns(ss) == \E i \in 1..Len(ss) : ss[i].k = "code" /\ \E j \in 1..Len(ss[i].v) : ss[i].v[j].k = "assign"

ExecComponent(s, env, G) ==
  IF G.where # "page" \/ s.name \notin DOMAIN G.comps THEN Unspec
  ELSE
    LET vs == EvAll([i \in 1..Len(s.args) |-> s.args[i].e], env, G)
        reserved == \E i \in 1..Len(s.args) : s.args[i].key = LOOP
        clash == vs.r = "v" /\ \E i \in 1..Len(s.args) :
                   Visible(env, s.args[i].key) /\ Lookup(env, s.args[i].key).t # vs.v[i].t
    IN IF vs.r = "any" THEN Unspec
    ELSE IF reserved THEN (IF vs.r = "e" THEN E({}, <<>>) ELSE E(s.h0 .. s.h1, <<>>))
    ELSE IF vs.r = "e" THEN vs
    ELSE IF clash THEN Unspec
    ELSE
      LET frame == TLCEval([key \in {s.args[i].key : i \in 1..Len(s.args)} |->
                      vs.v[CHOOSE i \in 1..Len(s.args) : s.args[i].key = key]])
          r == ExecBlock(G.comps[s.name], Append(env, frame),
                         [G EXCEPT !.where = "comp", !.slots = s.slots, !.caller = env])
      IN IF r.r = "ok" /\ r.sig # "no" THEN Unspec
         ELSE Restore(In("other", r), env)

ExecSlot(s, env, G) ==
  IF G.where # "comp" THEN Unspec
  ELSE LET S == {k \in 1..Len(G.slots) : G.slots[k].name = s.name} IN
    IF S = {} THEN Done(NoOut, env, "no")
    ELSE LET body == G.slots[CHOOSE k \in S : TRUE].v
             P == [G EXCEPT !.where = "page", !.slots = <<>>]
         IN IF G.leak THEN In("page", ExecBlock(body, env, P))
            ELSE Restore(In("page", Agree(Scoped(body, env, P), Scoped(body, G.caller, P))), env)

ExecReserve(s, env, G) ==
  IF G.where # "layout" THEN Unspec
  ELSE LET S == {k \in 1..Len(G.ins) : G.ins[k].name = s.name}
           P == [G EXCEPT !.where = "page"]
    IN
    IF S = {} THEN Done(NoOut, env, "no")
    ELSE LET in == G.ins[CHOOSE k \in S : TRUE] IN
      IF in.form = "expr"
        THEN Restore(In("page", Agree(PrintResult(Ev(in.e, env, P), env), PrintResult(Ev(in.e, G.data, P), G.data))),
                     env)
      ELSE IF G.leak THEN In("page", ExecBlock(in.v, env, P))
      ELSE Restore(In("page", Agree(Scoped(in.v, env, P), Scoped(in.v, G.data, P))), env)

RECURSIVE ExecCode(_, _, _, _, _)
ExecCode(v, i, env, G, acc) ==
  IF i > Len(v) THEN Done(acc, env, "no")
  ELSE IF v[i].k = "assign" THEN
    LET x == EvAll(<<v[i].e>>, env, G) IN
    IF x.r # "v" THEN x
    ELSE LET b == Bind(env, v[i].name, x.v[1], Span(v[i])) IN
      IF b.r # "v" THEN b ELSE ExecCode(v, i + 1, b.v, G, acc)
  ELSE LET r == PrintResult(Ev(v[i].e, env, G), env) IN
    IF r.r # "ok" THEN r ELSE ExecCode(v, i + 1, env, G, Cat(acc, r.out))

ExecOne(s, env, G) ==
  CASE s.k = "text" -> Done({s.v}, env, "no")
    [] s.k = "code" -> ExecCode(s.v, 1, env, G, NoOut)
    [] s.k = "if" -> Branches(s, 1, env, G)
    [] s.k = "each" ->
         LET a == EvAll(<<s.a>>, env, G) IN
         IF a.r # "v" THEN a
         ELSE IF a.v[1].t # "arr" THEN E(s.h0 .. s.h1, <<>>)
         ELSE IF a.v[1].v = <<>> THEN
           IF s.el.has THEN Restore(ExecBlock(s.el.v, Push(env), G), env) ELSE Done(NoOut, env, "no")
         ELSE Restore(EachLoop(s, a.v[1].v, Push(env), G), env)
    [] s.k = "for" ->
         IF ~s.c.has THEN Unspec
         ELSE LET init == IF s.init.has THEN ExecCode(<<s.init.s>>, 1, Push(env), G, NoOut)
                          ELSE Done(NoOut, Push(env), "no")
              IN IF init.r # "ok" THEN
                   (IF init.r = "e" /\ init.lines # {} THEN E(init.lines \cup (s.h0 .. s.h1), init.has) ELSE init)
                 ELSE Restore(ForLoop(s, init.env, G), env)
    [] s.k \in {"breakif", "contif"} ->
         LET c == EvAll(<<s.c>>, env, G) IN
         IF c.r # "v" THEN c
         ELSE Done(NoOut, env, IF ~Truthy(c.v[1]) THEN "no" ELSE IF s.k = "breakif" THEN "break" ELSE "cont")
    [] s.k = "break" -> Done(NoOut, env, "break")
    [] s.k = "cont" -> Done(NoOut, env, "cont")
    [] s.k = "comp" -> ExecComponent(s, env, G)
    [] s.k = "slot" -> ExecSlot(s, env, G)
    [] s.k = "reserve" -> ExecReserve(s, env, G)
    [] s.k = "insert" -> IF G.where = "page" THEN Done(NoOut, env, "no") ELSE Unspec
    [] s.k = "use" -> IF G.where = "string" THEN E({}, <<>>) ELSE Unspec
    [] OTHER -> \* dump
         LET r == EvAll(s.v, env, G) IN IF r.r = "e" THEN r ELSE Unspec

\* the data of a call as an environment
DataEnv(d) ==      \* d is a sequence of [n, x]
  LET xs == TLCEval([i \in 1..Len(d) |-> Conv(d[i].x)])
      w == Worst(xs)
  IN IF w.r = "any" THEN Unspec
     ELSE IF w.r = "e" \/ (\E i \in 1..Len(d) : d[i].n = LOOP) THEN E({}, <<>>)
     ELSE V(<<TLCEval([n \in {d[i].n : i \in 1..Len(d)} |-> xs[CHOOSE i \in 1..Len(d) : d[i].n = n].v])>>)

\* the rendering of statements at the top level
Run(ss, env, G) ==
  LET r == ExecBlock(ss, env, G) IN IF r.r = "ok" /\ r.sig # "no" THEN Unspec ELSE r
=============================================================================
