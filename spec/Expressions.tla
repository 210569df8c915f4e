----------------------------- MODULE Expressions -----------------------------
(***************************************************************************)
(* A model that builds every small expression tree bottom up: a state is a *)
(* stack of trees, a step pushes an operand or applies an operator to the  *)
(* topmost trees.  Module Syntax says by recursive descent how a text is   *)
(* grouped; here the precedence table says, independently of that, where   *)
(* a tree needs parentheses to be written (Minimal).  The laws relate the  *)
(* two and, for small integers, the value to TLC's own arithmetic.  The    *)
(* harness executes the text of every state whose stack is one tree.       *)
(*                                                                         *)
(* P.leaves   operands, as source text                                     *)
(* P.bins     binary operators, P.others other constructs: "neg", "not",   *)
(*            "inc", "dec", "tern", "index", "dot", "call"                 *)
(* P.pushes   the number of operands, P.ones the number of constructs with *)
(*            one operand                                                  *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

P == TLCEval(JsonDeserialize(IOEnv.PARAMS))

VARIABLES theStack, theCount, theOnes
vars == <<theStack, theCount, theOnes>>

Sign == TLCEval([op \in {"ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NE", "LT", "GT", "LE", "GE"} |->
  CASE op = "ADD" -> B("+") [] op = "SUB" -> B("-") [] op = "MUL" -> B("*") [] op = "DIV" -> B("/") [] op = "MOD" -> B("%")
    [] op = "EQ" -> B("==") [] op = "NE" -> B("!=") [] op = "LT" -> B("<") [] op = "GT" -> B(">") [] op = "LE" -> B("<=")
    [] OTHER -> B(">=")])

\* the precedence table: a construct binds tighter the higher its number is
Prec(t) ==
  CASE t.k = "tern" -> 1
    [] t.k = "bin" -> (CASE t.op \in {"EQ", "NE"} -> 2 [] t.op \in {"LT", "GT", "LE", "GE"} -> 3
                         [] t.op \in {"ADD", "SUB"} -> 4 [] OTHER -> 5)
    [] t.k \in {"dot", "call"} -> 6
    [] t.k \in {"neg", "not"} -> 7
    [] t.k = "index" -> 8
    [] t.k \in {"inc", "dec"} -> 9
    [] OTHER -> 10

Paren(s) == <<40>> \o s \o <<41>>
Sp(s) == <<32>> \o s \o <<32>>

\* The text of t with the fewest parentheses.  Index and postfix come after
\* their operand, which may be any construct that ends before them and that
\* is not a prefix operator (-a[0] is -(a[0])) or looser.
RECURSIVE Minimal(_)
Wrapped(t, min) == IF Prec(t) < min THEN Paren(Minimal(t)) ELSE Minimal(t)
After0(t) == IF t.k \in {"neg", "not", "bin", "tern"} THEN Paren(Minimal(t)) ELSE Minimal(t)
\* a prefix operator in front of a member access takes only what is before the dot
RECURSIVE Dotted(_)
Dotted(t) == t.k \in {"dot", "call"} \/ (t.k \in {"index", "inc", "dec"} /\ Dotted(t.x))
Minimal(t) ==
  CASE t.k = "leaf" -> P.leaves[t.i]
    [] t.k = "bin" -> Wrapped(t.x, Prec(t)) \o Sp(Sign[t.op]) \o Wrapped(t.y, Prec(t) + 1)
    [] t.k = "tern" -> Wrapped(t.c, 2) \o Sp(<<63>>) \o Wrapped(t.x, 2) \o Sp(<<58>>) \o Minimal(t.y)
    [] t.k \in {"neg", "not"} -> (IF t.k = "neg" THEN <<45>> ELSE <<33>>)
         \o (IF Prec(t.x) < 6 \/ Dotted(t.x) THEN Paren(Minimal(t.x)) ELSE IF t.x.k = "neg" THEN <<32>> \o Minimal(t.x) ELSE Minimal(t.x))
    [] t.k = "index" -> After0(t.x) \o <<91>> \o Minimal(t.y) \o <<93>>
    [] t.k = "dot" -> (IF Prec(t.x) < 6 THEN Paren(Minimal(t.x)) ELSE Minimal(t.x)) \o B(".n")
    [] t.k = "call" -> (IF Prec(t.x) < 6 THEN Paren(Minimal(t.x)) ELSE Minimal(t.x)) \o B(".abs()")
    [] OTHER -> After0(t.x) \o (IF t.k = "inc" THEN B("++") ELSE B("--"))

\* the text with parentheses around everything
RECURSIVE Full(_)
Full(t) ==
  CASE t.k = "leaf" -> P.leaves[t.i]
    [] t.k = "bin" -> Paren(Full(t.x)) \o Sign[t.op] \o Paren(Full(t.y))
    [] t.k = "tern" -> Paren(Full(t.c)) \o <<63>> \o Paren(Full(t.x)) \o <<58>> \o Paren(Full(t.y))
    [] t.k = "neg" -> <<45>> \o Paren(Full(t.x))
    [] t.k = "not" -> <<33>> \o Paren(Full(t.x))
    [] t.k = "index" -> Paren(Full(t.x)) \o <<91>> \o Paren(Full(t.y)) \o <<93>>
    [] t.k = "dot" -> Paren(Full(t.x)) \o B(".n")
    [] t.k = "call" -> Paren(Full(t.x)) \o B(".abs()")
    [] OTHER -> Paren(Full(t.x)) \o (IF t.k = "inc" THEN B("++") ELSE B("--"))

\* a tree of this model as a tree of module Syntax without lines, and a tree
\* of module Syntax without lines
LeafTree(i) == LET p == Parse(B("{{ ") \o P.leaves[i] \o B(" }}")) IN p.v[1].v[1].e
RECURSIVE Bare(_)
Bare(n) ==
  CASE n.k \in {"int", "float", "str", "bool", "var"} -> [k |-> n.k, v |-> n.v]
    [] n.k = "nil" -> [k |-> "nil"]
    [] n.k = "bin" -> [k |-> "bin", op |-> n.op, x |-> Bare(n.x), y |-> Bare(n.y)]
    [] n.k \in {"pre", "post"} -> [k |-> n.k, op |-> n.op, x |-> Bare(n.x)]
    [] n.k = "tern" -> [k |-> "tern", c |-> Bare(n.c), x |-> Bare(n.x), y |-> Bare(n.y)]
    [] n.k = "index" -> [k |-> "index", x |-> Bare(n.x), y |-> Bare(n.y)]
    [] n.k = "dot" -> [k |-> "dot", x |-> Bare(n.x), f |-> n.f]
    [] n.k = "call" -> [k |-> "call", x |-> Bare(n.x), f |-> n.f]
    [] OTHER -> [k |-> n.k, n |-> Len(n.v)]
RECURSIVE Wanted(_)
Wanted(t) ==
  CASE t.k = "leaf" -> Bare(LeafTree(t.i))
    [] t.k = "bin" -> [k |-> "bin", op |-> t.op, x |-> Wanted(t.x), y |-> Wanted(t.y)]
    [] t.k = "tern" -> [k |-> "tern", c |-> Wanted(t.c), x |-> Wanted(t.x), y |-> Wanted(t.y)]
    [] t.k = "neg" -> [k |-> "pre", op |-> "SUB", x |-> Wanted(t.x)]
    [] t.k = "not" -> [k |-> "pre", op |-> "NOT", x |-> Wanted(t.x)]
    [] t.k = "index" -> [k |-> "index", x |-> Wanted(t.x), y |-> Wanted(t.y)]
    [] t.k = "dot" -> [k |-> "dot", x |-> Wanted(t.x), f |-> B("n")]
    [] t.k = "call" -> [k |-> "call", x |-> Wanted(t.x), f |-> B("abs")]
    [] OTHER -> [k |-> "post", op |-> IF t.k = "inc" THEN "INC" ELSE "DEC", x |-> Wanted(t.x)]

-----------------------------------------------------------------------------
Leaf0(i) == [k |-> "leaf", i |-> i]
Top(n) == theStack[Len(theStack) - n]
Below(n) == SubSeq(theStack, 1, Len(theStack) - n)

Init == theStack = <<>> /\ theCount = 0 /\ theOnes = 0
PushLeaf ==
  /\ theCount < P.pushes
  /\ \E i \in 1..Len(P.leaves) : theStack' = Append(theStack, Leaf0(i))
  /\ theCount' = theCount + 1 /\ theOnes' = theOnes
Two ==
  /\ Len(theStack) >= 2
  /\ \/ \E i \in 1..Len(P.bins) : theStack' = Append(Below(2), [k |-> "bin", op |-> P.bins[i], x |-> Top(1), y |-> Top(0)])
     \/ \E i \in 1..Len(P.others) : P.others[i] = "index" /\ theStack' = Append(Below(2), [k |-> "index", x |-> Top(1), y |-> Top(0)])
  /\ UNCHANGED <<theCount, theOnes>>
Three ==
  /\ Len(theStack) >= 3
  /\ \E i \in 1..Len(P.others) : P.others[i] = "tern"
  /\ theStack' = Append(Below(3), [k |-> "tern", c |-> Top(2), x |-> Top(1), y |-> Top(0)])
  /\ UNCHANGED <<theCount, theOnes>>
OneOp ==
  /\ theStack # <<>> /\ theOnes < P.ones
  /\ \E i \in 1..Len(P.others) : P.others[i] \in {"neg", "not", "inc", "dec", "dot", "call"}
                                 /\ theStack' = Append(Below(1), [k |-> P.others[i], x |-> Top(0)])
  /\ theOnes' = theOnes + 1 /\ theCount' = theCount
Next == PushLeaf \/ Two \/ Three \/ OneOp

-----------------------------------------------------------------------------
(* The value of a tree by TLC's own integers, for trees of small integers: *)
(* [ok, t, v], ok is FALSE when the tree is not of that kind.              *)
NoVal == [ok |-> FALSE, t |-> "no", v |-> 0]
IntVal(n) == [ok |-> -30000 < n /\ n < 30000, t |-> "int", v |-> n]
BoolVal(b) == [ok |-> TRUE, t |-> "bool", v |-> b]
Quot(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
RECURSIVE Value(_)
Value(t) ==
  CASE t.k = "leaf" -> LET e == LeafTree(t.i) IN IF e.k = "int" /\ IsSmall(e.v) THEN IntVal(Small(e.v)) ELSE IF e.k = "bool" THEN BoolVal(e.v) ELSE NoVal
    [] t.k = "bin" ->
         LET a == Value(t.x) b == Value(t.y) IN
         IF ~a.ok \/ ~b.ok \/ a.t # "int" \/ b.t # "int" \/ (t.op \in {"DIV", "MOD"} /\ b.v = 0) THEN NoVal
         ELSE (CASE t.op = "ADD" -> IntVal(a.v + b.v)
                 [] t.op = "SUB" -> IntVal(a.v - b.v)
                 [] t.op = "MUL" -> IntVal(a.v * b.v)
                 [] t.op = "DIV" -> IntVal(Quot(a.v, b.v))
                 [] t.op = "MOD" -> IntVal(a.v - Quot(a.v, b.v) * b.v)
                 [] t.op = "EQ" -> BoolVal(a.v = b.v)
                 [] t.op = "NE" -> BoolVal(a.v # b.v)
                 [] t.op = "LT" -> BoolVal(a.v < b.v)
                 [] t.op = "GT" -> BoolVal(a.v > b.v)
                 [] t.op = "LE" -> BoolVal(a.v <= b.v)
                 [] OTHER -> BoolVal(a.v >= b.v))
    [] t.k = "tern" -> LET c == Value(t.c) IN IF ~c.ok THEN NoVal ELSE IF (IF c.t = "int" THEN c.v # 0 ELSE c.v) THEN Value(t.x) ELSE Value(t.y)
    [] t.k = "neg" -> LET a == Value(t.x) IN IF a.ok /\ a.t = "int" THEN IntVal(-a.v) ELSE NoVal
    [] t.k = "not" -> LET a == Value(t.x) IN IF a.ok /\ a.t = "bool" THEN BoolVal(~a.v) ELSE NoVal
    [] t.k = "inc" -> LET a == Value(t.x) IN IF a.ok /\ a.t = "int" THEN IntVal(a.v + 1) ELSE NoVal
    [] t.k = "dec" -> LET a == Value(t.x) IN IF a.ok /\ a.t = "int" THEN IntVal(a.v - 1) ELSE NoVal
    [] t.k = "call" -> LET a == Value(t.x) IN IF a.ok /\ a.t = "int" THEN IntVal(IF a.v < 0 THEN -a.v ELSE a.v) ELSE NoVal
    [] OTHER -> NoVal

PrintInt(v) == IF v.t = "int" THEN IntBytes(IntOf(v.v)) ELSE IF v.v THEN B("1") ELSE B("0")
Code(s) == B("{{ ") \o s \o B(" }}")
TreeOf(s) == LET p == Parse(s) IN
             IF p.k = "ok" /\ Len(p.v) = 1 /\ p.v[1].k = "code" /\ Len(p.v[1].v) = 1 /\ p.v[1].v[1].k = "expr" THEN Bare(p.v[1].v[1].e)
             ELSE [k |-> p.k]
Result(s) == LET r == EvalString(Start, s, P.data) IN IF r.r = "e" THEN [r |-> "e"] ELSE r

Law(t) ==
  LET a == TLCEval(Code(Minimal(t)))
      b == TLCEval(Code(Full(t)))
      w == TLCEval(Wanted(t))
      r == TLCEval(Result(a))
      v == TLCEval(Value(t))
  IN /\ TreeOf(a) = w
     /\ TreeOf(b) = w
     /\ Result(b) = r
     /\ v.ok => r = [r |-> "ok", out |-> {PrintInt(v)}]

Laws ==
  IF Len(theStack) # 1 THEN PrintT(ToString(<<"S", theStack, theCount, theOnes>>))
  ELSE IF Law(theStack[1]) THEN PrintT(ToString(<<"G", Minimal(theStack[1]), theCount, theOnes>>))
  ELSE PrintT(ToString(<<"BROKEN", theStack[1], Minimal(theStack[1]), Full(theStack[1]), Value(theStack[1]), Result(Code(Minimal(theStack[1])))>>)) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
