------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The grammar.  Parse(s) is the program of the byte string s or an error. *)
(*                                                                         *)
(* Parsing functions take the tokens T and a position i and return         *)
(*   [k |-> "ok", i, n]    n is the result, i the position after it, or    *)
(*   [k |-> "bad", i, c]   the token i does not fit; the class c is        *)
(*     "eof"    the input ends too early,                                  *)
(*     "ill"    the token is an illegal character,                         *)
(*     "unexp"  any other token that cannot be there,                      *)
(*     "open"   the language does not say whether this is valid.           *)
(*                                                                         *)
(* Every node has the line l on which its own token ends and the lines     *)
(* l0..l1 of its first and last token.                                     *)
(***************************************************************************)
EXTENDS Lexer, Int64, Float64

Ok(i, n) == [k |-> "ok", i |-> i, n |-> n]
Bad(T, i) == [k |-> "bad", i |-> i,
              c |-> IF T[i].t = "EOF" THEN "eof" ELSE IF T[i].t = "ILLEGAL" THEN "ill" ELSE "unexp"]
Open(i) == [k |-> "bad", i |-> i, c |-> "open"]

-----------------------------------------------------------------------------
(* Expressions, from the loosest to the tightest level:                    *)
(*   ternary < equality < comparison < additive < multiplicative           *)
(*   < member access < prefix < index < postfix                            *)

Level == <<
  [op \in {"EQ", "NE"} |-> TRUE],
  [op \in {"LT", "GT", "LE", "GE"} |-> TRUE],
  [op \in {"ADD", "SUB"} |-> TRUE],
  [op \in {"MUL", "DIV", "MOD"} |-> TRUE] >>

RECURSIVE Expr(_, _)
RECURSIVE Binary(_, _, _)
RECURSIVE BinaryRest(_, _, _)
RECURSIVE Member(_, _)
RECURSIVE MemberRest(_, _)
RECURSIVE Unary(_, _)
RECURSIVE TightRest(_, _)
RECURSIVE List(_, _, _, _)
RECURSIVE Pairs(_, _, _)

Leaf(T, i, kind, v) == Ok(i + 1, [k |-> kind, v |-> v, l |-> T[i].l, l0 |-> T[i].l0, l1 |-> T[i].l])

\* elements up to the closing token; a trailing comma is allowed
List(T, i, close, acc) ==
  IF T[i].t = close THEN Ok(i + 1, acc)
  ELSE LET e == Expr(T, i) IN
    IF e.k = "bad" THEN e
    ELSE IF T[e.i].t = "COMMA" THEN List(T, e.i + 1, close, Append(acc, e.n))
    ELSE IF T[e.i].t = close THEN Ok(e.i + 1, Append(acc, e.n))
    ELSE Bad(T, e.i)

\* key: value pairs; an identifier alone is a key and the variable of that name
Pairs(T, i, acc) ==
  IF T[i].t = "RBRACE" THEN IF acc = <<>> THEN Ok(i + 1, acc) ELSE Open(i)
  ELSE IF T[i].t \notin {"IDENT", "STR", "INT"} THEN
    IF T[i].t \in {"EOF", "ILLEGAL"} THEN Bad(T, i) ELSE Open(i)
  ELSE
    LET colon == T[i + 1].t = "COLON"
        e == IF colon THEN Expr(T, i + 2)
             ELSE IF T[i].t = "IDENT" THEN Expr(T, i) ELSE Open(i)
    IN
    IF e.k = "bad" THEN e
    ELSE IF (T[i].t # "IDENT" /\ T[i].lit = <<>>) \/ (\E k \in 1..Len(acc) : acc[k].key = T[i].lit)
         \/ (~colon /\ e.i # i + 1)
      THEN Open(i)
    ELSE LET acc2 == Append(acc, [key |-> T[i].lit, e |-> e.n]) IN
      IF T[e.i].t = "COMMA" THEN Pairs(T, e.i + 1, acc2)
      ELSE IF T[e.i].t = "RBRACE" THEN Ok(e.i + 1, acc2)
      ELSE Bad(T, e.i)

Primary(T, i) ==
  LET t == T[i].t IN
  CASE t = "IDENT" -> Leaf(T, i, "var", T[i].lit)
    [] t = "INT" -> LET v == IntOfBytes(T[i].lit) IN IF InRange(v) THEN Leaf(T, i, "int", v) ELSE Bad(T, i)
    [] t = "FLOAT" ->
         IF Cardinality({k \in 1..Len(T[i].lit) : T[i].lit[k] = 46}) # 1 THEN Bad(T, i)
         ELSE LET v == FParse(T[i].lit) IN IF v = "ERR" THEN Open(i) ELSE Leaf(T, i, "float", v)
    [] t = "STR" -> Leaf(T, i, "str", T[i].lit)
    [] t = "TRUE" -> Leaf(T, i, "bool", TRUE)
    [] t = "FALSE" -> Leaf(T, i, "bool", FALSE)
    [] t = "NIL" -> Leaf(T, i, "nil", 0)
    [] t = "LPAREN" ->
         LET e == Expr(T, i + 1) IN
         IF e.k = "bad" THEN e
         ELSE IF T[e.i].t # "RPAREN" THEN Bad(T, e.i)
         ELSE Ok(e.i + 1, [e.n EXCEPT !.l0 = T[i].l0, !.l1 = T[e.i].l])
    [] t = "LBRACKET" ->
         LET e == List(T, i + 1, "RBRACKET", <<>>) IN
         IF e.k = "bad" THEN e
         ELSE Ok(e.i, [k |-> "arr", v |-> e.n, l |-> T[i].l, l0 |-> T[i].l0, l1 |-> T[e.i - 1].l])
    [] t = "LBRACE" ->
         LET e == Pairs(T, i + 1, <<>>) IN
         IF e.k = "bad" THEN e
         ELSE Ok(e.i, [k |-> "obj", v |-> e.n, l |-> T[i].l, l0 |-> T[i].l0, l1 |-> T[e.i - 1].l])
    [] OTHER -> Bad(T, i)

\* index and postfix operators, which bind tighter than a prefix operator
OneTight(T, r) ==
  LET i == r.i IN
  IF T[i].t = "LBRACKET" THEN
    LET e == Expr(T, i + 1) IN
    IF e.k = "bad" THEN e
    ELSE IF T[e.i].t # "RBRACKET" THEN Bad(T, e.i)
    ELSE Ok(e.i + 1, [k |-> "index", x |-> r.n, y |-> e.n, l |-> T[i].l, l0 |-> r.n.l0, l1 |-> T[e.i].l])
  ELSE Ok(i + 1, [k |-> "post", op |-> T[i].t, x |-> r.n, l |-> T[i].l, l0 |-> r.n.l0, l1 |-> T[i].l])
TightRest(T, r) ==
  IF r.k = "bad" THEN r
  ELSE IF T[r.i].t \in {"LBRACKET", "INC", "DEC"} THEN TightRest(T, OneTight(T, r))
  ELSE r

Unary(T, i) ==
  IF T[i].t \in {"SUB", "NOT"} THEN
    LET e == Unary(T, i + 1) IN
    IF e.k = "bad" THEN e
    ELSE Ok(e.i, [k |-> "pre", op |-> T[i].t, x |-> e.n, l |-> T[i].l, l0 |-> T[i].l0, l1 |-> e.n.l1])
  ELSE TightRest(T, Primary(T, i))

MemberRest(T, r) ==
  IF r.k = "bad" THEN r
  ELSE IF T[r.i].t \in {"LBRACKET", "INC", "DEC"} THEN MemberRest(T, OneTight(T, r))
  ELSE IF T[r.i].t # "DOT" THEN r
  ELSE LET i == r.i IN
    IF T[i + 1].t # "IDENT" THEN Bad(T, i + 1)
    ELSE IF T[i + 2].t = "LPAREN" THEN
      LET e == List(T, i + 3, "RPAREN", <<>>) IN
      IF e.k = "bad" THEN e
      ELSE MemberRest(T, Ok(e.i, [k |-> "call", x |-> r.n, f |-> T[i + 1].lit, args |-> e.n,
                                  l |-> T[i + 1].l, l0 |-> r.n.l0, l1 |-> T[e.i - 1].l]))
    ELSE MemberRest(T, Ok(i + 2, [k |-> "dot", x |-> r.n, f |-> T[i + 1].lit,
                                  l |-> T[i + 1].l, ld |-> T[i].l, l0 |-> r.n.l0, l1 |-> T[i + 1].l]))
Member(T, i) == MemberRest(T, Unary(T, i))

\* left associative binary operators of level k (5 is the level of member access)
Binary(T, i, k) == IF k = 5 THEN Member(T, i) ELSE BinaryRest(T, Binary(T, i, k + 1), k)
BinaryRest(T, r, k) ==
  IF r.k = "bad" \/ T[r.i].t \notin DOMAIN Level[k] THEN r
  ELSE LET e == Binary(T, r.i + 1, k + 1) IN
    IF e.k = "bad" THEN e
    ELSE BinaryRest(T, Ok(e.i, [k |-> "bin", op |-> T[r.i].t, x |-> r.n, y |-> e.n,
                                l |-> T[r.i].l, l0 |-> r.n.l0, l1 |-> e.n.l1]), k)

Expr(T, i) ==
  LET c == Binary(T, i, 1) IN
  IF c.k = "bad" \/ T[c.i].t # "QUESTION" THEN c
  ELSE LET a == Binary(T, c.i + 1, 1) IN
    IF a.k = "bad" THEN a
    ELSE IF T[a.i].t = "QUESTION" THEN Open(a.i)
    ELSE IF T[a.i].t # "COLON" THEN Bad(T, a.i)
    ELSE LET b == Expr(T, a.i + 1) IN
      IF b.k = "bad" THEN b
      ELSE Ok(b.i, [k |-> "tern", c |-> c.n, x |-> a.n, y |-> b.n,
                    l |-> T[c.i].l, l0 |-> c.n.l0, l1 |-> b.n.l1])

-----------------------------------------------------------------------------
(* Statements *)

RECURSIVE Stmt(_, _)
RECURSIVE ElseIfs(_, _, _)
RECURSIVE Slots(_, _, _)
RECURSIVE CodeRest(_, _, _)

Expect(T, i, t) == T[i].t = t

\* an assignment or an expression
Simple(T, i) ==
  IF T[i].t = "IDENT" /\ T[i + 1].t = "ASSIGN" THEN
    LET e == Expr(T, i + 2) IN
    IF e.k = "bad" THEN e
    ELSE Ok(e.i, [k |-> "assign", name |-> T[i].lit, e |-> e.n, l |-> T[i].l, l0 |-> T[i].l0, l1 |-> e.n.l1])
  ELSE LET e == Expr(T, i) IN
    IF e.k = "bad" THEN e
    ELSE Ok(e.i, [k |-> "expr", e |-> e.n, l |-> e.n.l, l0 |-> e.n.l0, l1 |-> e.n.l1])

\* the statements inside of braces, separated by semicolons
CodeRest(T, i, acc) ==
  LET s == Simple(T, i) IN
  IF s.k = "bad" THEN (IF T[i].t = "RBRACES" /\ acc # <<>> THEN Open(i) ELSE s)
  ELSE IF T[s.i].t = "SEMI" THEN CodeRest(T, s.i + 1, Append(acc, s.n))
  ELSE IF T[s.i].t = "RBRACES" THEN
    LET body == Append(acc, s.n)
    IN Ok(s.i + 1, [k |-> "code", v |-> body, l |-> T[s.i].l, l0 |-> body[1].l0, l1 |-> T[s.i].l])
  ELSE Bad(T, s.i)

\* "(" expression ")" after the token i
Cond(T, i) ==
  IF T[i + 1].t # "LPAREN" THEN Bad(T, i + 1)
  ELSE LET e == Expr(T, i + 2) IN
    IF e.k = "bad" THEN e
    ELSE IF T[e.i].t # "RPAREN" THEN Bad(T, e.i)
    ELSE Ok(e.i + 1, e.n)

\* statements up to a closing directive, which is not consumed
Block(T, i) ==
  LET x == Iterate(LAMBDA y : LET s == Stmt(T, y.i)
                              IN IF s.k = "bad" THEN [k |-> "bad", i |-> s.i, c |-> s.c]
                                 ELSE [k |-> "ok", i |-> s.i, n |-> Append(y.n, s.n)],
                   LAMBDA y : y.k = "bad" \/ T[y.i].t \in {"ELSE", "ELSEIF", "END", "EOF"},
                   Ok(i, <<>>))
  IN x

NoElse == [has |-> FALSE, v |-> <<>>]
\* [@else block] @end
ElseEnd(T, i) ==
  IF T[i].t = "ELSE" THEN
    LET b == Block(T, i + 1) IN
    IF b.k = "bad" THEN b
    ELSE IF T[b.i].t # "END" THEN Bad(T, b.i)
    ELSE Ok(b.i + 1, [has |-> TRUE, v |-> b.n])
  ELSE IF T[i].t # "END" THEN Bad(T, i)
  ELSE Ok(i + 1, NoElse)

ElseIfs(T, i, acc) ==
  IF T[i].t # "ELSEIF" THEN Ok(i, acc)
  ELSE LET c == Cond(T, i) IN
    IF c.k = "bad" THEN c
    ELSE LET b == Block(T, c.i) IN
      IF b.k = "bad" THEN b
      ELSE ElseIfs(T, b.i, Append(acc, [c |-> c.n, v |-> b.n]))

IfStmt(T, i) ==
  LET c == Cond(T, i) IN
  IF c.k = "bad" THEN c
  ELSE LET b == Block(T, c.i) IN
    IF b.k = "bad" THEN b
    ELSE LET es == ElseIfs(T, b.i, <<[c |-> c.n, v |-> b.n]>>) IN
      IF es.k = "bad" THEN es
      ELSE LET el == ElseEnd(T, es.i) IN
        IF el.k = "bad" THEN el
        ELSE Ok(el.i, [k |-> "if", br |-> es.n, el |-> el.n, l |-> T[i].l])

EachStmt(T, i) ==
  IF T[i + 1].t # "LPAREN" THEN Bad(T, i + 1)
  ELSE IF T[i + 2].t # "IDENT" THEN Bad(T, i + 2)
  ELSE IF T[i + 3].t # "IN" THEN Bad(T, i + 3)
  ELSE LET a == Expr(T, i + 4) IN
    IF a.k = "bad" THEN a
    ELSE IF T[a.i].t # "RPAREN" THEN Bad(T, a.i)
    ELSE LET b == Block(T, a.i + 1) IN
      IF b.k = "bad" THEN b
      ELSE LET el == ElseEnd(T, b.i) IN
        IF el.k = "bad" THEN el
        ELSE Ok(el.i, [k |-> "each", name |-> T[i + 2].lit, a |-> a.n, v |-> b.n, el |-> el.n,
                       l |-> T[i].l, h0 |-> T[i].l0, h1 |-> T[a.i].l])

\* an optional clause of @for that ends before the token t
Clause(T, i, t, full) ==
  IF T[i].t = t THEN Ok(i, [has |-> FALSE])
  ELSE LET e == IF full THEN Simple(T, i) ELSE Expr(T, i) IN
    IF e.k = "bad" THEN e
    ELSE IF T[e.i].t # t THEN Bad(T, e.i)
    ELSE Ok(e.i, [has |-> TRUE, s |-> e.n])
ForStmt(T, i) ==
  IF T[i + 1].t # "LPAREN" THEN Bad(T, i + 1)
  ELSE LET a == Clause(T, i + 2, "SEMI", TRUE) IN
    IF a.k = "bad" THEN a
    ELSE LET c == Clause(T, a.i + 1, "SEMI", FALSE) IN
      IF c.k = "bad" THEN c
      ELSE LET p == Clause(T, c.i + 1, "RPAREN", TRUE) IN
        IF p.k = "bad" THEN p
        ELSE LET b == Block(T, p.i + 1) IN
          IF b.k = "bad" THEN b
          ELSE LET el == ElseEnd(T, b.i) IN
            IF el.k = "bad" THEN el
            ELSE Ok(el.i, [k |-> "for", init |-> a.n, c |-> c.n, post |-> p.n, v |-> b.n, el |-> el.n,
                           l |-> T[i].l, h0 |-> T[i].l0, h1 |-> T[p.i].l])

\* "(" string; r.n is the name
Name(T, i) ==
  IF T[i + 1].t # "LPAREN" THEN Bad(T, i + 1)
  ELSE IF T[i + 2].t = "STR" THEN Ok(i + 3, T[i + 2].lit)
  ELSE IF T[i + 2].t \in {"EOF", "ILLEGAL"} THEN Bad(T, i + 2) ELSE Open(i + 2)
Named(T, i, kind) ==
  LET n == Name(T, i) IN
  IF n.k = "bad" THEN n
  ELSE IF n.n = <<>> /\ kind = "use" THEN Bad(T, i + 2)
  ELSE IF T[n.i].t # "RPAREN" THEN Bad(T, n.i)
  ELSE Ok(n.i + 1, [k |-> kind, name |-> n.n, l |-> T[i].l])

InsertStmt(T, i) ==
  LET n == Name(T, i) IN
  IF n.k = "bad" THEN n
  ELSE IF T[n.i].t = "COMMA" THEN
    LET e == Expr(T, n.i + 1) IN
    IF e.k = "bad" THEN e
    ELSE IF T[e.i].t # "RPAREN" THEN Bad(T, e.i)
    ELSE Ok(e.i + 1, [k |-> "insert", name |-> n.n, form |-> "expr", e |-> e.n, ti |-> i, l |-> T[i].l])
  ELSE IF T[n.i].t # "RPAREN" THEN Bad(T, n.i)
  ELSE LET b == Block(T, n.i + 1) IN
    IF b.k = "bad" THEN b
    ELSE IF T[b.i].t # "END" THEN Bad(T, b.i)
    ELSE Ok(b.i + 1, [k |-> "insert", name |-> n.n, form |-> "block", v |-> b.n, ti |-> i, l |-> T[i].l])

\* a placeholder of a component file
SlotStmt(T, i) ==
  IF T[i + 1].t = "LPAREN" THEN Named(T, i, "slot")
  ELSE Ok(i + 1, [k |-> "slot", name |-> <<>>, l |-> T[i].l])

\* the slots passed to a component, from the token i on, and its @end
Slots(T, i, acc) ==
  LET ws == T[i].t = "HTML"
      j == IF ws THEN i + 1 ELSE i
  IN
  IF ws /\ ~AllSpace(T[i].lit) THEN Open(i)
  ELSE IF T[j].t = "END" THEN Ok(j + 1, acc)
  ELSE IF T[j].t # "SLOT" THEN Bad(T, j)
  ELSE
    LET h == IF T[j + 1].t = "LPAREN" THEN Named(T, j, "slot")
             ELSE Ok(j + 1, [k |-> "slot", name |-> <<>>, l |-> T[j].l])
    IN IF h.k = "bad" THEN h
    ELSE LET b == Block(T, h.i) IN
      IF b.k = "bad" THEN b
      ELSE IF T[b.i].t # "END" THEN Bad(T, b.i)
      ELSE Slots(T, b.i + 1, Append(acc, [name |-> h.n.name, v |-> b.n, l |-> T[j].l]))

ComponentStmt(T, i) ==
  LET n == Name(T, i) IN
  IF n.k = "bad" THEN n
  ELSE IF n.n = <<>> THEN Bad(T, i + 2)
  ELSE
    LET a == IF T[n.i].t = "COMMA" THEN
               LET e == Expr(T, n.i + 1) IN
               IF e.k = "bad" THEN e
               ELSE IF e.n.k # "obj" \/ T[n.i + 1].t # "LBRACE" THEN [k |-> "bad", i |-> n.i + 1, c |-> "arg"]
               ELSE Ok(e.i, e.n.v)
             ELSE Ok(n.i, <<>>)
    IN IF a.k = "bad" THEN a
    ELSE IF T[a.i].t # "RPAREN" THEN Bad(T, a.i)
    ELSE
      LET j == a.i + 1
          slots == T[j].t = "SLOT" \/ (T[j].t = "HTML" /\ AllSpace(T[j].lit) /\ T[j + 1].t = "SLOT")
          s == IF slots THEN Slots(T, j, <<>>) ELSE Ok(j, <<>>)
      IN IF s.k = "bad" THEN s
      ELSE Ok(s.i, [k |-> "comp", name |-> n.n, args |-> a.n, slots |-> s.n, l |-> T[i].l,
                    h0 |-> T[i].l0, h1 |-> T[a.i].l])

DumpStmt(T, i) ==
  IF T[i + 1].t # "LPAREN" THEN Bad(T, i + 1)
  ELSE LET e == List(T, i + 2, "RPAREN", <<>>) IN
    IF e.k = "bad" THEN e
    ELSE Ok(e.i, [k |-> "dump", v |-> e.n, l |-> T[i].l])

Stmt(T, i) ==
  LET t == T[i].t IN
  CASE t = "HTML" -> Ok(i + 1, [k |-> "text", v |-> T[i].lit, l |-> T[i].l])
    [] t = "LBRACES" -> CodeRest(T, i + 1, <<>>)
    [] t = "IF" -> IfStmt(T, i)
    [] t = "EACH" -> EachStmt(T, i)
    [] t = "FOR" -> ForStmt(T, i)
    [] t \in {"BREAKIF", "CONTINUEIF"} ->
         LET c == Cond(T, i) IN
         IF c.k = "bad" THEN c
         ELSE Ok(c.i, [k |-> IF t = "BREAKIF" THEN "breakif" ELSE "contif", c |-> c.n, l |-> T[i].l])
    [] t = "BREAK" -> Ok(i + 1, [k |-> "break", l |-> T[i].l])
    [] t = "CONTINUE" -> Ok(i + 1, [k |-> "cont", l |-> T[i].l])
    [] t = "USE" -> Named(T, i, "use")
    [] t = "RESERVE" -> Named(T, i, "reserve")
    [] t = "INSERT" -> InsertStmt(T, i)
    [] t = "SLOT" -> SlotStmt(T, i)
    [] t = "COMPONENT" -> ComponentStmt(T, i)
    [] t = "DUMP" -> DumpStmt(T, i)
    [] OTHER -> Bad(T, i)

-----------------------------------------------------------------------------
(* Programs *)

\* the statements of a kind anywhere in a program, in source order
RECURSIVE Collect(_, _)
CollectIn(s, kind) ==
  CASE s.k = "if" -> Concat([j \in 1..Len(s.br) |-> Collect(s.br[j].v, kind)]) \o Collect(s.el.v, kind)
    [] s.k \in {"each", "for"} -> Collect(s.v, kind) \o Collect(s.el.v, kind)
    [] s.k = "insert" -> IF s.form = "block" THEN Collect(s.v, kind) ELSE <<>>
    [] s.k = "comp" -> Concat([j \in 1..Len(s.slots) |-> Collect(s.slots[j].v, kind)])
    [] OTHER -> <<>>
Collect(ss, kind) ==
  Concat([i \in 1..Len(ss) |-> (IF ss[i].k = kind THEN <<ss[i]>> ELSE <<>>) \o CollectIn(ss[i], kind)])

\* first insert whose name an earlier one has, 0 when the names differ
DuplicateInsert(ins) ==
  LET D == {j \in 1..Len(ins) : \E i \in 1..(j - 1) : ins[i].name = ins[j].name}
  IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A d \in D : j <= d

FirstIllegal(T) ==
  LET S == {i \in 1..Len(T) : T[i].t = "ILLEGAL"}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(***************************************************************************)
(* [k |-> "ok", v |-> statements], or                                      *)
(* [k |-> "err", c |-> class, lines |-> possible lines, {} for any], or    *)
(* [k |-> "open"] when the language leaves it open whether s is valid.     *)
(***************************************************************************)
Parse(s) ==
  LET T == Tokens(s)
      ill == FirstIllegal(T)
      \* guards against running past the end: a malformed head never reads further
      U == T \o [i \in 1..4 |-> T[Len(T)]]
      r == Block(U, 1)
  IN
  IF ill # 0 THEN
    [k |-> "err", c |-> "ill", lines |-> {T[ill].l} \cup
        (IF r.k = "bad" /\ r.i < ill THEN T[r.i].l0 .. T[ill].l ELSE {})]
  ELSE IF r.k = "bad" THEN
    IF r.c = "open" THEN [k |-> "open"]
    ELSE IF r.c = "eof" THEN [k |-> "err", c |-> "eof", lines |-> {}]
    ELSE IF r.c = "arg" THEN [k |-> "err", c |-> "arg", lines |-> T[r.i].l0 .. T[Len(T)].l]
    ELSE [k |-> "err", c |-> r.c, lines |-> {T[r.i].l}]
  ELSE IF U[r.i].t # "EOF" THEN [k |-> "open"]
  ELSE
    LET ins == Collect(r.n, "insert")
        dup == DuplicateInsert(ins)
    IN IF dup # 0 THEN [k |-> "err", c |-> "dup", lines |-> {ins[dup].l}]
       ELSE [k |-> "ok", v |-> r.n]

\* the number of tokens up to the first one that cannot be part of a program
ParsedTokens(s) ==
  LET T == Tokens(s)
      U == T \o [i \in 1..4 |-> T[Len(T)]]
      r == Block(U, 1)
      ill == FirstIllegal(T)
      stop == IF r.k = "bad" \/ U[r.i].t # "EOF" THEN r.i ELSE Len(T)
      m == IF ill # 0 /\ ill < stop THEN ill ELSE stop
  IN IF m > Len(T) THEN Len(T) ELSE m
=============================================================================
