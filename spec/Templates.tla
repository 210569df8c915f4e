------------------------------ MODULE Templates ------------------------------
(***************************************************************************)
(* A model of somebody who writes a template piece by piece.               *)
(*                                                                         *)
(* P.pieces are pieces of source text, and P.roles says where each may be: *)
(*   "any"     everywhere                                                  *)
(*   "if"      opens a branch           "loop"    opens a loop             *)
(*   "body"    opens another block that has an end and no else             *)
(*   "elseif"  and "else" go on with an open branch, "else" with a loop    *)
(*   "end"     ends the innermost block                                    *)
(*   "inloop"  only inside of the body of a loop                           *)
(*   "insert"  opens a block at the top level                              *)
(*   "comp"    opens a component and its first slot, "slot" another slot   *)
(* A state is the sequence of the pieces written so far and the stack of   *)
(* the open blocks; its template is the text with the missing ends.  TLC   *)
(* visits every sequence of at most P.max pieces, except that nothing is   *)
(* added to a text that no continuation can make valid (P.prune).  In      *)
(* every state it checks the laws below, which are consequences of the     *)
(* properties that the specification was written for, and prints the       *)
(* state: the harness executes the template of every state with the code.  *)
(*                                                                         *)
(* P.deep is the length up to which the laws about evaluation are checked   *)
(* besides those about tokens and parsing.                                 *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

P == TLCEval(JsonDeserialize(IOEnv.PARAMS))

VARIABLES thePieces, theOpen, theFate
vars == <<thePieces, theOpen, theFate>>

\* a byte 1 of a piece stands for the position of the piece in the text
Piece(k, i) == TLCEval([j \in 1..Len(P.pieces[k]) |-> IF P.pieces[k][j] = 1 THEN 48 + i ELSE P.pieces[k][j]])
Written0(ps) == P.before \o Concat([i \in 1..Len(ps) |-> Piece(ps[i], i)])
Source(ps, open) == Written0(ps) \o Concat([i \in 1..Len(open) |-> B("@end")]) \o P.after

Last(open) == IF open = <<>> THEN "" ELSE open[Len(open)]
Front(open) == SubSeq(open, 1, Len(open) - 1)
May(role, open) ==
  CASE Last(open) = "comp" -> role \in {"slot", "end"}
    [] role = "slot" -> FALSE
    [] role = "insert" -> open = <<>>
    [] role = "elseif" -> Last(open) = "if"
    [] role = "else" -> Last(open) \in {"if", "loop"}
    [] role = "end" -> open # <<>>
    [] role = "inloop" -> \E i \in 1..Len(open) : open[i] = "loop"
    [] OTHER -> TRUE
Opened(role, open) ==
  CASE role \in {"if", "loop", "body", "insert", "slot"} -> Append(open, role)
    [] role = "comp" -> Append(Append(open, "comp"), "slot")
    [] role = "else" -> Append(Front(open), "else")
    [] role = "end" -> Front(open)
    [] OTHER -> open

\* "dead" when no continuation is a valid template
Fate(ps) == IF ~P.prune THEN "alive"
            ELSE LET p == Parse(Written0(ps))
                 IN IF p.k = "ok" \/ (p.k = "err" /\ p.c = "eof") THEN "alive" ELSE "dead"

Init == thePieces = <<>> /\ theOpen = <<>> /\ theFate = "alive"
Next ==
  /\ theFate = "alive"
  /\ Len(thePieces) < P.max
  /\ \E k \in 1..Len(P.pieces) :
       /\ May(P.roles[k], theOpen)
       /\ thePieces' = Append(thePieces, k)
       /\ theOpen' = Opened(P.roles[k], theOpen)
       /\ theFate' = Fate(Append(thePieces, k))

-----------------------------------------------------------------------------
(* Laws *)

LineCount(s) == Len(Newlines(s)) + 1
Shift(lines, n) == {l + n : l \in lines}

\* the tokens of the specification tile the source
TokenLaw(s) ==
  LET T == Tokens(s)
      nl == Newlines(s)
  IN /\ Tiling(s, [i \in 1..Len(T) |-> [t |-> T[i].t, lit |-> T[i].lit, p |-> Pos(nl, T[i].a, T[i].b)]])
     /\ \A i \in 1..Len(T) : T[i].l0 <= T[i].l /\ T[i].l <= LineCount(s)
     \* a token that is not a string, a text or illegal is its own text
     /\ \A i \in 1..Len(T) : T[i].t \notin {"STR", "HTML", "ILLEGAL", "EOF"} => T[i].lit = SubSeq(s, T[i].a, T[i].b)

\* a program, an error with a line of the source, or something left open;
\* there are as many ends of blocks as the blocks of a program need
Opening == {"IF", "EACH", "FOR"}
ParseLaw(s, p) ==
  /\ p.k \in {"ok", "err", "open"}
  /\ p.k = "err" => p.c \in {"eof", "ill", "unexp", "arg", "dup"} /\ \A l \in p.lines : 1 <= l /\ l <= LineCount(s)
  /\ p.k = "ok" =>
       LET T == Tokens(s)
           Count(S) == Cardinality({i \in 1..Len(T) : T[i].t \in S})
           ins == Collect(p.v, "insert")
           cs == Collect(p.v, "comp")
       IN Count({"END"}) = Count(Opening) + Cardinality({i \in 1..Len(ins) : ins[i].form = "block"})
                           + Cardinality({i \in 1..Len(cs) : cs[i].slots # <<>>})
                           + Cardinality(UNION {{<<i, j>> : j \in 1..Len(cs[i].slots)} : i \in 1..Len(cs)})

Fresh == Start
Eval0(s) == EvalString(Fresh, s, P.data)

\* the outcome is one of the three and its lines are lines of the source
OutcomeLaw(s, r) ==
  /\ r.r \in {"ok", "e", "any"}
  /\ r.r = "ok" => r.out # {}
  /\ r.r = "e" => \A l \in r.lines : 1 <= l /\ l <= LineCount(s)

\* text without anything special renders to itself
TextLaw(s, r) ==
  (\A i \in 1..Len(s) : ~SpecialAt(s, i)) => r = [r |-> "ok", out |-> {s}]

\* what precedes a template: a line, a comment, an assignment of a name that it does not use
SameOut(r, q, pre, n) ==
  CASE r.r = "ok" -> q.r = "ok" /\ q.out = {pre \o o : o \in r.out}
    [] r.r = "e" -> q.r = "e" /\ q.lines = Shift(r.lines, n) /\ q.has = r.has
    [] OTHER -> q.r = "any"
BeforeLaws(s, r) ==
  /\ SameOut(r, Eval0(<<LF>> \o s), <<LF>>, 1)
  /\ SameOut(r, Eval0(B("{{-- {{ @if( --}}") \o s), <<>>, 0)
  /\ SameOut(r, Eval0(B("{{ unusedName = 1 }}") \o <<LF>> \o s), <<LF>>, 1)
\* what follows it
AfterLaws(s, p, r) ==
  (p.k = "ok" /\ (s = <<>> \/ s[Len(s)] \notin {BACKSLASH, LCURLY})) =>
     /\ SameOut(r, Eval0(s \o B("{{-- x --}}")), <<>>, 0)
     /\ LET q == Eval0(s \o <<LF>>) IN
        CASE r.r = "ok" -> q.r = "ok" /\ q.out = {o \o <<LF>> : o \in r.out}
          [] r.r = "e" -> q.r = "e" /\ q.lines = r.lines
          [] OTHER -> TRUE
\* a template inside of a branch that is taken, and of one that is not
BranchLaws(s, p, r) ==
  (p.k = "ok" /\ (s = <<>> \/ s[Len(s)] \notin {BACKSLASH, LCURLY})) =>
     /\ SameOut(r, Eval0(B("@if(true)") \o s \o B("@end")), <<>>, 0)
     /\ SameOut(r, Eval0(B("@if(0)x@elseif(1)") \o s \o B("@else y@end")), <<>>, 0)
     /\ Eval0(B("@if(false)") \o s \o B("@end")) = [r |-> "ok", out |-> {<<>>}]
     /\ Eval0(B("@each(unusedName in [])") \o s \o B("@end")) = [r |-> "ok", out |-> {<<>>}]
\* a loop of one pass
LoopLaw(s, p, r) ==
  (p.k = "ok" /\ r.r = "ok" /\ (s = <<>> \/ s[Len(s)] \notin {BACKSLASH, LCURLY}) /\ ~HasByte(s, 63) /\ ~Contains(s, LOOP)) =>
     /\ SameOut(r, Eval0(B("@each(unusedName in [nil])") \o s \o B("@end")), <<>>, 0)
     /\ LET q == Eval0(B("@each(unusedName in [1, 2])@if(true)") \o s \o B("@end@end"))
        IN q.r = "ok" => q.out = {a \o b : a \in r.out, b \in r.out} \/ Cardinality(r.out) > 7

\* blocks leave the variables alone, and a name keeps its type
ScopeLaw(p, d) ==
  LET G == Strings(Fresh, d.v)
      Env(i) == ExecBlock(SubSeq(p.v, 1, i - 1), d.v, G)
  IN \A i \in 1..Len(p.v) :
       LET a == Env(i)
           b == Env(i + 1)
       IN (a.r = "ok" /\ b.r = "ok" /\ a.sig = "no") =>
            /\ p.v[i].k # "code" => b.env = a.env
            /\ Len(b.env) = Len(a.env)
            /\ \A n \in DOMAIN a.env[1] : n \in DOMAIN b.env[1] /\ b.env[1][n].t = a.env[1][n].t
            /\ LOOP \notin DOMAIN b.env[1]

Law(s, deep) ==
  LET p == TLCEval(Parse(s))
      d == TLCEval(DataEnv(P.data))
      r == TLCEval(Eval0(s))
  IN /\ TokenLaw(s)
     /\ ParseLaw(s, p)
     /\ OutcomeLaw(s, r)
     /\ TextLaw(s, r)
     /\ deep => (BeforeLaws(s, r) /\ AfterLaws(s, p, r) /\ BranchLaws(s, p, r) /\ LoopLaw(s, p, r))
     /\ (deep /\ p.k = "ok" /\ d.r = "v") => ScopeLaw(p, d)

\* a text that ends with an end is the one that the state before it stood for
Again == thePieces # <<>> /\ P.roles[thePieces[Len(thePieces)]] = "end"
Laws ==
  LET s == TLCEval(Source(thePieces, theOpen)) IN
  IF Again THEN PrintT(ToString(<<"S", thePieces>>))
  ELSE IF Law(s, Len(thePieces) <= P.deep) THEN PrintT(ToString(<<"G", IF theFate = "alive" THEN 1 ELSE 0, Len(theOpen), thePieces>>))
  ELSE PrintT(ToString(<<"BROKEN", thePieces, s, Parse(s), Eval0(s)>>)) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
