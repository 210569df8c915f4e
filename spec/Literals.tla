------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* A model of somebody who writes a string literal piece by piece.  A      *)
(* state is the sequence of the pieces.  P.pieces have the text between    *)
(* the quotes (t) and the bytes it stands for (v).  The laws are the       *)
(* sentences of the property about literals: they decode the output, which *)
(* the specification of printing does not.  The harness evaluates every    *)
(* literal with the code.                                                  *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

P == TLCEval(JsonDeserialize(IOEnv.PARAMS))

VARIABLES thePieces
vars == <<thePieces>>
Init == thePieces = <<>>
Next == Len(thePieces) < P.max /\ \E k \in 1..Len(P.pieces) : thePieces' = Append(thePieces, k)

TextOf(ps) == Concat([i \in 1..Len(ps) |-> P.pieces[ps[i]].t])
BytesOf(ps) == Concat([i \in 1..Len(ps) |-> P.pieces[ps[i]].v])

-----------------------------------------------------------------------------
(* Laws *)
Entities == <<[t |-> B("&lt;"), v |-> B("<")], [t |-> B("&gt;"), v |-> B(">")], [t |-> B("&amp;"), v |-> B("&")]>>
BeginsAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
EntityAt(s, i) == {n \in 1..Len(Entities) : BeginsAt(s, i, Entities[n].t)}
RECURSIVE Decoded(_, _)
Decoded(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET e == EntityAt(s, i) IN
       IF e = {} THEN <<s[i]>> \o Decoded(s, i + 1)
       ELSE LET n == CHOOSE n \in e : TRUE IN Entities[n].v \o Decoded(s, i + Len(Entities[n].t))
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
LT0 == 60
GT0 == 62
AMP0 == 38
QUOTES0 == {34, 39}

Quoted(t, q) == <<q>> \o t \o <<q>>
Out(text) == EvalString(Start, text, <<>>)
Printed(text) == Out(B("{{ ") \o text \o B(" }}"))
Exactly(r, s) == r.r = "ok" /\ r.out = {s}

Law(ps) ==
  LET bytes == BytesOf(ps)
      lit == Quoted(TextOf(ps), 34)
      p == Printed(lit)
      raw == Printed(lit \o B(".raw()"))
      Same(text) == LET o == Out(text) IN o.r = "ok" /\ o.out = p.out
  IN
  /\ p.r = "ok"
  /\ \A s \in p.out :
       /\ Count(s, LT0) = 0 /\ Count(s, GT0) = 0
       /\ \A i \in 1..Len(s) : s[i] = AMP0 => EntityAt(s, i) # {}
       /\ \A q \in QUOTES0 : Count(s, q) = Count(bytes, q)
       /\ Decoded(s, 1) = bytes
  /\ Exactly(raw, bytes)
  \* wherever the literal is used
  /\ Same(B("{{ x = ") \o lit \o B("; x }}"))
  /\ Same(B("{{ [") \o lit \o B("] }}")) /\ Same(B("{{ [") \o lit \o B("][0] }}"))
  /\ Same(B("{{ {k: ") \o lit \o B("}.k }}"))
  /\ Same(B("{{ true ? ") \o lit \o B(" : 1 }}"))
  /\ Same(B("@each(v in [") \o lit \o B("]){{ v }}@end"))
  /\ Same(B("{{ (") \o lit \o B(") }}")) /\ Same(B("{{ '' + ") \o lit \o B(" }}")) /\ Same(B("{{ ") \o lit \o B(" + '' }}"))
  /\ \A k \in 1..Len(ps) :
       LET a == Quoted(TextOf(SubSeq(ps, 1, k)), 34)
           b == Quoted(TextOf(SubSeq(ps, k + 1, Len(ps))), 34)
       IN Decoded(CHOOSE s \in Out(B("{{ ") \o a \o B(" + ") \o b \o B(" }}")).out : TRUE, 1) = bytes

Laws ==
  IF Law(thePieces) THEN PrintT(ToString(<<"G", thePieces>>))
  ELSE PrintT(ToString(<<"BROKEN", thePieces, Printed(Quoted(TextOf(thePieces), 34)), BytesOf(thePieces)>>)) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
