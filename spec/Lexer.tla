-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The lexical structure of a template: Tokens(s) is the sequence of       *)
(* tokens of the byte string s.                                            *)
(*                                                                         *)
(* A template alternates between two modes.  In text mode the only special *)
(* things are "{{", "{{--" comments and "@" followed by a directive        *)
(* keyword, each of which loses its meaning after a backslash.  In code    *)
(* mode (after "{{", or inside the parentheses of a directive) it is a     *)
(* sequence of ordinary programming language tokens.                       *)
(*                                                                         *)
(* A token is [t, a, b, lit, l0, l]: its type, the positions of its first  *)
(* and last byte (1-based), its literal, and the lines on which it starts  *)
(* and ends (1-based).                                                     *)
(***************************************************************************)
EXTENDS Bytes

W_OPEN == B("{{")
W_CLOSE == B("}}")
W_COMMENT == B("{{--")
W_ENDCOMMENT == B("--}}")

\* par: "yes" - the directive is followed by parentheses, "no" - it is not,
\* "opt" - it is when the next byte is "("
Directives == <<
  [w |-> B("@if"),         t |-> "IF",         par |-> "yes"],
  [w |-> B("@elseif"),     t |-> "ELSEIF",     par |-> "yes"],
  [w |-> B("@else"),       t |-> "ELSE",       par |-> "no"],
  [w |-> B("@end"),        t |-> "END",        par |-> "no"],
  [w |-> B("@use"),        t |-> "USE",        par |-> "yes"],
  [w |-> B("@reserve"),    t |-> "RESERVE",    par |-> "yes"],
  [w |-> B("@insert"),     t |-> "INSERT",     par |-> "yes"],
  [w |-> B("@for"),        t |-> "FOR",        par |-> "yes"],
  [w |-> B("@each"),       t |-> "EACH",       par |-> "yes"],
  [w |-> B("@continueIf"), t |-> "CONTINUEIF", par |-> "yes"],
  [w |-> B("@continue"),   t |-> "CONTINUE",   par |-> "no"],
  [w |-> B("@breakIf"),    t |-> "BREAKIF",    par |-> "yes"],
  [w |-> B("@break"),      t |-> "BREAK",      par |-> "no"],
  [w |-> B("@component"),  t |-> "COMPONENT",  par |-> "yes"],
  [w |-> B("@slot"),       t |-> "SLOT",       par |-> "opt"],
  [w |-> B("@dump"),       t |-> "DUMP",       par |-> "yes"] >>

\* index of the directive whose keyword is at position i, 0 when none;
\* a keyword precedes its own prefixes in the list, so the longest one wins
DirectiveAt(s, i) ==
  IF At(s, i) # AT THEN 0
  ELSE LET k == First(LAMBDA j : StartsAt(s, i, Directives[j].w), 1, Len(Directives))
       IN IF k > Len(Directives) THEN 0 ELSE k

BracesAt(s, i) == At(s, i) = LCURLY /\ At(s, i + 1) = LCURLY

\* something special (a directive or braces) starts at i
SpecialAt(s, i) == BracesAt(s, i) \/ DirectiveAt(s, i) # 0
EscapedAt(s, i) == At(s, i - 1) = BACKSLASH

\* One past the last byte of the text run that contains position i.  The two
\* braces after a backslash are text, a third one may begin a block again.
NextSpecial(s, i) == First(LAMBDA k : (s[k] = LCURLY \/ s[k] = AT) /\ SpecialAt(s, k), i, Len(s))
TextEnd(s, i) ==
  Iterate(LAMBDA j : NextSpecial(s, IF s[j] = LCURLY THEN j + 2 ELSE j + 1),
          LAMBDA j : j > Len(s) \/ ~EscapedAt(s, j),
          NextSpecial(s, i))

\* The bytes of the text run s[i..j] without the escaping backslashes: the
\* special positions in a run are escaped (the others end it), except that a
\* run may begin with two braces whose backslash was part of an earlier run.
Unescaped(s, i, j) ==
  LET Next1(k) == LET n == NextSpecial(s, k) IN IF n > j THEN j + 1 ELSE n
      last == Iterate(LAMBDA x : [from |-> IF s[x.k] = LCURLY THEN x.k + 2 ELSE x.k + 1,
                                  k |-> Next1(IF s[x.k] = LCURLY THEN x.k + 2 ELSE x.k + 1),
                                  out |-> x.out \o SubSeq(s, x.from, x.k - 2)
                                          \o (IF s[x.k] = LCURLY THEN W_OPEN ELSE <<AT>>)],
                      LAMBDA x : x.k > j,
                      [from |-> i, k |-> Next1(i), out |-> <<>>])
  IN last.out \o SubSeq(s, last.from, j)

Punct2 == TLCEval([ w \in {<<60,61>>, <<62,61>>, <<33,61>>, <<45,45>>, <<43,43>>, <<61,61>>} |->
            CASE w = <<60,61>> -> "LE" [] w = <<62,61>> -> "GE" [] w = <<33,61>> -> "NE"
              [] w = <<45,45>> -> "DEC" [] w = <<43,43>> -> "INC" [] w = <<61,61>> -> "EQ" ])
Punct1 == TLCEval([ b \in {42,63,47,37,44,91,93,46,59,58,123,125,40,41,60,62,33,45,43,61} |->
            CASE b = 42 -> "MUL" [] b = 63 -> "QUESTION" [] b = 47 -> "DIV" [] b = 37 -> "MOD"
              [] b = 44 -> "COMMA" [] b = 91 -> "LBRACKET" [] b = 93 -> "RBRACKET" [] b = 46 -> "DOT"
              [] b = 59 -> "SEMI" [] b = 58 -> "COLON" [] b = 123 -> "LBRACE" [] b = 125 -> "RBRACE"
              [] b = 40 -> "LPAREN" [] b = 41 -> "RPAREN" [] b = 60 -> "LT" [] b = 62 -> "GT"
              [] b = 33 -> "NOT" [] b = 45 -> "SUB" [] b = 43 -> "ADD" [] b = 61 -> "ASSIGN" ])

Keywords == TLCEval([ w \in {B("true"), B("false"), B("nil"), B("in")} |->
              CASE w = B("true") -> "TRUE" [] w = B("false") -> "FALSE"
                [] w = B("nil") -> "NIL" [] w = B("in") -> "IN" ])
KeywordOf(w) == IF Len(w) \in 2..5 /\ w \in DOMAIN Keywords THEN Keywords[w] ELSE "IDENT"

\* position of the quote that closes the string opened at i (one not preceded
\* by a backslash), Len(s) + 1 when there is none
CloseQuote(s, i, q) == IF i > Len(s) THEN Len(s) + 1
                       ELSE First(LAMBDA k : s[k] = q /\ s[k - 1] # BACKSLASH, i, Len(s))
\* the backslashes before the quote character are removed
Unquoted(s, q) == IF HasByte(s, BACKSLASH) THEN ReplaceAll(s, <<BACKSLASH, q>>, <<q>>) ELSE s

\* one past the number that starts at i: digits, with dots that are followed by a digit
NumberEnd(s, i) == First(LAMBDA k : ~IsDigit(s[k]) /\ ~(s[k] = 46 /\ IsDigit(At(s, k + 1))), i, Len(s))

\* size of the UTF-8 character at i (1 for a byte that is not valid UTF-8)
Cont(s, i) == At(s, i) >= 128 /\ At(s, i) <= 191
CharSize(s, i) ==
  LET b == s[i] IN
  CASE b < 128 -> 1
    [] b >= 194 /\ b <= 223 -> IF Cont(s, i + 1) THEN 2 ELSE 1
    [] b >= 224 /\ b <= 239 ->
         IF Cont(s, i + 1) /\ Cont(s, i + 2)
            /\ ~(b = 224 /\ s[i + 1] < 160) /\ ~(b = 237 /\ s[i + 1] > 159) THEN 3 ELSE 1
    [] b >= 240 /\ b <= 244 ->
         IF Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
            /\ ~(b = 240 /\ s[i + 1] < 144) /\ ~(b = 244 /\ s[i + 1] > 143) THEN 4 ELSE 1
    [] OTHER -> 1

-----------------------------------------------------------------------------
(* Lines.  nl is the increasing sequence of the positions of the newlines. *)
Newlines(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = LF)
RECURSIVE CountBelow(_, _, _, _)
CountBelow(nl, p, lo, hi) ==      \* number of newlines before position p
  IF lo > hi THEN lo - 1
  ELSE LET mid == (lo + hi) \div 2
       IN IF nl[mid] < p THEN CountBelow(nl, p, mid + 1, hi) ELSE CountBelow(nl, p, lo, mid - 1)
LineOf(nl, p) == 1 + CountBelow(nl, p, 1, Len(nl))
ColOf(nl, p) == LET k == CountBelow(nl, p, 1, Len(nl)) IN IF k = 0 THEN p - 1 ELSE p - nl[k] - 1

Tok(nl, t, a, b, lit) ==
  [t |-> t, a |-> a, b |-> b, lit |-> lit, l0 |-> LineOf(nl, a), l |-> LineOf(nl, b)]

(***************************************************************************)
(* The state of the lexer: the position i, the mode m ("T" or "C"), the    *)
(* number of open parentheses p of the current directive (-1 when the code *)
(* is inside braces), the depth c of curly braces, and the tokens so far.  *)
(***************************************************************************)
\* a token from x.i to j, after which the lexer is in the given state
Emit(s, nl, x, t, j, lit, m, p, c) ==
  [i |-> j + 1, m |-> m, p |-> p, c |-> c, out |-> Append(x.out, Tok(nl, t, x.i, j, lit))]

LexCode(s, nl, x) ==
  LET i == x.i
      b == At(s, i)
      two == <<b, At(s, i + 1)>>
      Code(t, j, p, c) == Emit(s, nl, x, t, j, SubSeq(s, i, j), "C", p, c)
  IN
  IF b = 125 /\ At(s, i + 1) = 125 /\ x.c = 0 THEN Emit(s, nl, x, "RBRACES", i + 1, W_CLOSE, "T", x.p, x.c)
  ELSE IF two \in DOMAIN Punct2 THEN Code(Punct2[two], i + 1, x.p, x.c)
  ELSE IF b = 40 THEN Code("LPAREN", i, IF x.p >= 0 THEN x.p + 1 ELSE x.p, x.c)
  ELSE IF b = 41 THEN
     IF x.p = 1 THEN Emit(s, nl, x, "RPAREN", i, <<41>>, "T", -1, x.c)
     ELSE Code("RPAREN", i, IF x.p >= 0 THEN x.p - 1 ELSE x.p, x.c)
  ELSE IF b = 123 THEN Code("LBRACE", i, x.p, x.c + 1)
  ELSE IF b = 125 THEN Code("RBRACE", i, x.p, x.c - 1)
  ELSE IF b \in DOMAIN Punct1 THEN Code(Punct1[b], i, x.p, x.c)
  ELSE IF b = 34 \/ b = 39 THEN
     LET j == IF At(s, i + 1) = b THEN i + 1 ELSE CloseQuote(s, i + 2, b)
     IN Emit(s, nl, x, "STR", IF j > Len(s) THEN Len(s) ELSE j, Unquoted(SubSeq(s, i + 1, j - 1), b), "C", x.p, x.c)
  ELSE IF IsIdentStart(b) THEN
     LET e == SkipIdent(s, i) IN Code(KeywordOf(SubSeq(s, i, e - 1)), e - 1, x.p, x.c)
  ELSE IF IsDigit(b) THEN
     LET e == NumberEnd(s, i) IN Code(IF SkipDigits(s, i) = e THEN "INT" ELSE "FLOAT", e - 1, x.p, x.c)
  ELSE Code("ILLEGAL", i + CharSize(s, i) - 1, x.p, x.c)

LexText(s, nl, x) ==
  LET i == x.i
      d == DirectiveAt(s, i)
  IN
  IF d # 0 /\ ~EscapedAt(s, i) THEN
    LET dir == Directives[d]
        e == i + Len(dir.w) - 1
        code == dir.par = "yes" \/ (dir.par = "opt" /\ At(s, e + 1) = 40)
    IN Emit(s, nl, x, dir.t, e, dir.w, IF code THEN "C" ELSE "T", IF code THEN 0 ELSE -1, x.c)
  ELSE LET e == TextEnd(s, i) - 1 IN Emit(s, nl, x, "HTML", e, Unescaped(s, i, e), "T", x.p, x.c)

LexStep(s, nl, y) ==
  LET x == IF y.m = "C" THEN [y EXCEPT !.i = SkipSpace(s, @)] ELSE y
      i == x.i
      End == [x EXCEPT !.i = Len(s) + 1, !.m = "E", !.out = Append(@, Tok(nl, "EOF", Len(s) + 1, Len(s) + 1, <<>>))]
  IN
  IF BracesAt(s, i) THEN
     IF StartsAt(s, i, W_COMMENT) THEN
        LET e == FindFrom(s, i + 2, W_ENDCOMMENT) IN
        \* a comment that does not end: the rest of the source is not looked at
        IF e = 0 THEN Emit(s, nl, [x EXCEPT !.i = i], "ILLEGAL", i + 1, W_OPEN, "U", x.p, x.c)
        ELSE [x EXCEPT !.i = e + 4, !.m = "T"]
     ELSE Emit(s, nl, x, "LBRACES", i + 1, W_OPEN, "C", x.p, x.c)
  ELSE IF i > Len(s) THEN End
  ELSE IF x.m = "C" THEN LexCode(s, nl, x)
  ELSE LexText(s, nl, x)

Tokens(s) ==
  LET nl == TLCEval(Newlines(s))
      x == Iterate(LAMBDA y : IF y.m = "U" THEN [y EXCEPT !.m = "E",
                                                   !.out = Append(@, Tok(nl, "EOF", Len(s) + 1, Len(s) + 1, <<>>))]
                              ELSE LexStep(s, nl, y),
                   LAMBDA y : y.m = "E",
                   [i |-> 1, m |-> "T", p |-> -1, c |-> 0, out |-> <<>>])
  IN x.out
=============================================================================
