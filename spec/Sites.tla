------------------------------- MODULE Sites -------------------------------
(***************************************************************************)
(* A model of somebody who writes a page piece by piece, as in module      *)
(* Templates, in a template directory that is one of P.sites: sequences of *)
(* files, with layouts and components.  The laws relate a page to one      *)
(* template without layout and components: the layout with the bodies of   *)
(* the inserts in place of the reserves, and the text of a component, with *)
(* the bodies of the slots, as a block that begins by assigning the        *)
(* arguments.  The harness loads and renders every page.                   *)
(***************************************************************************)
EXTENDS Templates

VARIABLE theSite

InitSite == Init /\ theSite \in 1..Len(P.sites)
NextSite == Next /\ theSite' = theSite

Dir == [dir |-> B("t"), ext |-> B(".tw"), err |-> <<>>, debug |-> FALSE]
PAGE == B("page")
Case(site, s) == [root |-> B("/r"), chk |-> [lines |-> TRUE, paths |-> TRUE, has |-> TRUE, loose |-> FALSE],
                  fs |-> P.sites[site] \o <<[p |-> B("t/page.tw"), c |-> s, kind |-> "file"]>>]

-----------------------------------------------------------------------------
(* A page as one template *)

YES == [k |-> "bool", v |-> TRUE, l |-> 1, l0 |-> 1, l1 |-> 1]
Block0(v) == [k |-> "if", br |-> <<[c |-> YES, v |-> v]>>, el |-> NoElse, l |-> 1]
Set0(name, e) == [k |-> "assign", name |-> name, e |-> e, l |-> 1, l0 |-> 1, l1 |-> 1]
Var0(name) == [k |-> "var", v |-> name, l |-> 1, l0 |-> 1, l1 |-> 1]
TMP == B("tmp")

\* ins: the inserts of the page, slots: those that the caller of a component
\* passed, comps: the statements of the components
RECURSIVE OneTemplate(_, _, _, _)
Filled(s, ins, slots, comps) ==
  LET Again0(v) == OneTemplate(v, ins, slots, comps) IN
  CASE s.k = "if" -> <<[s EXCEPT !.br = [j \in 1..Len(s.br) |-> [s.br[j] EXCEPT !.v = Again0(@)]], !.el.v = Again0(@)]>>
    [] s.k \in {"each", "for"} -> <<[s EXCEPT !.v = Again0(@), !.el.v = Again0(@)]>>
    [] s.k = "insert" -> <<>>
    [] s.k = "use" -> <<>>
    [] s.k = "reserve" ->
         LET S == {i \in 1..Len(ins) : ins[i].name = s.name} IN
         IF S = {} THEN <<>>
         ELSE LET in == ins[CHOOSE i \in S : TRUE] IN
              IF in.form = "expr" THEN <<[k |-> "code", v |-> <<[k |-> "expr", e |-> in.e, l |-> 1, l0 |-> 1, l1 |-> 1]>>, l |-> 1]>>
              ELSE <<Block0(OneTemplate(in.v, <<>>, <<>>, comps))>>
    [] s.k = "slot" ->
         LET S == {i \in 1..Len(slots) : slots[i].name = s.name} IN
         IF S = {} THEN <<>> ELSE <<Block0(OneTemplate(slots[CHOOSE i \in S : TRUE].v, <<>>, <<>>, comps))>>
    [] s.k = "comp" ->
         \* the arguments are evaluated before any of them is bound
         <<Block0(<<[k |-> "code", l |-> 1,
                     v |-> [i \in 1..Len(s.args) |-> Set0(TMP \o s.args[i].key, s.args[i].e)]
                           \o [i \in 1..Len(s.args) |-> Set0(s.args[i].key, Var0(TMP \o s.args[i].key))]]>>
                  \o OneTemplate(comps[s.name], <<>>, s.slots, comps))>>
    [] OTHER -> <<s>>
OneTemplate(ss, ins, slots, comps) == Concat([i \in 1..Len(ss) |-> Filled(ss[i], ins, slots, comps)])

\* the outcome of the one template, when the page has one
AsOne(C, data) ==
  LET k == FileOf(C, Dir, PAGE)
      v == Parse(C.fs[k].c).v
      us == Collect(v, "use")
      cs == Collect(v, "comp")
      Of(name, at) == Parse(C.fs[FileOf(C, Dir, Expand(name, at))].c).v
      comps == [n \in {cs[i].name : i \in 1..Len(cs)} |-> Of(n, COMPONENTS)]
      one == IF us = <<>> THEN OneTemplate(v, <<>>, <<>>, comps)
             ELSE OneTemplate(Of(us[1].name, LAYOUTS), Collect(v, "insert"), <<>>, comps)
      d == DataEnv(data)
  IN Run(one, d.v, Strings(Start, d.v))

SiteLaw(C) ==
  LET ps == TLCEval(LoadProblems(C, Dir))
      r == TLCEval(Render(C, Start, Dir, PAGE, P.data))
      one == AsOne(C, P.data)
  IN ps = {} => CASE r.r = "ok" -> one.r = "ok" /\ one.out = r.out
                  [] r.r = "e" -> NestedLayout(C, Dir, FileOf(C, Dir, PAGE)) \/ one.r = "e"
                  [] OTHER -> TRUE

\* which problem a page has does not depend on the other files of the directory
Alone0(C) == [C EXCEPT !.fs = SelectSeq(C.fs, LAMBDA f : ~IsPrefix(B("t/other"), f.p))]
OtherLaw(C) == LoadProblems(C, Dir) = LoadProblems(Alone0(C), Dir) /\ Render(C, Start, Dir, PAGE, P.data) = Render(Alone0(C), Start, Dir, PAGE, P.data)

SiteLaws ==
  LET s == TLCEval(Source(thePieces, theOpen))
      C == TLCEval(Case(theSite, s))
  IN IF Again THEN PrintT(ToString(<<"S", theSite, thePieces>>))
     ELSE IF ParseLaw(s, Parse(s)) /\ (P.deep >= 0 /\ Parse(s).k = "ok" => SiteLaw(C) /\ OtherLaw(C))
       THEN PrintT(ToString(<<"G", IF theFate = "alive" THEN 1 ELSE 0, Len(theOpen), theSite, thePieces>>))
     ELSE PrintT(ToString(<<"BROKEN", theSite, thePieces, s, Parse(s), Render(C, Start, Dir, PAGE, P.data), AsOne(C, P.data)>>)) /\ FALSE
SpecSite == InitSite /\ [][NextSite]_<<thePieces, theOpen, theFate, theSite>>
=============================================================================
