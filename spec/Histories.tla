----------------------------- MODULE Histories -----------------------------
(***************************************************************************)
(* A model of somebody who uses the library: sequences of calls of         *)
(* P.calls, over the files P.fs, that begin with the calls P.first.  A     *)
(* state is the history, the state of the library after it, and the sets   *)
(* of templates that it has.  The laws are about what earlier calls may    *)
(* and may not change.                                                     *)
(*                                                                         *)
(* With the view View (Tours.cfg) TLC visits every state of the library    *)
(* once, by a shortest history; without it, every history.  The harness    *)
(* executes them with the code.  The outcomes of calls are compared after  *)
(* histories of at most P.deep calls.                                      *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

P == TLCEval(JsonDeserialize(IOEnv.PARAMS))
C0 == [root |-> B("/r"), chk |-> [lines |-> TRUE, paths |-> TRUE, has |-> TRUE, loose |-> FALSE],
       fs |-> P.fs, steps |-> <<>>, obs |-> <<>>, more |-> <<>>]

VARIABLES theHistory, theLibrary
View == theLibrary

\* whether a call that changes the library succeeds
Succeeds(eng, s) ==
  CASE s.op = "load" -> LoadProblems(Now(C0, eng), Conf(eng, s.opt)) = {}
    [] s.op = "register" -> ~Registered(eng, s)
    [] OTHER -> TRUE
Step0(eng, s) == After(C0, eng, s, [ok |-> Succeeds(eng, s)])
Can(eng, s) == s.op \in {"render", "response"} => s.set <= Len(eng.sets)

RECURSIVE Play(_, _)
Play(eng, ss) == IF ss = <<>> THEN eng ELSE Play(Step0(eng, Head(ss)), Tail(ss))
Begin == TLCEval(Play(StartOf(C0), P.first))
Calls(h) == TLCEval([i \in 1..Len(h) |-> P.calls[h[i]]])

Init == theHistory = <<>> /\ theLibrary = Begin
Next ==
  /\ Len(theHistory) < P.max
  /\ \E k \in 1..Len(P.calls) :
       /\ Can(theLibrary, P.calls[k])
       /\ theHistory' = Append(theHistory, k)
       /\ theLibrary' = Step0(theLibrary, P.calls[k])

-----------------------------------------------------------------------------
(* Laws *)

Whole(h) == P.first \o Calls(h)
Only(ss, ops) == SelectSeq(ss, LAMBDA s : s.op \in ops)

\* one function per name and type: the one that was registered first
FunctionLaw(h, eng) ==
  LET rs == Only(Whole(h), {"register"})
      First0(i) == \A j \in 1..(i - 1) : rs[j].ty # rs[i].ty \/ rs[j].name # rs[i].name
      want == {[ty |-> rs[i].ty, name |-> rs[i].name, tag |-> rs[i].tag] : i \in {j \in 1..Len(rs) : First0(j)}}
  IN /\ {[ty |-> eng.funcs[i].ty, name |-> eng.funcs[i].name, tag |-> eng.funcs[i].tag] : i \in 1..Len(eng.funcs)} = want
     /\ Cardinality(want) = Len(eng.funcs)

\* a setting is the one of the last load that says something about it
ConfigLaw(h, eng) ==
  LET ls == SelectSeq(Whole(h), LAMBDA s : s.op = "load" /\ s.opt.has)
      LastOf(f, dflt) == LET S == {i \in 1..Len(ls) : ls[i].opt[f] # <<>>}
                         IN IF S = {} THEN dflt ELSE ls[CHOOSE i \in S : \A j \in S : j <= i].opt[f]
  IN /\ eng.cfg.dir = LastOf("dir", Start.cfg.dir)
     /\ eng.cfg.ext = LastOf("ext", Start.cfg.ext)
     /\ eng.cfg.err = LastOf("err", Start.cfg.err)
     /\ eng.cfg.debug = (ls # <<>> /\ ls[Len(ls)].opt.debug)

\* a file has the content that was written last
FilesLaw(h, eng) ==
  LET ws == Only(Whole(h), {"write"})
      all == C0.fs \o Concat([i \in 1..Len(ws) |-> ws[i].fs])
      last == {all[i] : i \in {j \in 1..Len(all) : \A k \in (j + 1)..Len(all) : all[k].p # all[j].p}}
  IN {eng.fs[i] : i \in 1..Len(eng.fs)} = {f \in last : f.kind # "gone"}

\* what a call does not depend on: evaluating a string or a file only on the
\* functions (and the file), rendering only on the functions, on its own set,
\* the files and the configuration
Bare(eng) == [Start EXCEPT !.funcs = eng.funcs, !.fs = eng.fs]
OutcomeLaw0(h, eng) ==
  \A k \in 1..Len(P.calls) : LET s == P.calls[k] IN
    (s.op \in Renders /\ Can(eng, s)) =>
       LET a == TLCEval(Alone(C0, eng, s)) IN
       /\ a.r \in {"ok", "e", "any"}
       /\ s.op \in {"evalstr", "evalfile"} => a = Alone(C0, Bare(eng), s)
       \* the calls that do not change the library can be left out
       /\ LET q == Play(StartOf(C0), Only(Whole(h), {"load", "register", "write"})) IN Alone(C0, q, s) = a
       \* functions can be registered before everything else
       /\ LET q == Play(StartOf(C0), Only(Whole(h), {"register"}) \o Only(Whole(h), {"load", "write"})) IN Alone(C0, q, s) = a
       \* other sets can be left out
       /\ s.op \in {"render", "response"} =>
            LET q == [eng EXCEPT !.sets = <<eng.sets[s.set]>>] IN Alone(C0, q, [s EXCEPT !.set = 1]) = a
\* exactly the calls that load, register or write change the library
ChangeLaw(eng) == \A k \in 1..Len(P.calls) : LET s == P.calls[k] IN
  Can(eng, s) => CASE s.op = "load" -> Len(Step0(eng, s).sets) = Len(eng.sets) + 1 /\ Step0(eng, s).funcs = eng.funcs /\ Step0(eng, s).fs = eng.fs
                   [] s.op = "register" -> [Step0(eng, s) EXCEPT !.funcs = eng.funcs] = eng
                   [] s.op = "write" -> [Step0(eng, s) EXCEPT !.fs = eng.fs] = eng
                   [] OTHER -> Step0(eng, s) = eng

Law(h, eng) == FunctionLaw(h, eng) /\ ConfigLaw(h, eng) /\ FilesLaw(h, eng) /\ ChangeLaw(eng) /\ (Len(h) <= P.deep => OutcomeLaw0(h, eng))
Laws ==
  IF Law(theHistory, theLibrary) THEN PrintT(ToString(<<"G", theHistory>>))
  ELSE PrintT(ToString(<<"BROKEN", theHistory, FunctionLaw(theHistory, theLibrary), ConfigLaw(theHistory, theLibrary), FilesLaw(theHistory, theLibrary),
                         ChangeLaw(theLibrary), OutcomeLaw0(theHistory, theLibrary)>>)) /\ FALSE
Spec == Init /\ [][Next]_<<theHistory, theLibrary>>
=============================================================================
