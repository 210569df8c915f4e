----------------------------- MODULE CheckCalls -----------------------------
(***************************************************************************)
(* Validates recorded histories of API calls against the specification.    *)
(* Every case is one process: C.steps are its calls and C.obs what was     *)
(* observed.  A behaviour of this module replays one case: a step that the *)
(* specification allows advances it, a step that it does not allow ends it.*)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
N == Len(Cases)

\* (the names of the variables are not used for anything else: TLC is slow when
\* a variable has the name of a record field)
VARIABLES theCase, theStep, theEngine, theSeen, theVerdict
vars == <<theCase, theStep, theEngine, theSeen, theVerdict>>

Init == theCase \in 1..N /\ theStep = 1 /\ theEngine = StartOf(Cases[theCase]) /\ theSeen = <<>> /\ theVerdict = TRUE

\* the judgement of step i of case k in the state e, h
Judge(k, i, e, h) ==
  LET C == Cases[k]
      s == C.steps[i]
      o == C.obs[i]
      v == IF ~Allowed(C, e, s, o) THEN "REJECT"
           ELSE IF ~Consistent(C, h, e, s, o) THEN "DIFFERS"
           ELSE IF ~Reproducible(C, i) THEN "VARIES"
           ELSE "fit"
      x == Expected(C, e, s)
  IN [ok |-> PrintT(ToString(<<"J", k, i, v, x.r>>))
             /\ IF v = "fit" THEN TRUE ELSE PrintT(ToString(<<"X", k, i, x>>)) /\ FALSE,
      eng |-> After(C, e, s, o),
      seen |-> Remember(C, h, e, s, o)]

\* (binding r to an element of a set makes TLC evaluate the judgement once)
Next ==
  /\ theVerdict /\ theStep <= Len(Cases[theCase].steps)
  /\ \E r \in {Judge(theCase, theStep, theEngine, theSeen)} :
       /\ theVerdict' = r.ok
       /\ theEngine' = r.eng
       /\ theSeen' = r.seen
  /\ theStep' = theStep + 1
  /\ theCase' = theCase
Spec == Init /\ [][Next]_vars
=============================================================================
