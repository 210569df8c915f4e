------------------------------ MODULE Iteration ------------------------------
(***************************************************************************)
(* Loops.  The definitions are what the operators mean; TLC evaluates them *)
(* with java/Iteration.java, because deep recursion makes TLC slow.        *)
(***************************************************************************)
EXTENDS Integers

\* x, Step(x), Step(Step(x)), ... up to the first value that Stop accepts
Iterate(Step(_), Stop(_), x) ==
  LET RECURSIVE From(_)
      From(y) == IF Stop(y) THEN y ELSE From(Step(y))
  IN From(x)

\* the smallest j in i..n with P(j), n + 1 when there is none
First(P(_), i, n) ==
  LET RECURSIVE From(_)
      From(j) == IF j > n THEN n + 1 ELSE IF P(j) THEN j ELSE From(j + 1)
  IN From(i)
=============================================================================
