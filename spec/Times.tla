-------------------------------- MODULE Times ---------------------------------
(* Times of samples: a start plus a number of periods of a rate given as a      *)
(* reduced fraction n/d of samples per second, to the nearest nanosecond.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt
TC == INSTANCE Cal

\* k periods, as <<seconds, nanoseconds, remainder * 10^6 \div n>>: digits of k * d / n
RECURSIVE DigitsOf(_, _, _)
DigitsOf(r, n, c) == IF c = 0 THEN <<0, r>>
                     ELSE LET x == DigitsOf(r, n, c - 1) IN <<x[1] * 10 + ((x[2] * 10) \div n), (x[2] * 10) % n>>
Span(k, n, d) == LET q == k * d
                     x == DigitsOf(q % n, n, 9)
                 IN [sec |-> q \div n, ns |-> x[1], rem |-> x[2], n |-> n]
\* the instants allowed: the nearest nanosecond, and its neighbour when it is (nearly) a tie
Shifted(t, sp) ==
  LET down == TC!AddNs(TC!AddSec(t, sp.sec), sp.ns)
      up == TC!AddNs(down, 1)
      twice == 2 * sp.rem
      tol == 1 + (sp.n \div 500)
  IN IF sp.rem = 0 THEN {down}
     ELSE IF twice < sp.n - tol THEN {down} ELSE IF twice > sp.n + tol THEN {up} ELSE {down, up}
\* seconds removed because a listed leap second falls within the span
Spanned(t, u, leaps) == \E l \in leaps : TC!Before(t, l) /\ ~TC!Before(TC!AddSec(u, -1), l)
SampleTimes(t, k, q, leaps) ==
  IF q[1] = 0 \/ k = 0 THEN {t}
  ELSE {IF Spanned(t, u, leaps) THEN TC!AddSec(u, -1) ELSE u : u \in Shifted(t, Span(k, q[1], q[2]))}
=============================================================================
