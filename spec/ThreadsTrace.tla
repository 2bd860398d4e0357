----------------------------- MODULE ThreadsTrace -------------------------------
(* Groups of threads recorded from the code: which thread performed how many of    *)
(* its commands, in which order, and every access of one that another's touched.   *)
(* What the commands gave is judged thread by thread, by the specification of the  *)
(* objects they work on.                                                            *)
EXTENDS Integers, Sequences, TraceRun
Start(cfg) == [left |-> cfg.left]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
Step(s, e) ==
  CASE e.op = "turn" -> Res(e.t \in DOMAIN s.left /\ s.left[e.t] > 0 /\ e.answered, [s EXCEPT !.left[e.t] = @ - 1], "turn", "an answer")
    [] e.op = "ran" -> Res(s.left[e.t] = e.n, [s EXCEPT !.left[e.t] = 0], "ran", s.left[e.t])
    \* two threads at one place, one of them writing: no call of a thread uses what is another's
    [] e.op = "race" -> Res(FALSE, s, "race", "nothing shared")
    [] e.op = "end" -> Res(\A t \in DOMAIN s.left : s.left[t] = 0, s, "end", [t \in DOMAIN s.left |-> 0])
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = [left |-> <<>>]
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
