------------------------------- MODULE Threads ----------------------------------
(* Threads that work on objects of their own.  A call of a thread reads and writes *)
(* the thread's objects, scratch space and message log, in several steps between   *)
(* which the other threads take theirs.  What a thread obtains is what it would     *)
(* have obtained alone.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Newest == 2 \* messages a registry holds
Keep(q) == IF Len(q) > Newest THEN SubSeq(q, Len(q) - Newest + 1, Len(q)) ELSE q

\* a thread by itself: its object, its log, and what its calls gave
Fresh == [obj |-> <<>>, log |-> <<>>, out |-> <<>>]
\* value v names the thread and the call
Call(s, kind, v) ==
  CASE kind = "work" -> [s EXCEPT !.obj = Append(@, v), !.out = Append(@, Append(s.obj, v))]
    [] kind = "message" -> [s EXCEPT !.log = Keep(Append(@, v)), !.out = Append(@, <<>>)]
    [] kind = "emit" -> [s EXCEPT !.log = <<>>, !.out = Append(@, s.log)]
Alone(t, prog, n) == FoldLeft(LAMBDA s, i : Call(s, prog[i], <<t, i>>), Fresh, [i \in 1..n |-> i])
=============================================================================
