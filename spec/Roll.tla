---------------------------------- MODULE Roll ---------------------------------
(* A trace list used as a rolling buffer: what packing takes out of it.         *)
(* Records join as in TraceList; packing takes samples from the front of each   *)
(* segment and moves its start on by as many periods.                           *)
EXTENDS TraceList

\* a segment that earlier packing left without samples
Emptied(s) == s.dat = <<>> /\ s.st > s.en
\* the segment after its first k samples were packed
Consume(s, k, per) ==
  IF k = 0 THEN s
  ELSE [s EXCEPT !.st = IF k = Len(s.dat) THEN s.en + per ELSE @ + k * per,
                 !.dat = SubSeq(@, k + 1, Len(@)), !.cnt = @ - k]
\* samples a packing call takes from a segment: records of room samples while more than
\* room are left, or while any are left when flushing
RECURSIVE Take(_, _, _)
Take(n, room, flush) == IF n = 0 THEN 0 ELSE IF n > room THEN room + Take(n - room, room, flush) ELSE IF flush THEN n ELSE 0
=============================================================================
