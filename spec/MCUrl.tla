--------------------------------- MODULE MCUrl ---------------------------------
(* Reading from a server: the bytes arrive in pieces, each is taken whole or   *)
(* not at all (the transfer pauses until there is room), and the transfer may  *)
(* end before all of it has arrived.  Whatever the pieces, the records and the *)
(* ending are those of the bytes that arrived; a transfer that broke off is an *)
(* error once its complete records were delivered; and the reader never waits  *)
(* for a piece that will not fit.                                              *)
EXTENDS MCReader
CONSTANTS P,      \* longest piece
          Room    \* cells of buffer beyond the longest record
VARIABLES cut,    \* the cells that arrive; all of them, or the transfer breaks
          chunk,  \* cells of the piece at hand, 0 if none
          still,  \* "run", "done", "failed"
          reading, got
uvars == <<vars, cut, chunk, still, reading, got>>

RECURSIVE WholeB(_, _, _, _, _)
WholeB(g, s, broken, pos, n) ==
  LET rest == Len(g) - pos
      stop(r) == [recs |-> <<>>, end |-> r]
  IN IF rest < 1 THEN stop(IF broken THEN "err" ELSE IF n = 0 THEN "notseed" ELSE "eof")
     ELSE LET w == SubSeq(g, pos + 1, pos + (IF rest < M THEN rest ELSE M))
              p == Parse(w, rest < M /\ ~broken)
              big == p[1] = "big" \/ (p[1] = "need" /\ Len(w) + p[2] > M)
          IN CASE p[1] = "rec" -> LET r == WholeB(g, s, broken, pos + p[2], n + 1) IN [r EXCEPT !.recs = <<<<pos, p[2]>>>> \o @]
               [] p[1] = "need" /\ ~big -> stop(IF broken THEN "err" ELSE "eof")
               [] OTHER -> IF s THEN WholeB(g, s, broken, pos + 1, n) ELSE stop(IF big THEN "range" ELSE IF p[1] = "no" THEN "notseed" ELSE "err")

Broken == cut < Len(f)
UInit == /\ Init /\ cut \in 0..Len(f) /\ chunk = 0 /\ still = "run" /\ reading = FALSE /\ got = 0
\* the server's next piece
Arrive == /\ still = "run" /\ chunk = 0 /\ hi < cut
          /\ \E n \in 1..P : hi + n <= cut /\ chunk' = n
          /\ UNCHANGED <<vars, cut, still, reading, got>>
\* the end of the transfer is noticed while reading, or before
Over == /\ still = "run" /\ chunk = 0 /\ hi = cut /\ (reading \/ hi = 0)
        /\ still' = IF Broken THEN "failed" ELSE "done"
        /\ UNCHANGED <<vars, cut, chunk, reading, got>>
UDue == still # "done" /\ (Buffered < 1 \/ want > 0)
Begin == /\ end = "no" /\ ~reading /\ UDue
         /\ IF still = "failed" THEN Finish("err") /\ UNCHANGED <<cut, chunk, still, reading, got>>
            ELSE reading' = TRUE /\ got' = 0 /\ UNCHANGED <<vars, cut, chunk, still>>
Take == /\ reading /\ chunk > 0
        /\ IF chunk <= M + Room - Buffered
           THEN hi' = hi + chunk /\ chunk' = 0 /\ got' = got + chunk /\ UNCHANGED <<f, skip, lo, eof, want, nrec, out, end, cut, still, reading>>
           ELSE \* paused: back to the caller with what there is
                /\ reading' = FALSE /\ want' = 0 /\ UNCHANGED <<f, skip, lo, hi, eof, nrec, out, end, cut, chunk, still, got>>
Back == /\ reading /\ still # "run" /\ chunk = 0
        /\ reading' = FALSE /\ want' = 0 /\ UNCHANGED <<f, skip, lo, hi, eof, nrec, out, end, cut, chunk, still, got>>
\* a full buffer also ends a reading
Full == /\ reading /\ Buffered = M + Room
        /\ reading' = FALSE /\ want' = 0 /\ UNCHANGED <<f, skip, lo, hi, eof, nrec, out, end, cut, chunk, still, got>>
ULook == /\ end = "no" /\ ~reading /\ ~UDue
         /\ UNCHANGED <<cut, chunk, still, reading, got>>
         /\ IF Buffered < 1 THEN Finish(IF nrec = 0 THEN "notseed" ELSE "eof")
            ELSE LET w == SubSeq(f, lo + 1, IF Buffered > M THEN lo + M ELSE hi)
                     p == Parse(w, still = "done" /\ Buffered < M)
                     big == p[1] = "big" \/ (p[1] = "need" /\ Len(w) + p[2] > M)
                     step == lo' = lo + 1 /\ want' = 0 /\ UNCHANGED <<f, skip, hi, eof, nrec, out, end>>
                 IN CASE p[1] = "rec" -> /\ out' = Append(out, <<lo, p[2]>>) /\ nrec' = nrec + 1 /\ lo' = lo + p[2] /\ want' = 0
                                         /\ UNCHANGED <<f, skip, hi, eof, end>>
                      [] p[1] = "need" /\ ~big -> IF still = "done" THEN Finish("eof") ELSE want' = p[2] /\ UNCHANGED <<f, skip, lo, hi, eof, nrec, out, end>>
                      [] OTHER -> IF skip THEN step ELSE Finish(IF big THEN "range" ELSE IF p[1] = "no" THEN "notseed" ELSE "err")
UNext == Arrive \/ Over \/ Begin \/ Take \/ Back \/ Full \/ ULook
USpec == UInit /\ [][UNext]_uvars /\ WF_uvars(UNext)

URefines == LET w == WholeB(SubSeq(f, 1, cut), skip, Broken, 0, 0)
            IN /\ Len(out) <= Len(w.recs) /\ out = SubSeq(w.recs, 1, Len(out))
               /\ end # "no" => out = w.recs /\ end = w.end
\* a pause always follows some bytes
NoStall == [][(reading /\ ~reading' /\ still = "run") => got > 0]_uvars
UBounded == Buffered <= M + Room /\ lo <= hi /\ hi <= cut
UEmit == (hi = 0 /\ chunk = 0 /\ still = "run" /\ ~reading /\ end = "no") => PrintT("HIST " \o ToJson([f |-> f, skip |-> skip, cut |-> cut]))
=============================================================================
