--------------------------------- MODULE Output ---------------------------------
(* Records written to files: what a file holds after a call, and what the call   *)
(* answers.  A file is the sequence of its bytes; a device may hold only so much. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Flat(recs) == FoldLeft(LAMBDA a, r : a \o r, <<>>, recs)
Starts2(b, a) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* fs: path -> content of the files that exist; a: the call
\*   path, ow (replace), open: the path can be opened; limit: bytes a file may have, -1 any number; full: a device with no room at all
Base(fs, a) == IF a.ow \/ a.path \notin DOMAIN fs THEN <<>> ELSE fs[a.path]
Fits2(fs, a, recs) == LET n == Len(Flat(recs)) IN n = 0 \/ (~a.full /\ (a.limit < 0 \/ Len(Base(fs, a)) + n <= a.limit))
\* what the file must be afterwards; recs: records packing delivers, ok: whether packing succeeds
Content(fs, a, recs, b) ==
  LET base == Base(fs, a)
      all == base \o Flat(recs)
  IN IF ~a.open THEN (IF a.path \in DOMAIN fs THEN b = fs[a.path] ELSE b = <<>>)
     ELSE IF a.full THEN b = <<>>
     ELSE IF Fits2(fs, a, recs) THEN b = all
     ELSE Starts2(b, base) /\ Starts2(all, b) /\ (Len(b) <= a.limit \/ b = base)
\* what the call answers: a count, or -1 with a message
Answer(fs, a, recs, ok, rv, told) ==
  IF a.open /\ ok /\ Fits2(fs, a, recs) THEN rv = Len(recs) ELSE rv = -1 /\ told
=================================================================================
