------------------------------- MODULE MCReader -------------------------------
(* The reader's buffer: a window over the input filled in pieces of any size,  *)
(* moved forward as records are taken from it.  Whatever the fills, the        *)
(* records delivered, their positions and the ending are those of the input    *)
(* as a whole.  The input is a sequence of cells; a record of length k covers  *)
(* k cells, whose contents (after the first) may look like anything.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,      \* longest input
          M,      \* window: the longest record supported
          Kinds,  \* cells: "J" no record, "R<k>" a record of k cells, "X" a damaged record, "U" a record ending where the next begins
          Skips

VARIABLES f, skip, lo, hi, eof, want, nrec, out, end
vars == <<f, skip, lo, hi, eof, want, nrec, out, end>>

LenOf(c) == CASE c = "R1" -> 1 [] c = "R2" -> 2 [] c = "R3" -> 3 [] c = "R4" -> 4 [] c = "A1" -> 1 [] c = "A2" -> 2 [] c = "X" -> 1 [] OTHER -> 0
IsHeader2(c) == c \in {"U", "A1", "A2"}
Pow(n) == n \in {1, 2, 4, 8}
\* what parsing the cells w says: <<"no">>, <<"bad">>, <<"rec", k>>, <<"need", k>>, <<"big">>
Parse(w, ateof) ==
  LET c == w[1] IN
  CASE c = "J" -> <<"no", 0>>
    [] c = "U" -> LET nx == {k \in 2..Len(w) : IsHeader2(w[k])}
                  IN IF nx # {} THEN <<"rec", (CHOOSE k \in nx : \A j \in nx : k <= j) - 1>>
                     ELSE IF ateof /\ Pow(Len(w)) THEN <<"rec", Len(w)>>
                     ELSE <<"need", 1>>
    [] LenOf(c) > M -> <<"big", 0>>
    [] LenOf(c) > Len(w) -> <<"need", LenOf(c) - Len(w)>>
    [] c = "X" -> <<"bad", 0>>
    [] OTHER -> <<"rec", LenOf(c)>>

-----------------------------------------------------------------------------
\* the whole input at once
RECURSIVE Whole(_, _, _, _)
Whole(g, s, pos, n) ==
  LET rest == Len(g) - pos
      stop(r) == [recs |-> <<>>, end |-> r]
  IN IF rest < 1 THEN stop(IF n = 0 THEN "notseed" ELSE "eof")
     ELSE LET w == SubSeq(g, pos + 1, pos + (IF rest < M THEN rest ELSE M))
              p == Parse(w, rest < M)
              big == p[1] = "big" \/ (p[1] = "need" /\ Len(w) + p[2] > M)
          IN CASE p[1] = "rec" -> LET r == Whole(g, s, pos + p[2], n + 1) IN [r EXCEPT !.recs = <<<<pos, p[2]>>>> \o @]
               [] p[1] = "need" /\ ~big -> stop("eof")
               [] OTHER -> IF s THEN Whole(g, s, pos + 1, n) ELSE stop(IF big THEN "range" ELSE IF p[1] = "no" THEN "notseed" ELSE "err")

-----------------------------------------------------------------------------
Init == /\ f \in UNION {[1..n -> Kinds] : n \in 0..N}
        /\ skip \in Skips
        /\ lo = 0 /\ hi = 0 /\ eof = FALSE /\ want = 0 /\ nrec = 0 /\ out = <<>> /\ end = "no"
Buffered == hi - lo
\* a read is due: nothing buffered to look at, or the record at hand needs more
Due == ~eof /\ (Buffered < 1 \/ want > 0)
\* one read: any number of cells up to the room left; at the end of the input, notice it
Fill == /\ end = "no" /\ Due
        /\ \E n \in 0..M :
             /\ Buffered + n <= M
             /\ hi + n <= Len(f)
             /\ n > 0 \/ hi = Len(f)
             /\ hi' = hi + n
             /\ eof' \in (IF hi + n = Len(f) /\ Buffered + n < M THEN IF n = 0 THEN {TRUE} ELSE BOOLEAN ELSE {n = 0 /\ Buffered < M})
             /\ want' = 0
        /\ UNCHANGED <<f, skip, lo, nrec, out, end>>
Finish(e) == end' = e /\ UNCHANGED <<f, skip, lo, hi, eof, want, nrec, out>>
Look == /\ end = "no" /\ ~Due
        /\ IF Buffered < 1 THEN Finish(IF nrec = 0 THEN "notseed" ELSE "eof")
           ELSE LET p == Parse(SubSeq(f, lo + 1, hi), eof)
                    big == p[1] = "big" \/ (p[1] = "need" /\ Buffered + p[2] > M)
                    step == lo' = lo + 1 /\ want' = 0 /\ UNCHANGED <<f, skip, hi, eof, nrec, out, end>>
                IN CASE p[1] = "rec" -> /\ out' = Append(out, <<lo, p[2]>>) /\ nrec' = nrec + 1 /\ lo' = lo + p[2] /\ want' = 0
                                        /\ UNCHANGED <<f, skip, hi, eof, end>>
                     [] p[1] = "need" /\ ~big -> IF eof THEN Finish("eof") ELSE want' = p[2] /\ UNCHANGED <<f, skip, lo, hi, eof, nrec, out, end>>
                     [] OTHER -> IF skip THEN step ELSE Finish(IF big THEN "range" ELSE IF p[1] = "no" THEN "notseed" ELSE "err")
Next == Fill \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the records so far are the first of those of the whole; at the end, all of them and the same ending
Refines == LET w == Whole(f, skip, 0, 0)
           IN /\ Len(out) <= Len(w.recs) /\ out = SubSeq(w.recs, 1, Len(out))
              /\ end # "no" => out = w.recs /\ end = w.end
Bounded == Buffered <= M /\ lo <= hi /\ hi <= Len(f)
\* no record overlaps another, and without skipping they lie end to end
Disjoint == \A i \in 1..(Len(out) - 1) : IF skip THEN out[i][1] + out[i][2] <= out[i + 1][1] ELSE out[i][1] + out[i][2] = out[i + 1][1]
Ends == <>(end # "no")
Emit == (lo = 0 /\ hi = 0 /\ ~eof /\ end = "no") => PrintT("HIST " \o ToJson([f |-> f, skip |-> skip]))
=============================================================================
