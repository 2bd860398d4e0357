------------------------------ MODULE DiagTrace -------------------------------
(* Diagnoses of raw headers as recorded from the code: the count returned, the  *)
(* faults told, the fields listed.                                              *)
EXTENDS Diag, TraceRun
Start(cfg) == [b |-> <<>>]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
\* numbers of which the listing tells six digits only
Rounded == {"actual sample rate", "signal amplitude", "signal period", "background estimate", "beam azimuth (degrees)", "beam slowness (sec/degree)", "VCO correction", "peak-to-peak amplitude"}
Told6(exact, ls) == IF exact THEN ls ELSE [i \in DOMAIN ls |-> IF ls[i].l \in Rounded THEN [ls[i] EXCEPT !.v = <<>>] ELSE ls[i]]
FirstDiff(p, q) == LET n == {i \in 1..Max2(Len(p), Len(q)) : i > Len(p) \/ i > Len(q) \/ p[i] # q[i]} IN
                   IF n = {} THEN <<>> ELSE LET i == CHOOSE i \in n : \A j \in n : i <= j IN <<i, IF i > Len(q) THEN "no more" ELSE q[i]>>
Step(s, e) ==
  CASE e.op = "buf" -> Res(TRUE, [b |-> e.b], "buf", 0)
    [] e.op = "raw" ->
         LET x == IF e.ver = 3 THEN Raw3(s.b, e.d) ELSE Raw2(s.b, e.d, e.sw)
             ok == e.rv = x.n /\ e.told = x.n /\ Told6(e.exact, e.ls) = Told6(e.exact, x.ls)
         IN Res(ok, s, "raw" \o ToString(e.ver) \o "_" \o (IF x.n = 0 THEN "clean" ELSE "faults") \o ToString(e.d), [n |-> x.n, line |-> FirstDiff(Told6(e.exact, e.ls), Told6(e.exact, x.ls))])
    [] e.op = "listed" ->
         \* the same fields in the listing of the command, record after record
         LET want == FlattenSeq([i \in DOMAIN e.recs |-> IF e.vers[i] = 3 THEN Raw3(e.recs[i], e.d).ls ELSE Raw2(e.recs[i], e.d, -1).ls])
         IN Res(e.ls = want /\ e.rv = 0, s, "listed" \o ToString(e.d), [line |-> FirstDiff(e.ls, want)])
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = [b |-> <<>>]
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
===============================================================================
