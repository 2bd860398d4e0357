-------------------------------- MODULE OutTrace --------------------------------
(* Writing records and trace lists to files, as recorded from the code.           *)
EXTENDS Pack, TraceRun
F == INSTANCE Output

\* b: the records packing delivers, by a request to memory; ok: whether it succeeds; fs: files; look: the record or list as last seen
Start(cfg) == [recs |-> <<>>, ok |-> TRUE, fs |-> <<>>, look |-> "?"]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
ToEx(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
With(fs, p, b) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN b ELSE fs[q]]
Kind(s, e) == IF ~e.a.open THEN "_unopened" ELSE IF ~F!Fits2(s.fs, e.a, s.recs) THEN "_full" ELSE IF ~s.ok THEN "_refused" ELSE IF s.recs = <<>> THEN "_nothing" ELSE ""
Step(s, e) ==
  CASE e.op = "pack" ->
         \* a record's own request: the specification of packing decides it
         LET m == [e.m EXCEPT !.ex = ToEx(@)]
             d == Packed(m, e.flush, e.r)
         IN Res(d = {}, [s EXCEPT !.recs = e.r.recs, !.ok = e.r.rv >= 0], "pack", d)
    [] e.op = "deliver" -> Res(TRUE, [s EXCEPT !.recs = e.r.recs, !.ok = e.r.rv >= 0], "deliver", 0)
    [] e.op = "write" ->
         LET rv == F!Answer(s.fs, e.a, s.recs, s.ok, e.r.rv, e.r.told)
             b == F!Content(s.fs, e.a, s.recs, e.r.b)
             ex == e.a.open /\ ~e.a.full
             \* standard output stays open
             o == e.std => e.r.open = 1
         IN Res(rv /\ b /\ o, IF ex THEN [s EXCEPT !.fs = With(s.fs, e.a.path, e.r.b)] ELSE s,
                "write" \o Kind(s, e) \o (IF e.std THEN "_std" ELSE IF e.a.ow THEN "_over" ELSE IF e.a.path \in DOMAIN s.fs THEN "_append" ELSE "_new"),
                [answer |-> rv, content |-> b, open |-> o, want |-> IF F!Fits2(s.fs, e.a, s.recs) THEN Len(s.recs) ELSE -1, bytes |-> Len(F!Base(s.fs, e.a)) + Len(F!Flat(s.recs)), got |-> Len(e.r.b)])
    [] e.op = "renew" -> Res(TRUE, [s EXCEPT !.look = "?"], "renew", 0)
    [] e.op = "look" -> Res(s.look = "?" \/ s.look = e.v, [s EXCEPT !.look = e.v], "look", s.look)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")
TraceInit == TraceInit0 /\ st = Start(<<>>)
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=================================================================================
