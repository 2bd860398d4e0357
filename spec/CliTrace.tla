------------------------------- MODULE CliTrace ---------------------------------
(* Runs of the command recorded from the code.                                  *)
EXTENDS Cli, TraceRun

Start(cfg) == [fs |-> <<>>, N |-> cfg.N, J |-> cfg.J, base |-> cfg.base, rates |-> cfg.rates, hzk |-> cfg.hzk]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
Show(c) == FoldLeft(LAMBDA a, x : a \o (IF x \in 32..126 THEN SubSeq(Printable, x - 31, x - 31) ELSE "~"), "", c)

Judge(o, g, e, amb) ==
  LET q == Run(o, g, e.day, amb)
      f == Fits_(e.out, 1, q.out, 1)
  IN [q |-> q, at |-> f,
      wrong |-> (IF e.exit = q.exit THEN {} ELSE {"exit"}) \cup (IF f = 0 \/ o.res = "info" THEN {} ELSE {"output"})
                \cup (IF q.exit = 0 \/ e.reported THEN {} ELSE {"no error reported"})
                \cup (IF o.b = <<>> \/ ~q.files \/ e.bin = <<q.bin>> THEN {} ELSE {"samples written"})
                \cup (IF o.o \in {<<>>, <<45>>} \/ ~q.files \/ e.raw = <<q.raw>> THEN {} ELSE {"records written"})]
Step(s, e) ==
  CASE e.op = "file" -> Res(TRUE, [s EXCEPT !.fs = Append(@, [n |-> e.name, b |-> e.b])], "file", 0)
    [] e.op = "run" ->
         LET g == [s EXCEPT !.fs = Append(@, [n |-> <<45>>, b |-> e.in])]
             o == Args(Opt0, e.args, g)
             a == Judge(o, g, e, FALSE)
             b == Judge(o, g, e, TRUE)
             tag == o.res \o (IF o.only = 1 \/ o.list = 1 THEN "_trace" ELSE "") \o (IF o.only = 2 \/ o.list = 2 THEN "_gap" ELSE "") \o (IF o.only = 3 THEN "_sync" ELSE "")
                    \o (IF a.q.exit = 0 THEN "" ELSE "_fail")
             want == IF a.at = 0 \/ a.at > Len(a.q.out) THEN "" ELSE Show(CHOOSE t \in a.q.out[a.at] : TRUE)
         IN Res(a.wrong = {} \/ b.wrong = {}, s, tag,
                [wrong |-> a.wrong, exit |-> a.q.exit, piece |-> want, bin |-> a.q.bin, raw |-> Len(a.q.raw)])
    [] e.op = "list" ->
         \* the library's own listings of a file
         LET o == [Opt0 EXCEPT !.ver = e.sv, !.ins = <<e.file>>]
             tl == Traces(o, s, Passed(o, s, FALSE).ps)
             q == CASE e.kind = "trace" -> TraceList_(e.p, s, tl) [] e.kind = "gap" -> GapList_(e.p, s, tl) [] OTHER -> SyncList_(e.p, s, tl, e.day)
             f == Fits_(e.out, 1, q, 1)
         IN Res(f = 0, s, "list_" \o e.kind, [wrong |-> {"output"}, piece |-> IF f = 0 \/ f > Len(q) THEN "" ELSE Show(CHOOSE t \in q[f] : TRUE)])
    [] e.op = "full" ->
         \* output files that cannot be written: an error if there was anything to write
         LET g == [s EXCEPT !.fs = Append(@, [n |-> <<45>>, b |-> <<>>])]
             o == Args(Opt0, e.args, g)
             q == Run(o, g, e.day, FALSE)
             any == (o.o # <<>> /\ q.raw # <<>>) \/ (o.b # <<>> /\ q.bin # <<>>)
         IN Res(e.exit = (IF any THEN 1 ELSE q.exit) /\ (any => e.reported), s, "full", [exit |-> IF any THEN 1 ELSE q.exit])
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = Start([N |-> 1, J |-> 0, base |-> <<0, 0, 0>>, rates |-> <<>>, hzk |-> 0])
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
