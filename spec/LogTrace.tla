------------------------------- MODULE LogTrace -------------------------------
(* Calls on logging contexts and what reaches the handlers.                     *)
EXTENDS Log, TraceRun
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
Start(cfg) == [i \in 1..4 |-> Fresh]
TraceInit == TraceInit0 /\ st = [i \in 1..4 |-> Fresh]

\* delivered texts of emitted messages; with the function's name they may be shortened
Shown(m, ctx, got) ==
  IF ctx /\ m.fn # <<>>
  THEN LET full == m.fn \o <<40, 41, 32>> \o m.msg IN IsPrefix(got, full) /\ (got = full \/ Len(got) >= 160)
  ELSE got = m.msg
Same(sink, d) == Len(sink) = Len(d) /\ \A i \in DOMAIN d : sink[i].h = d[i].h /\ sink[i].m = d[i].m
Step(s, e) ==
  LET c == s[e.c] IN
  CASE e.op = "init" ->
         \* an unsuitable prefix is an error, and left out
         LET ref == (IF e.lp # <<>> /\ Len(e.lp[1]) > MaxText THEN 1 ELSE 0) + (IF e.ep # <<>> /\ Len(e.ep[1]) > MaxText THEN 1 ELSE 0)
             n == Init1(c, e)
         IN Res(e.r.ok /\ Len(e.r.sink) = ref /\ \A i \in 1..ref : e.r.sink[i].h = n.hd, [s EXCEPT ![e.c] = n], IF ref > 0 THEN "init_refused" ELSE "init", ref)
    [] e.op = "log" ->
         LET d == Delivered(c, e.lv, e.msg) IN
         Res(Same(e.r.sink, d) /\ e.r.rv >= 0, [s EXCEPT ![e.c] = Logged(c, e.lv, e.fn, e.msg)],
             IF Stores(c, e.lv) THEN (IF Len(c.reg) >= c.max THEN "log_push" ELSE "log_store") ELSE "log_now", d)
    [] e.op = "emit" ->
         LET d == Out(c, e.n) IN
         Res(/\ e.r.rv = Len(d) /\ Len(e.r.sink) = Len(d)
             /\ \A i \in DOMAIN d : e.r.sink[i].h = Handler(c, d[i].lv) /\ Shown(d[i], e.ctx, e.r.sink[i].m),
             [s EXCEPT ![e.c] = Emitted(c, e.n)], IF e.n > 0 THEN "emit_some" ELSE "emit_all", d)
    [] e.op = "clear" -> Res(e.r.rv = Len(c.reg) /\ e.r.sink = <<>>, [s EXCEPT ![e.c] = Cleared(c)], "clear", Len(c.reg))
    [] e.op = "look" -> \* the registry as the program sees it
         Res(e.r = [i \in DOMAIN c.reg |-> [lv |-> c.reg[i].lv, fn |-> c.reg[i].fn, msg |-> c.reg[i].msg]], s, "look", c.reg)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
