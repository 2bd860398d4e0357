------------------------------- MODULE AllocTrace --------------------------------
(* Memory events recorded from the code, call by call.                            *)
EXTENDS Alloc, TraceRun
\* spoilt: a refused request has been reported, later answers are free
Start(cfg) == [m |-> Empty, spoilt |-> FALSE]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
ToSet_(q) == {q[i] : i \in DOMAIN q}
Step(s, e) ==
  CASE e.op = "call" ->
         LET q == Requests(s.m, e.ops, e.uses)
             m == IF e.par THEN q.m ELSE [q.m EXCEPT !.kept = {}]
             held == ToSet_(e.held)
             wrong == (IF q.at = 0 THEN {} ELSE {"released twice, or not through the configured functions"})
                      \cup (IF Lost(m, held) = {} THEN {} ELSE {"not released"})
                      \cup (IF Dangling(m, held) = {} THEN {} ELSE {"released while in use"})
                      \cup (IF Cardinality(held) = Len(e.held) THEN {} ELSE {"held twice"})
                      \cup (IF e.direct = 0 THEN {} ELSE {"obtained past the configured functions"})
                      \cup (IF e.fds = e.hfds THEN {} ELSE {"file handles"})
             refused == \E i \in DOMAIN e.ops : e.ops[i][1] = 4
         IN Res(wrong = {}, [s EXCEPT !.m = m], e.call \o (IF refused THEN "_refused" ELSE ""), [wrong |-> wrong, lost |-> Cardinality(Lost(m, held))])
    [] e.op = "answer" ->
         LET ok == IF e.again \/ (~e.refused /\ ~s.spoilt) THEN Recovered(e) ELSE s.spoilt \/ Reported(e)
             tag == IF e.again THEN "_again" ELSE IF ~e.refused THEN (IF s.spoilt THEN "_free" ELSE "_later") ELSE IF e.failed THEN "_failed" ELSE IF e.told THEN "_told" ELSE "_unaffected"
         IN Res(ok, [s EXCEPT !.spoilt = IF e.again THEN FALSE ELSE @ \/ (e.refused /\ (e.failed \/ e.told))], e.call \o tag, e.want)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = Start(<<>>)
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
==================================================================================
