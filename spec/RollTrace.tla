------------------------------- MODULE RollTrace -------------------------------
(* Rolling buffers, as recorded from the code: additions, packing calls with    *)
(* the records they emit, and dumps of the list.                                *)
EXTENDS Roll, Pack, TraceRun

Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
\* cfg.base: [day, second, nanosecond] of time 0; cfg.ups: units per second; cfg.u: nanoseconds per unit; cfg.rates: [hz, per, r]
Start(cfg) == [tl |-> <<>>, o |-> cfg.o, c |-> cfg]
RateOf(c, hz) == CHOOSE x \in ToSet(c.rates) : x.hz = hz
Floor(a, k) == IF a >= 0 THEN a \div k ELSE -((-a + k - 1) \div k)
AbsT(c, t) ==
  LET w == Floor(t, c.ups)
      n == c.base[3] + (t - w * c.ups) * c.u
      sec == c.base[2] + w + n \div 1000000000
      day == c.base[1] + Floor(sec, 86400)
  IN <<day, sec - 86400 * Floor(sec, 86400), n % 1000000000>>
EncFor(ty, enc) == CASE ty = "t" -> TEXT [] ty = "f" -> FLOAT32 [] ty = "d" -> FLOAT64 [] OTHER -> enc
ReqOf(s, t, g, e) ==
  [sid |-> t.sid, ver |-> IF e.v2 THEN 2 ELSE 3, flags |-> 0, pub |-> t.pub, enc |-> EncFor(g.ty, e.enc), reclen |-> e.reclen,
   extra |-> e.extra, ex |-> {<<e.ex[i][1], e.ex[i][2]>> : i \in DOMAIN e.ex}, exok |-> TRUE, rate |-> RateOf(s.c, g.hz).r,
   t |-> AbsT(s.c, g.st), type |-> g.ty, s |-> g.dat, dq |-> 0]

\* where the headers of a first version 2 record end, for rates its factors can state
Head2(m) == 56 + (IF (\E p \in m.ex : p[1] = QualityPath) \/ m.t[3] % 100000 >= 1000 THEN 8 ELSE 0)
\* one segment against the records that are left: samples and records taken, what is wrong, whether the call ends here
SegPack(m, recs, flush, empty) ==
  IF empty THEN [k |-> 0, n |-> 0, bad |-> {}, end |-> "no"]
  ELSE IF HeadRefused(m) THEN [k |-> 0, n |-> 0, bad |-> {}, end |-> "yes"]
  ELSE IF m.s = <<>> THEN (IF recs = <<>> THEN [k |-> 0, n |-> 0, bad |-> {"no empty record"}, end |-> "no"]
                           ELSE [k |-> 0, n |-> 1, bad |-> Empty(m, recs[1]), end |-> "no"])
  ELSE LET q == FoldLeft(LAMBDA a, b : IF a.done \/ a.bad # {} THEN a
                                       ELSE IF ~Reached(m, a.k, flush, a.hend) \/ StopsAt(m, a.k, a.hend) = "yes" THEN [a EXCEPT !.done = TRUE]
                                       ELSE LET r == Record(m, b, a.k)
                                            IN [bad |-> r.bad, k |-> a.k + r.n, n |-> a.n + 1, hend |-> IF r.bad = {} /\ m.ver = 2 THEN r.x.hend ELSE 0, done |-> FALSE],
                         [bad |-> {}, k |-> 0, n |-> 0, hend |-> IF m.ver = 2 THEN Head2(m) ELSE 0, done |-> FALSE], recs)
           more == Reached(m, q.k, flush, q.hend)
       IN [k |-> q.k, n |-> q.n, bad |-> q.bad \cup If(more /\ q.bad = {} /\ StopsAt(m, q.k, q.hend) = "no", {"stopped early"}),
           end |-> IF more THEN StopsAt(m, q.k, q.hend) ELSE "no"]

\* all segments in turn
Spots(tl) == FlattenSeq([i \in DOMAIN tl |-> [j \in DOMAIN tl[i].segs |-> <<i, j>>]])
RunPack(s, e) ==
  FoldLeft(LAMBDA a, p : IF a.bad # {} \/ a.end # "no" THEN a
             ELSE LET g == a.tl[p[1]].segs[p[2]]
                      x == SegPack(ReqOf(s, a.tl[p[1]], g, e), SubSeq(e.r.recs, a.n + 1, Len(e.r.recs)), e.flush, Emptied(g))
                  IN [bad |-> IF x.bad = {} THEN {} ELSE {<<p, x.bad>>}, end |-> x.end, n |-> a.n + x.n, k |-> a.k + x.k,
                      tl |-> IF e.keep THEN a.tl ELSE [a.tl EXCEPT ![p[1]].segs[p[2]] = Consume(@, x.k, RateOf(s.c, g.hz).per)]],
           [tl |-> s.tl, bad |-> {}, end |-> "no", n |-> 0, k |-> 0], Spots(s.tl))

SegView(g) == [st |-> g.st, en |-> g.en, hz |-> g.hz, cnt |-> g.cnt, ty |-> g.ty, num |-> Len(g.dat), dat |-> g.dat]
IdView(t) == [sid |-> t.sid, pub |-> t.pub, numseg |-> Len(t.segs), segs |-> [i \in DOMAIN t.segs |-> SegView(t.segs[i])]]

Step(s, e) ==
  CASE e.op = "add" ->
         LET q == AddRec(s.tl, e.rec, s.o)
         IN Res(e.r.ok = q.ok, [s EXCEPT !.tl = q.tl], q.tag, q.ok)
    [] e.op = "pack" ->
         LET q == RunPack(s, e)
             d == q.bad \cup (IF q.n = Len(e.r.recs) THEN {} ELSE {<<"records", q.n, Len(e.r.recs)>>})
                  \cup (IF e.r.packed \in {q.k, -1} THEN {} ELSE {<<"packed", q.k, e.r.packed>>})
                  \cup (CASE q.end = "yes" -> IF e.r.rv < 0 THEN {} ELSE {"accepted"}
                          [] q.end = "no" -> IF e.r.rv = q.n THEN {} ELSE {<<"returned", q.n, e.r.rv>>}
                          [] OTHER -> IF e.r.rv < 0 THEN {} ELSE {"maybe accepted"})
                  \cup (IF e.r.own THEN {} ELSE {"the caller's extra headers"})
         IN Res(d = {}, [s EXCEPT !.tl = q.tl], (IF e.v2 THEN "pack2" ELSE "pack3") \o (IF e.flush THEN "_flush" ELSE "") \o (IF e.keep THEN "_keep" ELSE "")
                  \o (IF q.end # "no" THEN "_refused" ELSE IF q.n = 0 THEN "_none" ELSE IF \E i \in DOMAIN q.tl : \E j \in DOMAIN q.tl[i].segs : Emptied(q.tl[i].segs[j]) THEN "_emptied" ELSE ""), d)
    [] e.op = "dump" ->
         LET v == [i \in DOMAIN s.tl |-> IdView(s.tl[i])]
         IN Res(e.r = v, s, "dump", v)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = [tl |-> <<>>]
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
