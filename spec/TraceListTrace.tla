---------------------------- MODULE TraceListTrace ----------------------------
(* Binds TraceList to recorded executions of the library.                      *)
EXTENDS TraceList, Select, TraceRun

\* What a dump of the list must show
SegView(s) == [st |-> s.st, en |-> s.en, hz |-> s.hz, cnt |-> s.cnt, ty |-> s.ty,
               num |-> Len(s.dat), dat |-> s.dat, rl |-> s.rl]
IdView(t) == [sid |-> t.sid, pub |-> t.pub, earliest |-> t.earliest, latest |-> t.latest,
              numseg |-> Len(t.segs), segs |-> [i \in DOMAIN t.segs |-> SegView(t.segs[i])]]
ListView(tl) == [num |-> Len(tl), ids |-> [i \in DOMAIN tl |-> IdView(tl[i])]]

\* small: the time tolerance is below one period, so that segments only ever grow
Start(cfg) == [tl |-> <<>>, lost |-> {}, o |-> cfg.o, small |-> cfg.small,
               store |-> IF "store" \in DOMAIN cfg THEN cfg.store ELSE <<>>]

Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]

Whole(v, k) == v % k = 0
RoundK(v, k) == \* nearest whole value, halves away from zero; v scaled by k
  IF v >= 0 THEN k * ((v + k \div 2) \div k) ELSE -(k * ((-v + k \div 2) \div k))

\* Conversion of a segment's samples; values scaled by k (k = 4: quarters)
Conv(s, to, trunc, k) ==
  IF s.ty = to THEN [ok |-> TRUE, seg |-> s]
  ELSE IF s.ty = "t" \/ to = "t" THEN [ok |-> FALSE, seg |-> s]
  ELSE IF to = "i" /\ ~trunc /\ \E i \in DOMAIN s.dat : ~Whole(s.dat[i], k) THEN [ok |-> FALSE, seg |-> s]
  ELSE [ok |-> TRUE,
        seg |-> [s EXCEPT !.ty = to,
                          !.dat = [i \in DOMAIN @ |-> IF to = "i" THEN RoundK(@[i], k) ELSE @[i]]]]

\* Records read in one call, in order, up to the first the list refuses
RECURSIVE AddUntil(_, _, _, _)
AddUntil(tl, rs, o, n) ==
  IF rs = <<>> THEN [tl |-> tl, n |-> n]
  ELSE LET q == AddRec(tl, Head(rs), o)
       IN IF q.ok THEN AddUntil(q.tl, Tail(rs), o, n + 1) ELSE [tl |-> q.tl, n |-> n]

Step(s, e) ==
  CASE e.op = "add" ->
         LET oo == IF "o" \in DOMAIN e THEN e.o ELSE s.o
             q == AddRec(s.tl, e.rec, oo)
             exp == [ok |-> q.ok, iord |-> q.iord, sord |-> q.sord]
         IN Res(e.r = exp, [s EXCEPT !.tl = q.tl], q.tag, exp)
    [] e.op = "readall" ->
         \* one call that reads several records; it stops at the first that is refused
         \* selections (e.sel, sequence of additions) admit some of the records
         LET sel == FoldSeq(LAMBDA x, acc : AddSel(acc, x.pat, x.pub, x.w), <<>>, e.sel)
             rs == IF e.sel = <<>> THEN e.recs
                   ELSE SelectSeq(e.recs, LAMBDA r : Matches(sel, r.sid, r.st, EndOf(r), r.pub))
             q == AddUntil(s.tl, rs, s.o, 0)
             exp == [all |-> q.n = Len(rs), n |-> q.n]
         IN Res(e.r.all = exp.all /\ (exp.all /\ "n" \in DOMAIN e.r => e.r.n = exp.n), [s EXCEPT !.tl = q.tl],
                IF exp.all THEN "readall" ELSE "readall_refused", exp)
    [] e.op = "readeach" ->
         \* the caller's own loop: read a record, add it, go on
         LET sel == FoldSeq(LAMBDA x, acc : AddSel(acc, x.pat, x.pub, x.w), <<>>, e.sel)
             rs == IF e.sel = <<>> THEN e.recs
                   ELSE SelectSeq(e.recs, LAMBDA r : Matches(sel, r.sid, r.st, EndOf(r), r.pub))
             t == FoldSeq(LAMBDA r, acc : AddRec(acc, r, s.o).tl, s.tl, rs)
             exp == [ok |-> TRUE, n |-> Len(rs)]
         IN Res(e.r = exp, [s EXCEPT !.tl = t], "readeach", exp)
    [] e.op = "dump" ->
         LET v == ListView(s.tl)
         IN Res(e.r = v /\ e.links /\ Sorted(s.tl) /\ (s.small => Bounds(s.tl)), s, "dump", v)
    [] e.op = "find" ->
         LET i == FindIdx(s.tl, e.sid, e.pub, [s.o EXCEPT !.sv = e.pub # 0])
             exp == [found |-> i # 0]
         IN Res(e.r.found = (i # 0) /\ (i # 0 => e.r.sid = e.sid /\ (e.pub # 0 => e.r.pub = e.pub)),
                s, IF i # 0 THEN "find_hit" ELSE "find_miss", exp)
    [] e.op = "convert" ->
         LET g == s.tl[e.id + 1].segs[e.seg + 1]
             q == Conv(g, e.to, e.trunc, e.k)
             exp == [ok |-> q.ok, ty |-> q.seg.ty, num |-> Len(q.seg.dat), dat |-> q.seg.dat]
         IN Res(e.r = exp, [s EXCEPT !.tl[e.id + 1].segs[e.seg + 1] = q.seg],
                IF q.ok THEN "convert" ELSE "convert_refused", exp)
    [] e.op = "noseg" ->
         \* the recorder found no such segment: neither may the specification
         Res(e.id + 1 > Len(s.tl) \/ (e.id + 1 <= Len(s.tl) /\ e.seg + 1 > Len(s.tl[e.id + 1].segs)), s, "noseg", "segment exists")
    \* records whose bytes are no longer where they were: their file vanished, or was cut short
    [] e.op = "lost" -> Res(TRUE, [s EXCEPT !.lost = ToSet(e.locs)], "lost", 0)
    [] e.op = "unpack" ->
         \* deferred decoding from the record list; s.store holds what each location's bytes decode to
         LET g == s.tl[e.id + 1].segs[e.seg + 1]
             rl == SelectSeq(g.rl, LAMBDA x : s.store[x.loc].n > 0)
             tys == {s.store[x.loc].ty : x \in ToSet(g.rl)}
             want == FoldSeq(LAMBDA x, acc : acc \o s.store[x.loc].dat, <<>>, rl)
             own == e.osz < 0
             refused == g.rl = <<>> \/ (own /\ Len(g.dat) > 0) \/ Cardinality(tys) > 1 \/ (~own /\ e.osz < Len(want))
                        \/ \E i \in DOMAIN rl : rl[i].loc \in s.lost
             ty == CHOOSE t \in tys : TRUE
             exp == IF refused THEN [ok |-> FALSE, dat |-> <<>>] ELSE [ok |-> TRUE, ty |-> ty, dat |-> want]
             g2 == IF refused THEN g
                   ELSE [g EXCEPT !.ty = ty, !.dat = IF own THEN want ELSE @]
         IN Res(e.r.ok = exp.ok /\ (exp.ok => e.r.dat = exp.dat /\ e.r.ty = exp.ty),
                [s EXCEPT !.tl[e.id + 1].segs[e.seg + 1] = g2],
                IF refused THEN "unpack_refused" ELSE IF own THEN "unpack" ELSE "unpack_out", exp)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = [tl |-> <<>>, o |-> <<>>]
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
