----------------------------- MODULE SelectTrace ------------------------------
EXTENDS Select, TraceRun

Start(cfg) == [sel |-> <<>>]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
ToView(d) == {[pat |-> d[i].pat, pub |-> d[i].pub, tw |-> {d[i].tw[k] : k \in DOMAIN d[i].tw}] : i \in DOMAIN d}

Step(s, e) ==
  CASE e.op = "add" ->
         IF Kept2(e.pat) THEN Res(e.r = 0, [s EXCEPT !.sel = AddSel(@, e.pat, e.pub, e.w)], "add", 0)
         ELSE Res(e.r < 0, s, "add_long", -1)
    [] e.op = "comp" ->
         LET pat == PatOf(e.n, e.s2, e.loc, e.ch) IN
         IF Kept2(pat) THEN Res(e.r = 0, [s EXCEPT !.sel = AddSel(@, pat, e.pub, e.w)], "comp", pat)
         ELSE Res(e.r < 0, s, "comp_long", -1)
    [] e.op = "matchrec" ->
         \* a record structure: its identifier, version and the span of its samples
         LET m == Matches(s.sel, e.sid, e.st, e.en, e.pub) IN Res(e.r = m, s, IF m THEN "matchrec" ELSE "nomatchrec", m)
    [] e.op = "file" ->
         LET q == ReadLines(s.sel, e.lines, 0)
         IN Res(e.r = q.n, [s EXCEPT !.sel = q.sel], IF q.n < 0 THEN "file_bad" ELSE "file", q.n)
    [] e.op = "dump" ->
         Res(ToView(e.r) = View(s.sel) /\ Cardinality(ToView(e.r)) = Len(e.r), s, "dump", View(s.sel))
    [] e.op = "match" ->
         LET m == Matches(s.sel, e.sid, e.st, e.en, e.pub)
             \* a returned entry and window must be ones that match
             wit == e.r.m => \E i \in DOMAIN s.sel :
                       /\ s.sel[i].pat = e.r.pat /\ s.sel[i].pub = e.r.mpub /\ EntryMatch(s.sel[i], e.sid, e.st, e.en, e.pub)
                       /\ IF e.r.hastw THEN e.r.w \in ToSet(s.sel[i].tw) /\ InWindow(e.r.w, e.st, e.en) ELSE s.sel[i].tw = <<>>
         IN Res(e.r.m = m /\ wit, s, IF m THEN "match" ELSE "nomatch", m)
    [] e.op = "glob" ->
         \* one pattern against many strings
         LET exp == [i \in DOMAIN e.strs |-> IF Glob(e.strs[i], e.pat) THEN 1 ELSE 0]
         IN Res(e.r = exp, s, "glob", exp)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = [sel |-> <<>>]
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
