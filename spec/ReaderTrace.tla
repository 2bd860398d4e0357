----------------------------- MODULE ReaderTrace ------------------------------
(* Reading sessions recorded from the code.                                    *)
EXTENDS Reader, RecCmp, TraceRun

Cfg0 == [f |-> <<>>, m |-> MaxRecLen, start |-> 0, end |-> 0, skip |-> FALSE, crc |-> FALSE, unpack |-> FALSE, broken |-> FALSE, hassel |-> FALSE, sel |-> <<>>]
Rd0 == [c |-> Cfg0, pos |-> 0, n |-> 0, open |-> TRUE]
\* files by name, selections, and up to three readers at once
Start(cfg) == [fs |-> <<>>, us |-> <<>>, hd |-> <<>>, sel |-> <<>>, rd |-> <<Rd0, Rd0, Rd0>>]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]


\* how an ending is reported
EndOk(x, r) == CASE x = "ends" -> r \in {"eof", "notseed"}
                 [] x = "notseed" -> r \in {"notseed", "range"}
                 [] x \in {"range", "err"} -> r \in {"notseed", "range", "err", "unknown"}
                 [] OTHER -> r = x

\* the records of the whole input: [pos, len, ...] and the ending
RECURSIVE All(_, _, _, _)
All(c, pos, n, max) ==
  LET q == Scan(c, pos, n) IN
  IF q.cls # "ok" \/ max = 0 THEN [recs |-> <<>>, cls |-> q.cls, pos |-> q.pos]
  ELSE LET r == All(c, q.pos + q.x.len, q.nrec + 1, max - 1)
       IN [r EXCEPT !.recs = <<[len |-> q.x.len, end |-> q.pos + q.x.len, ver |-> q.x.ver, num |-> IF c.unpack THEN Len(q.sm.s) ELSE 0]>> \o @]

\* "file://", in letters of either case, names a local file and is not part of its name
Lower(x) == IF x \in 65..90 THEN x + 32 ELSE x
Local(p) == IF Len(p) >= 7 /\ [i \in 1..7 |-> Lower(p[i])] = <<102, 105, 108, 101, 58, 47, 47>> THEN SubSeq(p, 8, Len(p)) ELSE p

\* what opening a path gives: the file's bytes and the range
Opened(s, e) ==
  LET p == IF e.range THEN PathRange(e.path) ELSE [path |-> e.path, hass |-> FALSE, start |-> 0, hase |-> FALSE, end |-> 0]
      c == {i \in DOMAIN s.fs : s.fs[i].n = Local(p.path)}
      f == IF c = {} THEN <<>> ELSE s.fs[CHOOSE i \in c : TRUE].b
  \* a path of 512 characters or more does not fit and is refused
  IN [ok |-> c # {} /\ Len(p.path) < 512,
      c |-> [Cfg0 EXCEPT !.f = f, !.sel = s.sel, !.m = e.m, !.start = IF p.hass THEN p.start ELSE e.start, !.end = IF p.hase THEN p.end ELSE e.end,
                        !.skip = e.skip, !.crc = e.crc, !.unpack = e.unpack, !.hassel = e.sel]]

\* what a URL gives
OpenedUrl(s, e) ==
  LET p == IF e.range THEN PathRange(e.path) ELSE [path |-> e.path, hass |-> FALSE, start |-> 0, hase |-> FALSE, end |-> 0]
      c == {i \in DOMAIN s.us : s.us[i].n = p.path}
      a == IF p.hass THEN p.start ELSE e.start
      z == IF p.hase THEN p.end ELSE e.end
      v == IF c = {} THEN [ok |-> FALSE, f |-> <<>>, start |-> 0, end |-> 0, broken |-> FALSE] ELSE Served(s.us[CHOOSE i \in c : TRUE].u, a, z)
  IN [ok |-> v.ok,
      c |-> [Cfg0 EXCEPT !.f = v.f, !.sel = s.sel, !.m = e.m, !.start = v.start, !.end = v.end, !.broken = v.broken,
                        !.skip = e.skip, !.crc = e.crc, !.unpack = e.unpack, !.hassel = e.sel]]
OpenedAny(s, e) == IF e.path # <<>> /\ e.path[1] = 47 THEN OpenedUrl(s, e) ELSE Opened(s, e)

\* "User-Agent: libmseed/": what the library calls itself when not told otherwise
DefaultAgent == <<85, 115, 101, 114, 45, 65, 103, 101, 110, 116, 58, 32, 108, 105, 98, 109, 115, 101, 101, 100, 47>>
Step(s, e) ==
  CASE e.op = "url" -> Res(TRUE, [s EXCEPT !.us = Append(@, [n |-> e.name, u |-> e.u])], "url", 0)
    [] e.op = "header" -> Res(e.ok, [s EXCEPT !.hd = IF e.free THEN <<>> ELSE Append(@, e.h)], "header", 0)
    \* a request the server saw carries the headers set
    \* and no others; the user agent's is followed by the versions of the libraries
    [] e.op = "request" ->
         LET Has(h, x) == h = x \/ (Len(h) > 0 /\ h[Len(h)] = 47 /\ Len(x) > Len(h) /\ SubSeq(x, 1, Len(h)) = h)
             own == \E i \in DOMAIN s.hd : Len(s.hd[i]) > 11 /\ SubSeq(s.hd[i], 1, 11) = SubSeq(DefaultAgent, 1, 11)
             hd == IF own THEN s.hd ELSE Append(s.hd, DefaultAgent)
         IN Res(/\ \A i \in DOMAIN hd : \E k \in DOMAIN e.h : Has(hd[i], e.h[k])
                /\ \A k \in DOMAIN e.h : \E i \in DOMAIN hd : Has(hd[i], e.h[k]), s, "request", hd)
    \* a reading through a URL and one of a file of the same bytes
    [] e.op = "same" -> Res(e.a = e.b, s, "same_" \o e.what, e.b)
    [] e.op = "file" -> Res(TRUE, [s EXCEPT !.fs = Append(@, [n |-> e.name, b |-> e.b])], "file", 0)
    [] e.op = "sel" -> Res(e.r = 0, [s EXCEPT !.sel = L!AddSel(@, e.pat, e.pub, [s |-> L!OPEN, e |-> L!OPEN])], "sel", 0)
    [] e.op = "open" ->
         LET o == OpenedAny(s, e)
         IN Res(TRUE, [s EXCEPT !.rd[e.k] = [c |-> o.c, pos |-> o.c.start, n |-> 0, open |-> o.ok]], "open", 0)
    [] e.op = "next" /\ ~s.rd[e.k].open -> Res(e.r.cls = "err", s, "unopened", "refused")
    [] e.op = "next" ->
         LET d == s.rd[e.k]
             q == Scan(d.c, d.pos, d.n)
             from == Slice(d.c.f, q.pos, IF q.cls = "ok" THEN q.x.len ELSE 0)
         IN IF q.cls # "ok"
            THEN Res(EndOk(q.cls, e.r.cls), [s EXCEPT !.rd[e.k].pos = q.pos, !.rd[e.k].n = q.nrec], "end_" \o q.cls, [cls |-> q.cls, pos |-> q.pos])
            ELSE LET s2 == [s EXCEPT !.rd[e.k].pos = q.pos + q.x.len, !.rd[e.k].n = q.nrec + 1]
                     tag == (IF q.pos > d.pos THEN "skip_" ELSE "") \o "record" \o ToString(q.x.ver)
                     \* decoding a payload of unstated encoding reports the encoding it took it to be
                     x == IF d.c.unpack /\ q.x.enc = -1 /\ q.x.cnt # <<0, 0>> THEN [q.x EXCEPT !.enc = STEIM1] ELSE q.x
                     df == Diff(x, e.r)
                 IN IF e.r.cls # "ok" THEN Res(q.sm # <<>> /\ q.sm.alt /\ e.r.cls = "err", s, tag, [cls |-> "ok", pos |-> q.pos, len |-> q.x.len])
                    ELSE IF e.r.raw # from THEN Res(FALSE, s, tag, [bytes |-> from])
                    ELSE IF e.r.pos # q.pos + q.x.len \/ e.r.nrec # q.nrec + 1 THEN Res(FALSE, s, tag, [pos |-> q.pos + q.x.len, nrec |-> q.nrec + 1])
                    ELSE IF df # {} THEN Res(FALSE, s, tag, [differ |-> df, spec |-> q.x])
                    ELSE Res(~d.c.unpack \/ e.r.data = q.sm.s, s2, tag, q.sm)
    [] e.op = "all" ->
         \* a whole reading, compactly
         LET o == OpenedAny(s, e)
             q == All(o.c, o.c.start, 0, 1000)
             ok == /\ Len(e.r.recs) = Len(q.recs)
                   /\ EndOk(q.cls, e.r.cls)
                   /\ \A i \in DOMAIN q.recs :
                        /\ e.r.recs[i].len = q.recs[i].len /\ e.r.recs[i].ver = q.recs[i].ver /\ e.r.recs[i].num = q.recs[i].num
                        /\ e.r.recs[i].pos = q.recs[i].end
                        /\ e.r.recs[i].same
         IN IF ~o.ok THEN Res(e.r.recs = <<>> /\ e.r.cls = "err", s, "all_unopened", "refused")
            ELSE Res(ok, s, "all_" \o q.cls, q)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = Start([x |-> 0])
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
