------------------------------- MODULE EhTrace -------------------------------
(* Operations on extra headers, directly and through held states.               *)
EXTENDS ExtraHdr, TraceRun
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
\* a: stored documents of the records; p: held states
Start(cfg) == [a |-> [i \in 0..3 |-> <<>>], p |-> [i \in 0..3 |-> Closed]]
TraceInit == TraceInit0 /\ st = Start(0)

RECURSIVE Tree(_)
Tree(n) == [t |-> n.t, v |-> n.v, z |-> n.z, m |-> [k \in {n.k[i] : i \in DOMAIN n.k} |-> Tree(n.c[CHOOSE i \in DOMAIN n.k : n.k[i] = k])]]
Doc(x) == IF x = <<>> THEN <<>> ELSE <<Tree(x[1])>>
Broken(d) == d # <<>> /\ d[1].t = "!"

\* documents reported after the operation
Now(e) == Doc(e.r.x)
\* a change through no state
Direct(s, e, d2) ==
  LET d == s.a[e.rec]
      no == d2 = <<>> \/ Broken(d)
      yes == [s EXCEPT !.a[e.rec] = d2]
  IN IF no \/ MustRefuse(d2[1]) \/ (MayRefuse(d2[1]) /\ e.r.rv < 0) THEN Res(e.r.rv < 0 /\ Now(e) = d, s, IF no THEN "refused_" \o e.op ELSE "too_long_" \o e.op, "refused, headers as before")
     ELSE Res(e.r.rv = 0 /\ Now(e) = d2, yes, "direct_" \o e.op, d2)
\* a change through a state
Held(s, e, d2) ==
  LET q == s.p[e.q]  d == Seen(s.a[e.rec], q)  same == Now(e) = s.a[e.rec]
  IN IF ~q.h /\ Broken(d) THEN Res(e.r.rv < 0 /\ same, s, "broken_" \o e.op, "refused")
     ELSE IF d2 = <<>> THEN Res(e.r.rv < 0 /\ same, [s EXCEPT !.p[e.q] = [h |-> TRUE, doc |-> d, w |-> IF q.w = "yes" THEN "yes" ELSE "may"]], "held_refused_" \o e.op, "refused")
     ELSE Res(e.r.rv = 0 /\ same, [s EXCEPT !.p[e.q] = [h |-> TRUE, doc |-> d2, w |-> "yes"]], "held_" \o e.op, d2)
Changed(s, e, kind, p, x) ==
  IF e.q < 0 THEN (IF Broken(s.a[e.rec]) THEN Direct(s, e, <<>>) ELSE Direct(s, e, Change(s.a[e.rec], kind, p, x)))
  ELSE IF ~s.p[e.q].h /\ Broken(s.a[e.rec]) THEN Held(s, e, <<>>)
  ELSE LET d == Seen(s.a[e.rec], s.p[e.q]) IN Held(s, e, Change(d, kind, p, x))
\* a malformed pointer (not starting with a slash) is refused before anything is looked at
Unrooted(e) == e.p = <<>> \/ e.p[1] # 47
Value(x, e) ==
  CASE e.ty = "n" -> IF x.t = "r" THEN e.r.v = x.v
                     ELSE IF Len(x.v) <= 15 THEN e.r.d = x.v ELSE Len(e.r.d) = Len(x.v) /\ SubSeq(e.r.d, 1, 15) = SubSeq(x.v, 1, 15)
    [] e.ty = "i" -> e.r.v = x.v
    [] e.ty = "b" -> e.r.v = x.v
    [] e.ty = "s" -> e.r.v = Cut(x.v, e.ml)
    [] OTHER -> TRUE
Read(s, e) ==
  LET held == e.q >= 0 /\ s.p[e.q].h
      d == IF held THEN s.p[e.q].doc ELSE s.a[e.rec]
      s2 == IF e.q >= 0 /\ ~held /\ d # <<>> /\ ~Broken(d) /\ ~Unrooted(e) THEN [s EXCEPT !.p[e.q] = [h |-> TRUE, doc |-> d, w |-> "no"]] ELSE s
      p == Pointer(e.p)
      g == IF ~p.ok THEN <<>> ELSE Get(d, p.toks)
      how == IF held THEN "held_" ELSE ""
  IN IF d = <<>> /\ Unrooted(e) THEN Res(e.r.rv = 1 \/ e.r.rv < 0, s, "get_unrooted_nothing", "nothing there")
     ELSE IF Unrooted(e) THEN Res(e.r.rv < 0, s, "get_unrooted", "malformed pointer")
     ELSE IF Broken(d) THEN Res(e.r.rv < 0, s, "get_broken", "not JSON")
     ELSE IF g = <<>> THEN Res(e.r.rv = 1, s2, how \o "get_absent", 1)
     ELSE IF ~Fits0(g[1], e.ty) THEN Res(e.r.rv = 2, s2, how \o "get_othertype", 2)
     ELSE Res(e.r.rv = 0 /\ Value(g[1], e), s2, how \o "get_" \o e.ty \o "_" \o g[1].t, g[1])

Step(s, e) ==
  CASE e.op = "load" -> \* a record read with these headers
         Res(Now(e) = Doc(e.x), [s EXCEPT !.a[e.rec] = Doc(e.x)], IF Broken(Doc(e.x)) THEN "load_broken" ELSE "load", e.x)
    [] e.op = "set" -> IF Unrooted(e) THEN Res(e.r.rv < 0 /\ Now(e) = s.a[e.rec], s, "set_unrooted", "malformed pointer")
                       ELSE Changed(s, e, "set", Pointer(e.p), Tree(e.x))
    [] e.op = "mrg" -> IF e.x = <<>> THEN (IF e.q < 0 THEN Direct(s, e, <<>>) ELSE Held(s, e, <<>>)) ELSE Changed(s, e, "mrg", Pointer(e.p), Tree(e.x[1]))
    [] e.op = "add" -> IF e.p # <<>> /\ Unrooted([p |-> e.p[1]]) THEN Res(e.r.rv < 0 /\ Now(e) = s.a[e.rec], s, "add_unrooted", "malformed pointer")
                       ELSE Changed(s, e, "app", IF e.p = <<>> THEN [ok |-> TRUE, toks |-> Usual(e.k)] ELSE Pointer(e.p[1]), Named(e.k, e.f))
    [] e.op = "get" -> Read(s, e)
    [] e.op = "ser" ->
         LET q == s.p[e.q]  d == q.doc
             stored == e.r.rv = e.r.len /\ e.r.len > 0 /\ e.r.len <= Most /\ Now(e) = d
             after == [s EXCEPT !.a[e.rec] = d]
             kept == Now(e) = s.a[e.rec]
         IN IF ~q.h \/ q.w = "no" THEN Res(e.r.rv = 0 /\ kept, s, "ser_nothing", "nothing to store")
            ELSE IF d = <<>> THEN Res(e.r.rv <= 0 /\ kept, s, "ser_empty", "nothing to store")
            ELSE IF MustRefuse(d[1]) \/ (MayRefuse(d[1]) /\ e.r.rv < 0) THEN Res(e.r.rv < 0 /\ kept, s, "ser_refused", "refused, headers as before")
            ELSE IF q.w = "may" /\ e.r.rv = 0 THEN Res(kept, s, "ser_nothing", "nothing to store")
            ELSE Res(stored, after, "ser", d)
    [] e.op = "free" -> Res(e.r.gone, [s EXCEPT !.p[e.q] = Closed], IF s.p[e.q].w = "yes" THEN "free_pending" ELSE "free", "state gone")
    [] e.op = "rep" ->
         LET d2 == Doc(e.x) IN
         IF e.del THEN Res(e.r.rv = 0 /\ Now(e) = <<>>, [s EXCEPT !.a[e.rec] = <<>>], "rep_remove", "no headers")
         ELSE IF Broken(d2) \/ MustRefuse(d2[1]) \/ (MayRefuse(d2[1]) /\ e.r.rv < 0)
              THEN Res(e.r.rv < 0 /\ Now(e) = s.a[e.rec], s, IF Broken(d2) THEN "rep_broken" ELSE "rep_too_long", "refused, headers as before")
              ELSE Res(e.r.rv = e.r.len /\ Now(e) = d2, [s EXCEPT !.a[e.rec] = d2], "rep", d2)
    [] e.op = "cycle" -> \* packed and read back: the same headers in every record
         Res(e.r.rv > 0 /\ \A i \in DOMAIN e.r.xs : Doc(e.r.xs[i]) = s.a[e.rec], s, "cycle", s.a[e.rec])
    [] e.op = "print" ->
         Res(e.r.rv = 0 /\ (IF s.a[e.rec] = <<>> THEN e.r.out = <<>> ELSE IF e.raw[1] # 123 \/ e.raw[Len(e.raw)] # 125 THEN TRUE ELSE Listed(e.raw, e.r.out, e.n)), s, "print", "the same document")
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
