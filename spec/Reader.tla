-------------------------------- MODULE Reader --------------------------------
(* Reading the records of a byte stream: which record comes next, where it     *)
(* starts, and how the input ends.  The buffer the code reads through does not *)
(* appear: whatever its fills, the outcome is that of the bytes themselves,    *)
(* seen through a window of at most M bytes (the largest record supported).    *)
EXTENDS Rec, FiniteSets
L == INSTANCE Select

\* cfg: [f: bytes, m: window, end: inclusive end offset or 0, skip, crc, unpack: BOOLEAN, broken: the input stops short of its end, sel: selections or <<>>, hassel]
Selected(c, x) == ~c.hassel \/ L!Matches(c.sel, x.sid, 0, 0, x.pub)

\* is a read from here over before looking at the bytes?
PastEnd(c, pos) == c.end # 0 /\ c.end + 1 - pos < 40

-----------------------------------------------------------------------------
(* A path with a byte range suffix: PATH@START-END, START and END optional.    *)
Dig(c) == c \in 48..57
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE Val(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
PathRange(p) ==
  LET whole == [path |-> p, hass |-> FALSE, start |-> 0, hase |-> FALSE, end |-> 0]
      ats == {i \in DOMAIN p : p[i] = 64}
  IN IF ats = {} THEN whole
     ELSE LET at == CHOOSE i \in ats : \A j \in ats : j <= i
              t == SubSeq(p, at + 1, Len(p))
              ds == {i \in DOMAIN t : t[i] = 45}
              d == IF ds = {} THEN Len(t) + 1 ELSE CHOOSE i \in ds : \A j \in ds : i <= j
              a == SubSeq(t, 1, d - 1)
              b == SubSeq(t, d + 1, Len(t))
          IN IF Cardinality(ds) > 1 \/ (\E i \in DOMAIN t : t[i] # 45 /\ ~Dig(t[i])) \/ Len(a) > 20 \/ Len(b) > 20 THEN whole
             ELSE [path |-> SubSeq(p, 1, at - 1), hass |-> a # <<>>, start |-> Val(a), hase |-> b # <<>>, end |-> Val(b)]

-----------------------------------------------------------------------------
\* Reading through a URL: what the server has at a path [b: bytes, up: it answers, status: of the answer,
\* rg: what it does about byte ranges, got: bytes of the answer sent before it stops, or -1 if complete].
\* The answer to a request for bytes a..e (e = 0: to the end), as the input it makes: all the bytes up to
\* the end of the range, of which those from the start on are seen; its first byte; its last byte
\* if a range was answered, 0 otherwise.
Served(u, a, e) ==
  LET ranged == a > 0 \/ e > 0
      from == IF u.rg = "align" THEN a - (a % 64) ELSE a
      last == IF e > 0 /\ e < Len(u.b) THEN e ELSE Len(u.b) - 1
      no == [ok |-> FALSE, f |-> <<>>, start |-> 0, end |-> 0, broken |-> FALSE]
      cut(x, s) == IF u.got < 0 THEN x ELSE Slice(x, 0, IF s + u.got < Len(x) THEN s + u.got ELSE Len(x))
  \* (nothing at all of a broken answer: it cannot be opened)
  IN IF ~u.up \/ u.status >= 400 \/ u.got = 0 THEN no
     ELSE IF ~ranged THEN [ok |-> TRUE, f |-> cut(u.b, 0), start |-> 0, end |-> 0, broken |-> u.got >= 0]
     ELSE IF u.rg = "ignore" THEN [no EXCEPT !.ok = a = 0, !.f = cut(u.b, 0), !.end = e, !.broken = u.got >= 0]
     ELSE IF from >= Len(u.b) \/ last < from THEN no
     ELSE [ok |-> TRUE, f |-> cut(Slice(u.b, 0, last + 1), from), start |-> from, end |-> last, broken |-> u.got >= 0]

-----------------------------------------------------------------------------
NoRec == [cls |-> "ok", ver |-> 0]
RECURSIVE Scan(_, _, _)
\* [cls, pos (where the record starts or the input stopped), nrec, x (the record), sm (its samples)]
Scan(c, pos, n) ==
  LET out(cls) == [cls |-> cls, pos |-> pos, nrec |-> n, x |-> NoRec, sm |-> <<>>]
      rest == Len(c.f) - pos
      \* the bytes ran out: the end of the input, unless more were to come
      short(cls) == out(IF c.broken THEN "err" ELSE cls)
  IN IF PastEnd(c, pos) THEN out(IF rest < 40 /\ n = 0 THEN "ends" ELSE "eof")
     ELSE IF rest < 40 THEN short(IF n = 0 THEN "notseed" ELSE "eof")
     ELSE LET w == Slice(c.f, pos, IF rest < c.m THEN rest ELSE c.m)
              x == ParseBytes(w, c.crc, rest < c.m /\ ~c.broken)
              early == c.unpack /\ ~c.hassel
              sm == IF x.cls = "ok" /\ c.unpack THEN Samples(x, w) ELSE [cls |-> "ok", type |-> "", s |-> <<>>, alt |-> FALSE]
              cls == IF x.cls = "ok" /\ x.len > c.m THEN "range"
                     ELSE IF x.cls = "need" /\ Len(w) + x.need > c.m THEN "range"
                     ELSE IF x.cls = "ok" /\ early THEN sm.cls ELSE x.cls
          IN IF cls = "ok"
             THEN IF ~Selected(c, x) THEN Scan(c, pos + x.len, n + 1)
                  ELSE IF c.unpack /\ sm.cls # "ok" THEN out("err")
                  ELSE [cls |-> "ok", pos |-> pos, nrec |-> n, x |-> x, sm |-> sm]
             ELSE IF cls = "need" THEN short("eof")
             ELSE IF c.skip THEN Scan(c, pos + 1, n)
             ELSE out(cls)
=============================================================================
