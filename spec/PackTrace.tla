------------------------------- MODULE PackTrace ------------------------------
(* Packing, repacking and converting, as recorded from the code.               *)
EXTENDS Pack, TraceRun

Start(cfg) == [b |-> <<>>]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
ToEx(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Req(m) == [m EXCEPT !.ex = ToEx(@)]

\* sizes of the blockettes a version 2 record needs for the headers of the source
BlksOf(x) == IF x.ver = 3 THEN 0 ELSE FoldLeft(LAMBDA a, t : a + (IF t \in {200, 201, 300, 310, 320, 390, 395, 500} THEN BlktLen(<<>>, 0, t, TRUE, 0) ELSE 0), 0, x.types)

\* the request a parsed record stands for: e.over: fields changed before packing; e.rate, e.extra as the parse reported them
FromRecord(x, sm, e) ==
  [sid |-> x.sid, ver |-> e.ver, flags |-> x.flags, pub |-> x.pub, enc |-> e.enc, reclen |-> e.reclen, extra |-> e.extra, exok |-> BlkOk(e.blk),
   ex |-> IF x.ver = 2 THEN x.ex ELSE ToEx(e.ex) \cup Blk2(e.blk, e.model), rate |-> e.rate, t |-> x.t, type |-> sm.type, s |-> sm.s, dq |-> 0]

PayloadOf(x, b) == LET p == Slice(b, x.doff, x.len - x.doff)
                       k == EncBytes(x.enc)
                       q == IF k > 0 /\ x.enc \in {TEXT, INT16, INT32, FLOAT32, FLOAT64} /\ Fits(x.cnt) /\ IntW(x.cnt) * k < Len(p) THEN SubSeq(p, 1, IntW(x.cnt) * k) ELSE p
                   IN IF IsSteim(x.enc) /\ Len(q) % 64 = 0 THEN DropZero(q) ELSE q
Swapped(p, k) == IF k <= 1 THEN p ELSE [i \in DOMAIN p |-> LET g == (i - 1) \div k IN IF (g + 1) * k > Len(p) THEN p[i] ELSE p[g * k + (k - ((i - 1) % k))]]
\* repacking into a version 3 record
Repacked(x, b, e) ==
  LET sid == IF "sid" \in DOMAIN e THEN e.sid ELSE x.sid
      t == IF "t" \in DOMAIN e THEN e.t ELSE x.t
      pub == IF "pub" \in DOMAIN e THEN e.pub ELSE x.pub
      flags == IF "flags" \in DOMAIN e THEN e.flags ELSE x.flags
      p == IF x.doff = 0 THEN <<>> ELSE PayloadOf(x, b)
      enc == IF x.enc = -1 THEN STEIM1 ELSE x.enc
      pay == IF x.ver = 2 /\ x.big /\ ~IsSteim(enc) THEN Swapped(p, EncBytes(enc)) ELSE p
      len == 40 + Len(sid) + Len(e.extra) + Len(pay)
      no == len > e.sz \/ (x.ver = 2 /\ x.cnt # <<0, 0>> /\ ((~x.big /\ IsSteim(enc)) \/ (x.big /\ ~Known(enc))))
  IN [no |-> no, len |-> len, sid |-> sid, t |-> t, pub |-> pub, flags |-> flags, pay |-> pay, enc |-> enc]
RepackDiff(x, w, e) ==
  LET y == ParseBytes(e.r.b, TRUE, FALSE) IN
  IF y.cls # "ok" THEN {"parse " \o y.cls}
  ELSE (IF y.ver = 3 /\ y.len = w.len /\ e.r.rv = w.len /\ Len(e.r.b) = w.len THEN {} ELSE {"length"}) \cup (IF y.sid = w.sid THEN {} ELSE {"sid"})
       \cup (IF y.t = w.t THEN {} ELSE {"starttime"}) \cup (IF y.pub = w.pub THEN {} ELSE {"pubversion"}) \cup (IF y.flags = w.flags THEN {} ELSE {"flags"})
       \cup (IF y.enc = w.enc THEN {} ELSE {"encoding"}) \cup (IF y.cnt = x.cnt THEN {} ELSE {"samplecnt"}) \cup (IF y.rate.v = e.rate.d THEN {} ELSE {"rate"})
       \cup (IF y.extra = e.extra THEN {} ELSE {"extra"}) \cup (IF e.ex /\ ~ExEq(x.ex, e.r.ex) THEN {"blockettes"} ELSE {})
       \cup (IF Slice(e.r.b, y.doff, y.len - y.doff) = w.pay THEN {} ELSE {"payload"})

\* the counts, payload length and CRC of a version 3 header are for whoever adds the payload
NoPayload(b) == [i \in DOMAIN b |-> IF i \in 25..32 \cup 37..40 THEN 0 ELSE b[i]]
Cls(d) == IF d = {} THEN TRUE ELSE FALSE
Step(s, e) ==
  CASE e.op = "buf" -> Res(TRUE, [s EXCEPT !.b = e.b], "buf", 0)
    [] e.op = "pack" ->
         LET m == Req(e.m)
             d == Packed(m, e.flush, e.r)
         IN Res(d = {}, s, "pack" \o ToString(m.ver) \o (IF e.r.rv < 0 THEN "_refused" ELSE IF e.r.recs = <<>> THEN "_none" ELSE IF Len(e.r.recs) = 1 THEN "_one" ELSE "_many")
                           \o (IF m.s = <<>> THEN "_empty" ELSE "_enc" \o ToString(EncOf(m))), d)
    [] e.op = "convert" ->
         LET x == ParseBytes(s.b, FALSE, FALSE)
             sm == Samples(x, s.b)
             m == FromRecord(x, sm, e)
             d == Packed(m, TRUE, e.r)
             \* room for the blockettes of the source
             need == 56 + 8 + 12 + BlksOf(x) + BlkRoom(e.blk) + Space(EncOf(m)) + 64
             tight == e.ver = 2 /\ need > LenOf(m)
         IN IF tight /\ e.r.rv < 0 /\ e.r.recs = <<>> THEN Res(TRUE, s, "convert_refused", 0)
            ELSE Res(d = {} /\ (x.ver = 2 => \A i \in DOMAIN e.r.ex : ExEq(x.ex, e.r.ex[i])), s,
                     "convert" \o ToString(x.ver) \o ToString(e.ver) \o (IF e.r.rv < 0 THEN "_refused" ELSE ""), d)
    [] e.op = "repack" ->
         LET x == ParseBytes(s.b, FALSE, FALSE)
             w == Repacked(x, s.b, e)
             d == IF w.no THEN IF e.r.rv < 0 THEN {} ELSE {"accepted"} ELSE IF e.r.rv < 0 THEN {"refused"} ELSE RepackDiff(x, w, e)
         IN Res(d = {}, s, IF w.no THEN "repack_refused" ELSE "repack" \o ToString(x.ver), d)
    [] e.op = "header" ->
         \* only the header of request m into a buffer of sz bytes
         LET m == Req(e.m)
             n == 40 + Len(m.sid) + Len(m.extra)
             ok == IF e.kind = 3 THEN IF n > e.sz THEN e.r.rv < 0
                                      ELSE e.r.rv = n /\ LET y == Parse3(NoPayload(e.r.b), FALSE) IN y.cls = "ok" /\ Head3Diff(m, y, 0, 0, n, EncOf(m)) = {}
                   ELSE IF e.r.rv >= 0
                        THEN /\ ~HeadRefused([m EXCEPT !.ver = 2]) /\ e.r.rv <= e.sz
                             /\ LET y == ParseBytes(e.r.b \o [i \in 1..(LenOf(m) - Len(e.r.b)) |-> 0], FALSE, FALSE) IN
                                y.cls = "ok" /\ y.hend = e.r.rv /\ Head2Diff([m EXCEPT !.ver = 2], y, 0, 0, EncOf(m)) = {}
                        ELSE HeadRefused([m EXCEPT !.ver = 2]) \/ e.sz < 76
         IN Res(ok, s, "header" \o ToString(e.kind) \o (IF e.r.rv < 0 THEN "_refused" ELSE ""), n)
    [] e.op = "dup" ->
         LET x == ParseBytes(s.b, FALSE, FALSE)
             sm == Samples(x, s.b)
             d == Diff(x, e.r)
         IN Res(d = {} /\ (e.dd => e.r.num = Len(sm.s) /\ e.r.data = sm.s) /\ (~e.dd => e.r.num = 0), s, "dup", d)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = [b |-> <<>>]
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
