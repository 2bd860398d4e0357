------------------------------ MODULE RecTrace --------------------------------
(* Detection, parsing and decoding of records, as recorded from the code.      *)
EXTENDS RecCmp, TraceRun

Start(cfg) == [b |-> <<>>]
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]

Step(s, e) ==
  CASE e.op = "buf" -> Res(TRUE, [s EXCEPT !.b = e.b], "buf", 0)
    [] e.op = "detect" ->
         LET d == Detect(Slice(s.b, e.off, e.len))
             ok == IF d.len > MaxRecLen THEN e.r.rv < 0 \/ e.r.rv > MaxRecLen
                   ELSE e.r.rv = d.len /\ (d.ver # 0 => e.r.fv = d.ver)
         IN Res(ok, s, IF d.len < 0 THEN "detect_no" ELSE IF d.len = 0 THEN "detect_more" ELSE "detect_len", d)
    [] e.op = "detects" ->
         \* detection of every prefix length in lens
         LET d == [i \in DOMAIN e.lens |-> Detect(Slice(s.b, e.off, e.lens[i]))]
             ok == \A i \in DOMAIN e.lens : IF d[i].len > MaxRecLen THEN e.r[i].rv < 0 \/ e.r[i].rv > MaxRecLen
                                            ELSE e.r[i].rv = d[i].len /\ (d[i].ver # 0 => e.r[i].fv = d[i].ver)
         IN Res(ok, s, "detect_prefixes", d)
    [] e.op = "parse" ->
         LET b == Slice(s.b, e.off, e.len)
             x == ParseBytes(b, e.crc, e.eof)
             sm == IF x.cls = "ok" /\ e.unpack THEN Samples(x, b) ELSE [cls |-> "ok", type |-> "", s |-> <<>>, alt |-> FALSE]
             cls == IF x.cls # "ok" THEN x.cls ELSE sm.cls
             tag == "parse_" \o cls \o (IF x.ver = 0 THEN "" ELSE ToString(x.ver)) \o (IF e.unpack THEN "_data" ELSE "")
         IN IF cls # "ok"
            THEN Res(ClsOk(cls, e.r.cls) /\ (cls = "need" => (x.need = 40 \/ e.r.need = x.need)), s, tag, x)
            ELSE IF sm.alt /\ ClsOk("err", e.r.cls) THEN Res(TRUE, s, "parse_refused", 0)
            ELSE IF e.r.cls # "ok" THEN Res(FALSE, s, tag, "a record")
            ELSE LET df == Diff(x, e.r)
                 IN IF df # {} THEN Res(FALSE, s, tag, [differ |-> df, spec |-> x])
                    ELSE Res(~e.unpack \/ (e.r.num = Len(sm.s) /\ (sm.s # <<>> => e.r.type = sm.type) /\ e.r.data = sm.s), s, tag, sm)
    [] e.op = "decode" ->
         LET x == DecodePayload(e.enc, e.big, s.b, e.n)
             room == e.osz >= e.n * SizeOf(e.enc)
             no == e.r.rv < 0
             yes == e.r.rv = e.n /\ e.r.data = x.s /\ (e.n > 0 => e.r.type = TypeOf(e.enc))
         IN IF ~room THEN Res(no, s, "decode_noroom", "refused")
            ELSE Res(IF x.ok THEN yes \/ (x.alt /\ no) ELSE no, s, IF x.ok THEN "decode_" \o ToString(e.enc) ELSE "decode_refused", x)
    [] e.op = "encsize" ->
         LET k == Known(e.enc) IN
         Res(IF k THEN e.r.rv = 0 /\ e.r.ss = SizeOf(e.enc) /\ e.r.type = TypeOf(e.enc) ELSE e.r.rv # 0, s, "encsize", <<SizeOf(e.enc), TypeOf(e.enc)>>)
    [] e.op = "crc" ->
         LET w == K!Crc32c(s.b) IN Res(e.r = w, s, "crc", w)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceInit == TraceInit0 /\ st = [b |-> <<>>]
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
