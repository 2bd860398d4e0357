--------------------------------- MODULE Pack ---------------------------------
(* Packing a buffer of samples and a header into records, and converting       *)
(* records.  A request m: sid, ver (2 or 3), flags, pub, enc and reclen (-1:    *)
(* the default), extra (bytes of the extra headers), ex (their values that a   *)
(* version 2 record may carry), rate [d, q, f], t, type, s (samples).          *)
EXTENDS RecCmp, Times, Steim

EncOf(m) == IF m.enc = -1 THEN STEIM2 ELSE m.enc
LenOf(m) == IF m.reclen = -1 THEN 4096 ELSE m.reclen
NeedType(enc) == CASE enc = TEXT -> "t" [] enc \in {INT16, INT32, STEIM1, STEIM2} -> "i" [] enc = FLOAT32 -> "f" [] enc = FLOAT64 -> "d" [] OTHER -> "none"
Packable(enc) == enc \in {TEXT, INT16, INT32, FLOAT32, FLOAT64, STEIM1, STEIM2}
IsSteim(enc) == enc \in {STEIM1, STEIM2}
SV(enc) == IF enc = STEIM1 THEN 1 ELSE 2
TypeBytes(ty) == CASE ty = "t" -> 1 [] ty = "d" -> 8 [] OTHER -> 4

\* seconds removed for leap seconds: the list that comes with the library, days since 1970
LeapDays == {730, 912, 1096, 1461, 1826, 2191, 2557, 2922, 3287, 3652, 4199, 4564, 4929, 5660, 6574, 7305, 7670, 8217, 8582, 8947, 9496, 10043, 10592, 13149, 14245, 15522, 16617, 17167}
Leaps == {<<d, 0, 0>> : d \in LeapDays}
Starts(m, k) == SampleTimes(m.t, k, m.rate.q, Leaps)

----------------------------------------------------------------------------
(* version 2: the codes of an identifier, header values carried, times, rates *)
SplitAt(s, c) == \* pieces of s between the separators c
  FoldLeft(LAMBDA a, x : IF x = c THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], <<<<>>>>, s)
SidFits2(sid) ==
  /\ IsPrefixAt(sid, 0, FDSN)
  /\ LET p == SplitAt(SubSeq(sid, 6, Len(sid)), 95) IN
     /\ Len(p) = 6 /\ Len(p[1]) <= 2 /\ Len(p[2]) <= 5 /\ Len(p[3]) <= 2
     /\ Len(p[4]) = 1 /\ Len(p[5]) = 1 /\ Len(p[6]) = 1
EventFlags == {"/FDSN/Event/Begin", "/FDSN/Event/End", "/FDSN/Event/InProgress"}
DataFlags == {"/FDSN/Flags/" \o f : f \in {"StationVolumeParityError", "LongRecordRead", "ShortRecordRead", "StartOfTimeSeries", "EndOfTimeSeries",
              "AmplifierSaturation", "DigitizerClipping", "Spikes", "Glitches", "MissingData", "TelemetrySyncError", "FilterCharging"}}
QualityPath == "/FDSN/Time/Quality"
LeapPath == "/FDSN/Time/LeapSecond"
CorrPath == "/FDSN/Time/Correction"
\* values as a version 2 record reads back; blockettes (everything else a caller lists in ex) as they are
Carried(p) == CASE p[1] \in EventFlags \cup DataFlags -> p[2].k = "b" /\ p[2].v
                [] p[1] = CorrPath -> p[2].v # <<0, 0>>
                [] OTHER -> TRUE
\* a clock correction of an exception that the source does not state is written as none
Silent(p) == p[2].k = "f" /\ p[2].v = <<0, 0>>
ExDiff(a, b) ==
  {"missing " \o p[1] : p \in {p \in a : ~\E q \in b : q[1] = p[1]}} \cup {"more " \o p[1] : p \in {p \in b : ~Silent(p) /\ ~\E q \in a : q[1] = p[1]}}
  \cup {"other " \o p[1] : p \in {p \in a : (\E q \in b : q[1] = p[1]) /\ ~\E q \in b : q[1] = p[1] /\ q[2].k = p[2].k /\ q[2].v = p[2].v}}
\* expected values of a record with or without a blockette 1001
Ex2(m, b1001) ==
  LET c == {p \in m.ex : Carried(p)} IN
  c \cup If(b1001 /\ ~\E p \in c : p[1] = QualityPath, {P(QualityPath, NumV(0))})
TruncTo(t, unit) == <<t[1], t[2], t[3] - (t[3] % unit)>>

\* Detections, calibrations and time exceptions of the extra headers become blockettes, one each (a calibration's end is one of its own).
\* blk: sequence of [k: "det", "cal" or "exc", f: sequence of <<name, value>>]; the result is what the record reads back as.
HasF(f, n) == \E i \in DOMAIN f : f[i][1] = n
ValF(f, n) == f[CHOOSE i \in DOMAIN f : f[i][1] = n][2].v
\* a field that should be a time and is not
NoTime(f, n) == HasF(f, n) /\ f[CHOOSE i \in DOMAIN f : f[i][1] = n][2].k = "x"
Upper(t) == [i \in DOMAIN t |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
Begins(t, w) == Len(t) >= Len(w) /\ Upper(SubSeq(t, 1, Len(w))) = w
SaysF(f, n, w) == HasF(f, n) /\ Begins(ValF(f, n), w)
SetF(f, n) == HasF(f, n) /\ ValF(f, n)
FltF(p, f, n) == IF HasF(f, n) THEN FltIf(p \o "/" \o n, ValF(f, n)) ELSE {}
TickF(p, f, n) == IF HasF(f, n) THEN UTickIf(p \o "/" \o n, ValF(f, n)) ELSE {}
TextF(p, f, n, k) == IF HasF(f, n) THEN StrIf(p \o "/" \o n, SubSeq(ValF(f, n), 1, Min2(k, Len(ValF(f, n))))) ELSE {}
TimeF(p, f, n, unit) == IF HasF(f, n) /\ ~NoTime(f, n) THEN {P(p \o "/" \o n, Str(C!IsoZ(TruncTo(ValF(f, n), unit))))} ELSE {}
BoolF(p, f, n) == IF SetF(f, n) THEN {P(p \o "/" \o n, True)} ELSE {}
NumF(p, f, n) == {P(p \o "/" \o n, NumV(IF HasF(f, n) THEN ValF(f, n) ELSE 0))}
RefF(p, f) == IF HasF(f, "ReferenceAmplitude") /\ ValF(f, "ReferenceAmplitude") # 0 THEN NumF(p, f, "ReferenceAmplitude") ELSE {}
RangeF(p, f, w) == IF SaysF(f, "AmplitudeRange", w) THEN {P(p \o "/AmplitudeRange", Str(w))} ELSE {}

Det2(f, p) ==
  LET mur == SaysF(f, "Type", MURDOCK)
      med == IF HasF(f, "MEDSNR") THEN ValF(f, "MEDSNR") ELSE <<>>
      M(i) == IF i <= Len(med) THEN med[i] ELSE 0
  IN {P(p \o "/Type", Str(IF mur THEN MURDOCK ELSE GENERIC))}
     \cup FltF(p, f, "SignalAmplitude") \cup FltF(p, f, "SignalPeriod") \cup FltF(p, f, "BackgroundEstimate")
     \cup (IF mur \/ HasF(f, "Wave") THEN {P(p \o "/Wave", Str(IF SaysF(f, "Wave", DILAT) THEN DILAT ELSE COMPR))} ELSE {})
     \cup (IF mur THEN {} ELSE {P(p \o "/Units", Str(IF HasF(f, "Units") /\ ~SaysF(f, "Units", SubSeq(COUNTS, 1, 5)) THEN DECONV ELSE COUNTS))})
     \cup TimeF(p, f, "OnsetTime", 100000) \cup TextF(p, f, "Detector", 24)
     \cup (IF mur THEN NumF(p, f, "MEDLookback") \cup NumF(p, f, "MEDPickAlgorithm")
                       \cup (IF \E i \in 1..6 : M(i) # 0 THEN {P(p \o "/MEDSNR/" \o ToString(i - 1), NumV(M(i))) : i \in 1..6} ELSE {})
           ELSE {})

CalType(f) == IF ~HasF(f, "Type") THEN 0
              ELSE CASE SaysF(f, "Type", STEP) -> 300 [] SaysF(f, "Type", SINE) -> 310 [] SaysF(f, "Type", PSEUDO) -> 320 [] SaysF(f, "Type", GENERIC) -> 390 [] OTHER -> 0
CalOk(f) == CalType(f) # 0 \/ (HasF(f, "EndTime") /\ (~HasF(f, "Type") \/ SaysF(f, "Type", ABORT)))
Cal2(f, p, t) ==
  LET Coup == TextF(p, f, "Coupling", 12) \cup TextF(p, f, "Rolloff", 12)
  IN {P(p \o "/Type", Str(CASE t = 300 -> STEP [] t = 310 -> SINE [] t = 320 -> PSEUDO [] OTHER -> GENERIC)),
      P(p \o "/Trigger", Str(IF SaysF(f, "Trigger", AUTO) THEN AUTO ELSE MANUAL))}
     \cup TimeF(p, f, "BeginTime", 100000) \cup BoolF(p, f, "Continued") \cup TickF(p, f, "Duration") \cup FltF(p, f, "Amplitude") \cup TextF(p, f, "InputChannel", 3)
     \cup (CASE t = 300 -> NumF(p, f, "Steps") \cup BoolF(p, f, "StepFirstPulsePositive") \cup BoolF(p, f, "StepAlternateSign") \cup TickF(p, f, "StepBetween") \cup RefF(p, f) \cup Coup
             [] t = 310 -> RangeF(p, f, PTP) \cup RangeF(p, f, ZTP) \cup RangeF(p, f, RMS) \cup FltF(p, f, "SinePeriod") \cup RefF(p, f) \cup Coup
             [] t = 320 -> RangeF(p, f, RANDOM) \cup RefF(p, f) \cup Coup \cup TextF(p, f, "Noise", 8)
             [] OTHER -> {})
End2(f, p) == {P(p \o "/Type", Str(ABORT))} \cup TimeF(p, f, "EndTime", 100000)
Exc2(f, p) == TimeF(p, f, "Time", 1000) \cup {P(p \o "/VCOCorrection", Flt(IF HasF(f, "VCOCorrection") THEN ValF(f, "VCOCorrection") ELSE <<0, 0>>))} \cup NumF(p, f, "ReceptionQuality")
              \cup (IF HasF(f, "Count") /\ ValF(f, "Count") # 0 THEN NumF(p, f, "Count") ELSE {}) \cup TextF(p, f, "Type", 16) \cup TextF(p, f, "ClockStatus", 128)
Blk2(blk, model) ==
  LET z == FoldLeft(LAMBDA a, x :
             CASE x.k = "det" -> [a EXCEPT !.det = @ + 1, !.ex = @ \cup Det2(x.f, "/FDSN/Event/Detection/" \o ToString(a.det))]
               [] x.k = "exc" -> [a EXCEPT !.exc = @ + 1, !.ex = @ \cup Exc2(x.f, "/FDSN/Time/Exception/" \o ToString(a.exc))]
               [] OTHER -> LET t == CalType(x.f)
                               n == IF t = 0 THEN 0 ELSE 1
                               one == IF t = 0 THEN {} ELSE Cal2(x.f, "/FDSN/Calibration/Sequence/" \o ToString(a.cal), t)
                           IN IF HasF(x.f, "EndTime")
                              THEN [a EXCEPT !.cal = @ + n + 1, !.ex = @ \cup one \cup End2(x.f, "/FDSN/Calibration/Sequence/" \o ToString(a.cal + n))]
                              ELSE [a EXCEPT !.cal = @ + n, !.ex = @ \cup one],
             [det |-> 0, cal |-> 0, exc |-> 0, ex |-> {}], blk)
  IN z.ex \cup (IF z.exc > 0 THEN {P("/FDSN/Clock/Model", Str(SubSeq(model, 1, Min2(32, Len(model)))))} ELSE {})
BlkOk(blk) == \A i \in DOMAIN blk :
  LET f == blk[i].f IN
  CASE blk[i].k = "det" -> ~NoTime(f, "OnsetTime")
    [] blk[i].k = "exc" -> ~NoTime(f, "Time")
    [] OTHER -> CalOk(f) /\ ~(CalType(f) # 0 /\ NoTime(f, "BeginTime")) /\ ~NoTime(f, "EndTime")
BlkRoom(blk) == FoldLeft(LAMBDA a, x : a + (CASE x.k = "det" -> 60 [] x.k = "exc" -> 200 [] OTHER -> 80), 0, blk)
Times2(m, k, b1001) == {TruncTo(t, IF b1001 THEN 1000 ELSE 100000) : t \in Starts(m, k)}
\* decimals of a rate to six places
Dec6(q) == LET x == DigitsOf(Abs(q[1]) % q[2], q[2], 6) IN <<Abs(q[1]) \div q[2], x[1]>>
CloseRates(a, b) == LET x == Dec6(a)
                        y == Dec6(b)
                        d == x[1] - y[1]
                    IN Abs(d) <= 1 /\ Abs(d * 1000000 + x[2] - y[2]) <= 101
Rate2Ok(m, r) == CASE r.k = "q" -> CloseRates(m.rate.q, r.v)
                   [] r.k = "f" -> r.v = m.rate.f
\* can the rate be written at all
Rate2Can(q) == IF q[1] = 0 THEN TRUE
               ELSE IF q[2] = 1 THEN q[1] <= 32767 * 32767
               ELSE IF q[1] = 1 THEN q[2] <= 32767 * 32767
               ELSE q[1] \div q[2] < 32767 /\ q[2] \div q[1] < 32767
WholeRate(q) == q[2] = 1 /\ q[1] <= 32767

----------------------------------------------------------------------------
(* Refusals of the header *)
HeadRefused(m) ==
  \/ m.reclen # -1 /\ m.reclen \notin 40..MaxRecLen
  \/ IF m.ver = 3 THEN Len(m.sid) + 40 + Len(m.extra) > LenOf(m)
     ELSE \/ LenOf(m) < 128 \/ LenOf(m) > 131072 \/ ~IsPow2(LenOf(m))
          \/ ~SidFits2(m.sid) \/ ~Rate2Can(m.rate.q) \/ ~m.exok
Space(enc) == CASE enc = TEXT -> 1 [] enc = INT16 -> 2 [] enc = FLOAT64 -> 8 [] IsSteim(enc) -> 64 [] OTHER -> 4

\* payload offset of a version 2 record whose headers end at h
Off2(h, enc) == IF IsSteim(enc) THEN IF h <= 64 THEN 64 ELSE 64 * ((h + 63) \div 64) ELSE h
\* samples left over without flushing
MaxLeft(enc, room, ty) == IF IsSteim(enc) THEN (room \div 64) * MaxPerFrame(SV(enc)) ELSE room \div TypeBytes(ty)

\* [ok, n, bytes]: samples of s that go into a payload of the room, and its length
Fits16(w) == InBits(w, 16)
Payload(enc, s, room) ==
  IF IsSteim(enc) THEN LET f == Fill(SV(enc), s, WordsIn(room \div 64))
                       IN [ok |-> ~f.bad, n |-> f.n, bytes |-> 64 * FramesFor(f.w)]
  ELSE LET k == EncBytes(enc)
           n == Min2(Len(s), room \div k)
       IN [ok |-> enc = INT16 => \A i \in 1..n : Fits16(s[i]), n |-> n, bytes |-> k * n]

\* one record: its header against the request, for samples k+1 .. k+n
Head3Diff(m, x, k, n, len, enc) ==
  (IF x.ver = 3 THEN {} ELSE {"version"}) \cup (IF x.len = len THEN {} ELSE {"length"}) \cup (IF x.sid = m.sid THEN {} ELSE {"sid"})
  \cup (IF x.flags = m.flags THEN {} ELSE {"flags"}) \cup (IF x.pub = m.pub THEN {} ELSE {"pubversion"}) \cup (IF x.enc = enc THEN {} ELSE {"encoding"})
  \cup (IF x.cnt = Word(n) THEN {} ELSE {"samplecnt"}) \cup (IF x.t \in Starts(m, k) THEN {} ELSE {"starttime"}) \cup (IF x.rate.v = m.rate.d THEN {} ELSE {"rate"})
  \cup (IF x.extra = m.extra THEN {} ELSE {"extra"})
Pub2(p) == IF p \in 1..4 THEN p ELSE 2
Head2Diff(m, x, k, n, enc) ==
  (IF x.ver = 2 THEN {} ELSE {"version"}) \cup (IF x.len = LenOf(m) THEN {} ELSE {"length"}) \cup (IF x.sid = m.sid THEN {} ELSE {"sid"})
  \cup (IF x.flags = m.flags % 8 THEN {} ELSE {"flags"}) \cup (IF x.pub = (IF m.dq # 0 THEN m.dq ELSE Pub2(m.pub)) THEN {} ELSE {"pubversion"})
  \cup (IF x.enc = enc THEN {} ELSE {"encoding"}) \cup (IF x.cnt = Word(n) THEN {} ELSE {"samplecnt"})
  \cup (IF x.t \in Times2(m, k, x.b1001) THEN {} ELSE {"starttime"}) \cup (IF Rate2Ok(m, x.rate) THEN {} ELSE {"rate"})
  \cup ExDiff(Ex2(m, x.b1001), x.ex)
  \cup (IF \E t \in Starts(m, 0) : t[3] % 100000 >= 1000 /\ ~x.b1001 THEN {"microseconds"} ELSE {})
Zero(b, from) == \A i \in (from + 1)..Len(b) : b[i] = 0
\* what a version 2 record says about itself besides
Form2(b, x, pay) ==
  (IF SubSeq(b, 1, 6) = <<48, 48, 48, 48, 48, 48>> /\ b[8] = 32 THEN {} ELSE {"sequence"})
  \cup (IF At(b, 39) = x.nblk /\ x.types[1] = 1000 THEN {} ELSE {"blockettes"})
  \cup (IF \A i \in (x.hend + 1)..(IF x.doff = 0 THEN Len(b) ELSE x.doff) : b[i] = 0 THEN {} ELSE {"gap"})
  \cup (IF x.doff = 0 \/ Zero(b, x.doff + pay) THEN {} ELSE {"padding"})

\* what is wrong with record b that should hold the samples from k on: [bad: set, n: samples taken, refuse]
Record(m, b, k) ==
  LET x == ParseBytes(b, TRUE, FALSE)
      enc == EncOf(m)
      rest == SubSeq(m.s, k + 1, Len(m.s))
      off == IF m.ver = 3 THEN 40 + Len(m.sid) + Len(m.extra) ELSE Off2(x.hend, enc)
      pay == Payload(enc, rest, LenOf(m) - off)
      sm == Samples(x, b)
      bad == IF x.cls # "ok" THEN {"parse " \o x.cls}
             ELSE IF ~pay.ok THEN {"should refuse"}
             ELSE (IF m.ver = 3 THEN Head3Diff(m, x, k, pay.n, off + pay.bytes, enc) ELSE Head2Diff(m, x, k, pay.n, enc) \cup Form2(b, x, pay.bytes))
                  \cup (IF x.len = Len(b) THEN {} ELSE {"size"}) \cup (IF x.doff = off THEN {} ELSE {"offset"})
                  \cup (IF sm.cls = "ok" /\ sm.s = SubSeq(rest, 1, pay.n) THEN {} ELSE {"samples"})
                  \cup (IF IsSteim(enc) /\ sm.cls = "ok" /\ pay.n > 0
                        THEN (IF W32(b, off + 4, TRUE) = rest[1] /\ W32(b, off + 8, TRUE) = rest[pay.n] THEN {} ELSE {"integration constants"})
                             \cup (IF \A f \in 0..(pay.bytes \div 64 - 1) : CleanFrame(Slice(b, off, pay.bytes), f) THEN {} ELSE {"unused words"})
                        ELSE {})
  IN [bad |-> bad, n |-> IF bad = {} THEN pay.n ELSE 0, x |-> x]

\* records one after another; the result of the whole request
Sequel(m, recs) ==
  FoldLeft(LAMBDA a, b : IF a.bad # {} THEN a
                         ELSE IF a.k >= Len(m.s) THEN [a EXCEPT !.bad = {"record too many"}]
                         ELSE LET r == Record(m, b, a.k) IN [bad |-> r.bad, k |-> a.k + r.n, at |-> a.at + 1, hend |-> IF r.bad = {} /\ m.ver = 2 THEN r.x.hend ELSE 0],
           [bad |-> {}, k |-> 0, at |-> 0, hend |-> 0], recs)
Empty(m, b) ==
  LET x == ParseBytes(b, TRUE, FALSE)
      z == [m EXCEPT !.s = <<>>]
  IN IF x.cls # "ok" THEN {"parse " \o x.cls}
     ELSE (IF m.ver = 3 THEN Head3Diff(z, x, 0, 0, 40 + Len(m.sid) + Len(m.extra), TEXT) ELSE Head2Diff(z, x, 0, 0, TEXT) \cup Form2(b, x, 0))
          \cup (IF x.len = Len(b) THEN {} ELSE {"size"}) \cup (IF m.ver = 3 \/ x.doff = 0 THEN {} ELSE {"offset"})

\* why a non-empty request would be refused with k samples done: "no", "yes" or "maybe" (headers may leave room or not)
StopsAt(m, k, hend) ==
  LET enc == EncOf(m)
      roomOf(h) == LenOf(m) - (IF m.ver = 3 THEN 40 + Len(m.sid) + Len(m.extra) ELSE Off2(h, enc))
      h0 == IF hend > 0 THEN hend ELSE 56 + (IF \E p \in m.ex : p[1] = QualityPath THEN 8 ELSE IF m.t[3] % 100000 >= 1000 THEN 8 ELSE 0)
      room == roomOf(h0)
      rest == SubSeq(m.s, k + 1, Len(m.s))
      tight == hend = 0 /\ m.ver = 2 /\ ~WholeRate(m.rate.q) /\ roomOf(h0 + 12) < Space(enc)
  IN IF ~Packable(enc) \/ NeedType(enc) # m.type \/ room < Space(enc) THEN "yes"
     ELSE LET p == Payload(enc, rest, room) IN
          IF ~p.ok \/ (m.ver = 2 /\ p.n > 65535) THEN "yes"
          ELSE IF tight THEN "maybe" ELSE "no"
Reached(m, k, flush, hend) == \* the loop goes on with k samples done
  LET enc == EncOf(m)
      h == IF hend > 0 THEN hend ELSE 56
      room == LenOf(m) - (IF m.ver = 3 THEN 40 + Len(m.sid) + Len(m.extra) ELSE Off2(h, enc))
  IN k < Len(m.s) /\ (flush \/ Len(m.s) - k > MaxLeft(enc, room, m.type))

Packed(m, flush, r) ==
  IF HeadRefused(m) THEN (IF r.rv < 0 /\ r.recs = <<>> THEN {} ELSE {"header accepted"})
  ELSE IF m.s = <<>> THEN
    IF r.rv # 1 \/ Len(r.recs) # 1 \/ r.packed # 0 THEN {"one empty record"} ELSE Empty(m, r.recs[1])
  ELSE IF TypeOf(EncOf(m)) = "" /\ ~Packable(EncOf(m)) THEN (IF r.recs = <<>> /\ (flush => r.rv < 0) THEN {} ELSE {"unknown encoding"})
  ELSE LET q == Sequel(m, r.recs)
           more == Reached(m, q.k, flush, q.hend)
           stop == StopsAt(m, q.k, q.hend)
       IN IF q.bad # {} THEN {<<q.at, q.bad>>}
          ELSE IF r.rv < 0
               THEN (IF stop \in {"yes", "maybe"} /\ (more \/ m.ver = 2) /\ q.k < Len(m.s) THEN {} ELSE {"refused"})
                    \cup (IF r.packed = q.k \/ (q.k = 0 /\ r.packed = -777) THEN {} ELSE {"count after failure"})
               ELSE (IF r.rv = Len(r.recs) THEN {} ELSE {"record count"}) \cup (IF r.packed = q.k THEN {} ELSE {"sample count"})
                    \cup (IF more THEN {IF stop = "yes" THEN "accepted" ELSE "stopped early"} ELSE {})
=============================================================================
