---------------------------------- MODULE Rec ---------------------------------
(* Records: detection of their length, and the meaning of every header field,  *)
(* of miniSEED 2 blockettes, and of the payload.                               *)
EXTENDS Decode, TLC
C == INSTANCE Cal
K == INSTANCE Crc

MaxRecLen == 10485760
Huge == 2000000000

----------------------------------------------------------------------------
(* Detection *)
ClockOk(b, o) == At(b, o) <= 23 /\ At(b, o + 1) <= 59 /\ At(b, o + 2) <= 60
Is3(b) == Len(b) >= 15 /\ b[1] = 77 /\ b[2] = 83 /\ b[3] = 3 /\ ClockOk(b, 12)
Is2At(b, o) == /\ \A i \in 0..5 : At(b, o + i) \in (48..57) \cup {32, 0}
               /\ At(b, o + 6) \in {68, 82, 81, 77}
               /\ At(b, o + 7) \in {32, 0}
               /\ ClockOk(b, o + 24)
Is2(b) == Len(b) >= 27 /\ Is2At(b, 0)
\* byte order of a version 2 header: the one that makes year and day sensible
YearDayOk(b, big) == U16(b, 20, big) \in 1900..2100 /\ U16(b, 22, big) \in 1..366
Big2(b) == ~YearDayOk(b, FALSE)

Len3(b) == LET d == W32(b, 36, FALSE) IN
           IF d[1] >= 16384 THEN Huge ELSE 40 + At(b, 33) + U16(b, 34, FALSE) + IntW(d)

\* length from the first blockette 1000 in the chain: a length, 0 (none seen) or -1 (chain runs backwards)
RECURSIVE Chain1000(_, _, _)
Chain1000(b, big, o) ==
  IF o < 48 \/ o + 4 > Len(b) THEN 0
  ELSE LET t == U16(b, o, big)
           nx == U16(b, o + 2, big)
       IN IF t = 1000 /\ o + 8 <= Len(b) THEN (IF At(b, o + 6) > 30 THEN Huge ELSE Pow2(At(b, o + 6)))
          ELSE IF nx # 0 /\ nx - 4 <= o THEN -1
          ELSE Chain1000(b, big, nx)
\* otherwise the distance to the next header at a multiple of 64 bytes
NextHeader(b) ==
  LET c == {k \in 1..(Len(b) \div 64) : 64 * k + 48 < Len(b) /\ Is2At(b, 64 * k)}
  IN IF c = {} THEN 0 ELSE 64 * (CHOOSE k \in c : \A j \in c : k <= j)

\* [ver, len]: version 0 means no record; len 0 means more bytes are needed to tell
Detect(b) ==
  IF Len(b) < 40 THEN [ver |-> 0, len |-> -1]
  ELSE IF Is3(b) THEN [ver |-> 3, len |-> Len3(b)]
  ELSE IF ~Is2(b) THEN [ver |-> 0, len |-> -1]
  ELSE IF Len(b) < 48 THEN [ver |-> 2, len |-> 0]
  ELSE LET c == Chain1000(b, Big2(b), U16(b, 46, Big2(b)))
       IN [ver |-> 2, len |-> IF c = 0 THEN NextHeader(b) ELSE c]

IsPow2(n) == \E k \in 0..23 : n = Pow2(k)

----------------------------------------------------------------------------
(* Text fields *)
UpToNul(s) == LET z == {i \in DOMAIN s : s[i] = 0} IN
              IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
NoSpaces(s) == SelectSeq(UpToNul(s), LAMBDA x : x # 32)
RECURSIVE TrimTail(_)
TrimTail(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Text(b, o, n) == TrimTail(UpToNul(Slice(b, o, n)))
FDSN == <<70, 68, 83, 78, 58>>
Sid2(b) == LET ch == Slice(b, 15, 3) IN
  FDSN \o NoSpaces(Slice(b, 18, 2)) \o <<95>> \o NoSpaces(Slice(b, 8, 5)) \o <<95>> \o NoSpaces(Slice(b, 13, 2)) \o <<95>>
       \o <<ch[1], 95, ch[2], 95, ch[3]>>

----------------------------------------------------------------------------
(* Times in version 2 records (BTIME): "unset", "bad" or an instant *)
BTime(b, o, big) ==
  LET y == U16(b, o, big)
      d == U16(b, o + 2, big)
      f == U16(b, o + 8, big)
  IN IF y = 0 THEN "unset"
     ELSE IF C!ValidYear(y) /\ C!ValidYearDay(y, d) /\ C!ValidClock(At(b, o + 4), At(b, o + 5), At(b, o + 6)) /\ f <= 9999
             /\ C!InRange(C!Instant(y, d, At(b, o + 4), At(b, o + 5), At(b, o + 6), f * 100000))
     THEN "set" ELSE "bad"
BInstant(b, o, big) == C!Instant(U16(b, o, big), U16(b, o + 2, big), At(b, o + 4), At(b, o + 5), At(b, o + 6), U16(b, o + 8, big) * 100000)
\* plus a number of 0.1 ms ticks, in a 32-bit word
AddTicks(t, w) == LET k == SInt(w) IN C!AddNs(C!AddSec(t, k \div 10000), (k % 10000) * 100000)

----------------------------------------------------------------------------
(* Extra headers carried by a version 2 record, as a set of path/value pairs *)
True == [k |-> "b", v |-> TRUE]
IntV(w) == [k |-> "i", v |-> w]
NumV(i) == IntV(Word(i))
Tick(w) == [k |-> "m", v |-> w]      \* in units of 1/10000, signed
UTick(w) == [k |-> "u", v |-> w]     \* in units of 1/10000, unsigned
Flt(w) == [k |-> "f", v |-> w]
Str(s) == [k |-> "s", v |-> s]
P(path, v) == <<path, v>>
If(c, s) == IF c THEN s ELSE {}
StrIf(path, s) == If(s # <<>>, {P(path, Str(s))})
FZero(w) == w[1] % 32768 = 0 /\ w[2] = 0
FltIf(path, w) == If(~FZero(w), {P(path, Flt(w))})
UTickIf(path, w) == If(w # <<0, 0>>, {P(path, UTick(w))})
S(str) == Str(str)

GENERIC == <<71, 69, 78, 69, 82, 73, 67>>
MURDOCK == <<77, 85, 82, 68, 79, 67, 75>>
STEP == <<83, 84, 69, 80>>
SINE == <<83, 73, 78, 69>>
PSEUDO == <<80, 83, 69, 85, 68, 79, 82, 65, 78, 68, 79, 77>>
ABORT == <<65, 66, 79, 82, 84>>
DILAT == <<68, 73, 76, 65, 84, 65, 84, 73, 79, 78>>
COMPR == <<67, 79, 77, 80, 82, 69, 83, 83, 73, 79, 78>>
DECONV == <<68, 69, 67, 79, 78, 86, 79, 76, 86, 69, 68>>
COUNTS == <<67, 79, 85, 78, 84, 83>>
AUTO == <<65, 85, 84, 79, 77, 65, 84, 73, 67>>
MANUAL == <<77, 65, 78, 85, 65, 76>>
PTP == <<80, 69, 65, 75, 84, 79, 80, 69, 65, 75>>
ZTP == <<90, 69, 82, 79, 84, 79, 80, 69, 65, 75>>
RMS == <<82, 77, 83>>
RANDOM == <<82, 65, 78, 68, 79, 77>>

TimeIf(path, b, o, big, us) ==
  IF BTime(b, o, big) = "set" THEN {P(path, Str(C!IsoZ(C!AddNs(BInstant(b, o, big), us * 1000))))} ELSE {}

Flags(b) ==
  LET a == At(b, 36)
      i == At(b, 37)
      q == At(b, 38)
      F(x, n, path) == If(Bit(x, n), {P(path, True)})
  IN F(a, 2, "/FDSN/Event/Begin") \cup F(a, 3, "/FDSN/Event/End") \cup F(a, 6, "/FDSN/Event/InProgress")
     \cup (IF Bit(a, 5) THEN {P("/FDSN/Time/LeapSecond", NumV(-1))} ELSE If(Bit(a, 4), {P("/FDSN/Time/LeapSecond", NumV(1))}))
     \cup F(i, 0, "/FDSN/Flags/StationVolumeParityError") \cup F(i, 1, "/FDSN/Flags/LongRecordRead")
     \cup F(i, 2, "/FDSN/Flags/ShortRecordRead") \cup F(i, 3, "/FDSN/Flags/StartOfTimeSeries") \cup F(i, 4, "/FDSN/Flags/EndOfTimeSeries")
     \cup F(q, 0, "/FDSN/Flags/AmplifierSaturation") \cup F(q, 1, "/FDSN/Flags/DigitizerClipping") \cup F(q, 2, "/FDSN/Flags/Spikes")
     \cup F(q, 3, "/FDSN/Flags/Glitches") \cup F(q, 4, "/FDSN/Flags/MissingData") \cup F(q, 5, "/FDSN/Flags/TelemetrySyncError")
     \cup F(q, 6, "/FDSN/Flags/FilterCharging")

Detection(b, o, big, t, p) ==
  LET fl == At(b, o + 16)
      med == Slice(b, o + 28, 6)
  IN {P(p \o "/Type", Str(IF t = 201 THEN MURDOCK ELSE GENERIC))}
     \cup FltIf(p \o "/SignalAmplitude", W32(b, o + 4, big))
     \cup FltIf(p \o "/SignalPeriod", W32(b, o + 8, big))
     \cup FltIf(p \o "/BackgroundEstimate", W32(b, o + 12, big))
     \cup If(t = 201 \/ ~Bit(fl, 2), {P(p \o "/Wave", Str(IF Bit(fl, 0) THEN DILAT ELSE COMPR))})
     \cup If(t = 200, {P(p \o "/Units", Str(IF Bit(fl, 1) THEN DECONV ELSE COUNTS))})
     \cup TimeIf(p \o "/OnsetTime", b, o + 18, big, 0)
     \cup (IF t = 200 THEN StrIf(p \o "/Detector", Text(b, o + 28, 24))
           ELSE If(\E i \in 1..6 : med[i] # 0, {P(p \o "/MEDSNR/" \o ToString(i - 1), NumV(med[i])) : i \in 1..6})
                \cup {P(p \o "/MEDLookback", NumV(At(b, o + 34))), P(p \o "/MEDPickAlgorithm", NumV(At(b, o + 35)))}
                \cup StrIf(p \o "/Detector", Text(b, o + 36, 24)))

Calibration(b, o, big, t, p) ==
  LET fl == At(b, o + 15)
      Chan(x) == StrIf(p \o "/InputChannel", Text(b, x, 3))
      Ref(x) == If(W32(b, x, big) # <<0, 0>>, {P(p \o "/ReferenceAmplitude", IntV(W32(b, x, big)))})
      Coup(x) == StrIf(p \o "/Coupling", Text(b, x, 12)) \cup StrIf(p \o "/Rolloff", Text(b, x + 12, 12))
  IN IF t = 395 THEN {P(p \o "/Type", Str(ABORT))} \cup TimeIf(p \o "/EndTime", b, o + 4, big, 0)
     ELSE {P(p \o "/Type", Str(CASE t = 300 -> STEP [] t = 310 -> SINE [] t = 320 -> PSEUDO [] OTHER -> GENERIC)),
           P(p \o "/Trigger", Str(IF Bit(fl, 2) THEN AUTO ELSE MANUAL))}
          \cup TimeIf(p \o "/BeginTime", b, o + 4, big, 0)
          \cup If(Bit(fl, 3), {P(p \o "/Continued", True)})
          \cup (IF t = 300 THEN {P(p \o "/Steps", NumV(At(b, o + 14)))}
                                \cup If(Bit(fl, 0), {P(p \o "/StepFirstPulsePositive", True)})
                                \cup If(Bit(fl, 1), {P(p \o "/StepAlternateSign", True)})
                                \cup UTickIf(p \o "/Duration", W32(b, o + 16, big)) \cup UTickIf(p \o "/StepBetween", W32(b, o + 20, big))
                                \cup FltIf(p \o "/Amplitude", W32(b, o + 24, big)) \cup Chan(o + 28)
                                \cup Ref(o + 32) \cup Coup(o + 36)
                ELSE IF t = 310 THEN
                     (IF Bit(fl, 4) THEN {P(p \o "/AmplitudeRange", Str(PTP))}
                                ELSE IF Bit(fl, 5) THEN {P(p \o "/AmplitudeRange", Str(ZTP))}
                                ELSE If(Bit(fl, 6), {P(p \o "/AmplitudeRange", Str(RMS))}))
                                \cup UTickIf(p \o "/Duration", W32(b, o + 16, big)) \cup FltIf(p \o "/SinePeriod", W32(b, o + 20, big))
                                \cup FltIf(p \o "/Amplitude", W32(b, o + 24, big)) \cup Chan(o + 28)
                                \cup Ref(o + 32) \cup Coup(o + 36)
                ELSE IF t = 320 THEN
                     If(Bit(fl, 4), {P(p \o "/AmplitudeRange", Str(RANDOM))})
                                \cup UTickIf(p \o "/Duration", W32(b, o + 16, big))
                                \cup FltIf(p \o "/Amplitude", W32(b, o + 20, big)) \cup Chan(o + 24)
                                \cup Ref(o + 28) \cup Coup(o + 32) \cup StrIf(p \o "/Noise", Text(b, o + 56, 8))
                ELSE UTickIf(p \o "/Duration", W32(b, o + 16, big))
                                \cup FltIf(p \o "/Amplitude", W32(b, o + 20, big)) \cup Chan(o + 24))

Exception(b, o, big, p) ==
  LET vco == W32(b, o + 4, big)
      \* present unless negative (or not a number)
      has == (vco[1] < 32768 \/ FZero(vco))
  IN TimeIf(p \o "/Time", b, o + 8, big, S8(At(b, o + 18)))
     \cup If(has, {P(p \o "/VCOCorrection", Flt(vco))})
     \cup {P(p \o "/ReceptionQuality", NumV(At(b, o + 19)))}
     \cup If(W32(b, o + 20, big) # <<0, 0>>, {P(p \o "/Count", IntV(W32(b, o + 20, big)))})
     \cup StrIf(p \o "/Type", Text(b, o + 24, 16)) \cup StrIf(p \o "/ClockStatus", Text(b, o + 72, 128))

BlktLen(b, o, t, big, len) ==
  CASE t = 100 -> 12 [] t = 200 -> 52 [] t = 201 -> 60 [] t = 300 -> 60 [] t = 310 -> 60 [] t = 320 -> 64
    [] t = 390 -> 28 [] t = 395 -> 16 [] t = 400 -> 16 [] t = 500 -> 200 [] t = 1000 -> 8 [] t = 1001 -> 8
    [] t = 2000 -> IF o + 6 > len THEN 0 ELSE U16(b, o + 4, big)
    [] OTHER -> 0
\* offset of the blockette's time, where it has one
TimeOff(t) == CASE t \in {200, 201} -> 18 [] t \in {300, 310, 320, 390, 395} -> 4 [] t = 500 -> 8 [] OTHER -> 0

\* state gathered along the chain
Chain0 == [err |-> "", ex |-> {}, det |-> 0, cal |-> 0, exc |-> 0, clock |-> <<-1>>, enc |-> -1, order |-> -1, rate |-> <<>>, usec |-> 0, q |-> -1, len |-> 0, end |-> 48, n |-> 0, types |-> <<>>]
Visit(s, b, o, t, big, len) ==
  LET bad == TimeOff(t) > 0 /\ BTime(b, o + TimeOff(t), big) = "bad" IN
  IF bad THEN [s EXCEPT !.err = "err"]
  ELSE CASE t = 100 -> [s EXCEPT !.rate = W32(b, o + 4, big)]
    [] t \in {200, 201} -> [s EXCEPT !.det = @ + 1, !.ex = @ \cup Detection(b, o, big, t, "/FDSN/Event/Detection/" \o ToString(s.det))]
    [] t \in {300, 310, 320, 390, 395} -> [s EXCEPT !.cal = @ + 1, !.ex = @ \cup Calibration(b, o, big, t, "/FDSN/Calibration/Sequence/" \o ToString(s.cal))]
    [] t = 500 -> [s EXCEPT !.exc = @ + 1, !.clock = Text(b, o + 40, 32),
                            !.ex = @ \cup Exception(b, o, big, "/FDSN/Time/Exception/" \o ToString(s.exc))]
    [] t = 1000 -> IF At(b, o + 6) > 30 THEN [s EXCEPT !.err = "range"]
                   ELSE IF Pow2(At(b, o + 6)) > len THEN [s EXCEPT !.err = "range"]
                   ELSE [s EXCEPT !.enc = At(b, o + 4), !.order = At(b, o + 5), !.len = Pow2(At(b, o + 6))]
    [] t = 1001 -> [s EXCEPT !.usec = S8(At(b, o + 5)), !.q = At(b, o + 4)]
    [] OTHER -> s
RECURSIVE Walk(_, _, _, _, _)
Walk(s, b, o, big, len) ==
  IF s.err # "" \/ o = 0 \/ o + 4 > len THEN s
  ELSE LET t == U16(b, o, big)
           nx == U16(b, o + 2, big)
           k == BlktLen(b, o, t, big, len)
       IN IF k = 0 \/ o + k > len THEN s
          ELSE LET s2 == [Visit(s, b, o, t, big, len) EXCEPT !.end = o + k, !.n = @ + 1, !.types = Append(@, t)]
               IN IF nx # 0 /\ (nx < o + k \/ nx > len) THEN s2 ELSE Walk(s2, b, nx, big, len)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
\* nominal rate of a factor and a multiplier, as a reduced fraction of samples per second
Nominal(f, m) ==
  IF f = 0 THEN <<0, 1>>
  ELSE IF m = 0 THEN IF f > 0 THEN <<f, 1>> ELSE <<1, -f>>
  ELSE IF f > 0 THEN IF m > 0 THEN Red(f * m, 1) ELSE Red(f, -m)
  ELSE IF m > 0 THEN Red(m, -f) ELSE <<1, f * m>>

----------------------------------------------------------------------------
(* Trailing all-zero Steim frames hold nothing *)
RECURSIVE DropZero(_)
DropZero(p) == IF Len(p) >= 64 /\ \A i \in (Len(p) - 63)..Len(p) : p[i] = 0 THEN DropZero(SubSeq(p, 1, Len(p) - 64)) ELSE p

Fail(c) == [cls |-> c, ver |-> 0]
\* the record whose bytes are b (exactly its own), of the version; crc: validate the checksum
Parse3(b, crc) ==
  IF At(b, 33) > 63 THEN Fail("err")
  ELSE IF crc /\ K!RecordCrc(b) # W32(b, 28, FALSE) THEN Fail("crc")
  ELSE LET y == U16(b, 8, FALSE)
           d == U16(b, 10, FALSE)
           ns == W32(b, 4, FALSE)
           sl == At(b, 33)
           xl == U16(b, 34, FALSE)
       IN IF ~(C!ValidYear(y) /\ C!ValidYearDay(y, d) /\ C!ValidClock(At(b, 12), At(b, 13), At(b, 14)) /\ Fits(ns) /\ IntW(ns) <= 999999999
                /\ C!InRange(C!Instant(y, d, At(b, 12), At(b, 13), At(b, 14), IntW(ns))))
          THEN Fail("err")
          ELSE [cls |-> "ok", ver |-> 3, len |-> Len(b), sid |-> UpToNul(Slice(b, 40, sl)), flags |-> At(b, 3), pub |-> At(b, 32), enc |-> At(b, 15),
                cnt |-> W32(b, 24, FALSE), t |-> C!Instant(y, d, At(b, 12), At(b, 13), At(b, 14), IntW(ns)),
                rate |-> [k |-> "d", v |-> W64(b, 16, FALSE)], crc |-> W32(b, 28, FALSE), extra |-> Slice(b, 40 + sl, xl), ex |-> {},
                doff |-> 40 + sl + xl, big |-> At(b, 15) \in {STEIM1, STEIM2}, dlen |-> Len(b) - 40 - sl - xl]
Parse2(b) ==
  IF Len(b) < 64 THEN Fail("range")
  ELSE LET big == Big2(b)
           w == Walk(Chain0, b, U16(b, 46, big), big, Len(b))
           tc == W32(b, 40, big)
           q == At(b, 6)
           len == IF w.len = 0 THEN Len(b) ELSE w.len
           doff == U16(b, 44, big)
           t0 == BInstant(b, 20, big)
           t1 == IF tc # <<0, 0>> /\ ~Bit(At(b, 36), 1) THEN AddTicks(t0, tc) ELSE t0
       IN IF w.err # "" THEN Fail(w.err)
          ELSE IF BTime(b, 20, big) = "unset" THEN Fail("any")
          ELSE IF BTime(b, 20, big) = "bad" THEN Fail("err")
          ELSE [cls |-> "ok", ver |-> 2, len |-> len, sid |-> Sid2(b),
                flags |-> (IF Bit(At(b, 36), 0) THEN 1 ELSE 0) + (IF Bit(At(b, 38), 7) THEN 2 ELSE 0) + (IF Bit(At(b, 37), 5) THEN 4 ELSE 0),
                pub |-> CASE q = 82 -> 1 [] q = 68 -> 2 [] q = 81 -> 3 [] q = 77 -> 4 [] OTHER -> 0,
                enc |-> w.enc, cnt |-> <<0, U16(b, 30, big)>>, t |-> C!AddNs(t1, w.usec * 1000),
                rate |-> IF w.rate = <<>> THEN [k |-> "q", v |-> Nominal(S16(U16(b, 32, big)), S16(U16(b, 34, big)))] ELSE [k |-> "f", v |-> w.rate],
                crc |-> <<0, 0>>, extra |-> <<>>,
                ex |-> w.ex \cup Flags(b) \cup If(tc # <<0, 0>>, {P("/FDSN/Time/Correction", Tick(tc))})
                       \cup If(w.q # -1, {P("/FDSN/Time/Quality", NumV(w.q))})
                       \cup If(w.clock # <<-1>>, {P("/FDSN/Clock/Model", Str(w.clock))}),
                hend |-> w.end, nblk |-> w.n, types |-> w.types, b1001 |-> w.q # -1,
                doff |-> doff, big |-> IF w.order = -1 THEN big ELSE w.order > 0,
                dlen |-> IF doff = 0 THEN 0 ELSE len - doff]
\* parsing the bytes b: flags say whether the checksum is validated and whether the bytes end the input
ParseBytes(b, crc, ateof) ==
  LET d == Detect(b)
      len == IF d.ver = 2 /\ d.len = 0 /\ ateof /\ IsPow2(Len(b)) THEN Len(b) ELSE d.len
  IN IF len < 0 THEN Fail("notseed")
     ELSE IF len = 0 THEN [cls |-> "need", ver |-> 0, need |-> 40]
     ELSE IF len < 40 \/ len > MaxRecLen THEN Fail("range")
     ELSE IF len > Len(b) THEN [cls |-> "need", ver |-> 0, need |-> len - Len(b)]
     ELSE IF d.ver = 3 THEN Parse3(SubSeq(b, 1, len), crc) ELSE Parse2(SubSeq(b, 1, len))

\* the payload's samples: [cls, type, s]
Samples(r, b) ==
  IF r.cnt = <<0, 0>> THEN [cls |-> "ok", type |-> "", s |-> <<>>, alt |-> FALSE]
  ELSE IF ~Fits(r.cnt) \/ r.doff < 40 \/ r.doff >= r.len THEN [cls |-> "err", type |-> "", s |-> <<>>, alt |-> FALSE]
  ELSE LET n == IntW(r.cnt)
           enc == IF r.enc = -1 THEN STEIM1 ELSE r.enc
           p0 == Slice(b, r.doff, r.len - r.doff)
           p == IF enc \in {STEIM1, STEIM2} /\ Len(p0) % 64 = 0 THEN DropZero(p0) ELSE p0
           d == DecodePayload(enc, r.big, p, n)
       IN [cls |-> IF d.ok THEN "ok" ELSE "err", type |-> TypeOf(enc), s |-> d.s, alt |-> d.alt]
=============================================================================
