---------------------------------- MODULE Diag --------------------------------
(* The diagnosis of raw headers: how many faults a header has, and the value of *)
(* each field it lists, read from the record's own bytes and nothing beyond.    *)
(* d is the level of detail, 0 faults only, 1 the fields, 2 reserved bytes and  *)
(* the meaning of flags as well.                                                *)
EXTENDS Rec, FiniteSets
RECURSIVE Cnt(_)
Cnt(q) == IF q = <<>> THEN 0 ELSE (IF Head(q) THEN 1 ELSE 0) + Cnt(Tail(q))
L(label, v) == [l |-> label, v |-> v]
One(label, v) == <<L(label, <<v>>)>>
When(c, q) == IF c THEN q ELSE <<>>
SwapLine(big) == <<L(IF big THEN "Swapping multi-byte quantities in header" ELSE "Not swapping multi-byte quantities in header", <<>>)>>
\* the lines for the bits set in x, names[n+1] for bit n
BitLines(x, names) == LET RECURSIVE F(_)
                          F(n) == IF n = Len(names) THEN <<>> ELSE When(Bit(x, n), <<L("[Bit " \o ToString(n) \o "] " \o names[n + 1], <<>>)>>) \o F(n + 1)
                      IN F(0)
Chars(b, o, n) == UpToNul(Slice(b, o, n))
BTimeV(b, o, big) == <<U16(b, o, big), U16(b, o + 2, big), At(b, o + 4), At(b, o + 5), At(b, o + 6), U16(b, o + 8, big), At(b, o + 7)>>

----------------------------------------------------------------------------
(* Version 3 *)
Act3 == <<"Calibration signals present", "Time tag questionable", "Clock locked", "Undefined bit set", "Undefined bit set", "Undefined bit set", "Undefined bit set", "Undefined bit set">>
NsTooLarge(w) == w[1] > 15258 \/ (w[1] = 15258 /\ w[2] > 51711)
Faults3(b) == Cnt(<<b[1] # 77 \/ b[2] # 83, b[3] # 3, U16(b, 8, FALSE) \notin 1900..2100, U16(b, 10, FALSE) \notin 1..366,
                    At(b, 12) > 23, At(b, 13) > 59, At(b, 14) > 60, NsTooLarge(W32(b, 4, FALSE))>>)
Fields3(b, d) ==
  LET sl == At(b, 33)
      xl == U16(b, 34, FALSE)
  IN When(d >= 1,
       <<L("RECORD", Chars(b, 40, sl)), L("record indicator", Slice(b, 0, 2)), L("activity flags", <<At(b, 3)>>)>>
       \o When(d > 1, BitLines(At(b, 3), Act3))
       \o <<L("start time", <<U16(b, 8, FALSE), U16(b, 10, FALSE), At(b, 12), At(b, 13), At(b, 14)>> \o W32(b, 4, FALSE)),
            L("sample rate+/period-", W64(b, 16, FALSE)), L("data encoding", <<At(b, 15)>>), L("publication version", <<At(b, 32)>>),
            L("number of samples", W32(b, 24, FALSE)), L("CRC", W32(b, 28, FALSE)), L("length of identifier", <<sl>>),
            L("length of extra headers", <<xl>>), L("length of data payload", W32(b, 36, FALSE))>>)
     \o When(d > 1 /\ xl > 0, <<L("extra headers", <<>>)>> \o When(40 + sl + xl > Len(b), <<L("[buffer does not contain extra headers]", <<>>)>>))
Raw3(b, d) ==
  IF Len(b) < 40 THEN [n |-> 1, ls |-> <<>>]
  ELSE IF At(b, 33) < 4 \/ 40 + At(b, 33) > Len(b) THEN [n |-> 1, ls |-> When(d > 1, SwapLine(FALSE))]
  ELSE [n |-> Faults3(b), ls |-> When(d > 1, SwapLine(FALSE)) \o Fields3(b, d)]

----------------------------------------------------------------------------
(* Version 2 *)
Act2 == <<"Calibration signals present", "Time correction applied", "Beginning of an event, station trigger", "End of an event, station detrigger",
          "A positive leap second happened in this record", "A negative leap second happened in this record", "Event in progress", "Undefined bit set">>
Io2 == <<"Station volume parity error possibly present", "Long record read (possibly no problem)", "Short record read (record padded)", "Start of time series",
         "End of time series", "Clock locked", "Undefined bit set", "Undefined bit set">>
Dq2 == <<"Amplifier saturation detected", "Digitizer clipping detected", "Spikes detected", "Glitches detected", "Missing/padded data present",
         "Telemetry synchronization error", "A digital filter may be charging", "Time tag is questionable">>
Digit(x) == x \in 48..57
AlNumSp(x) == x \in (48..57) \cup (65..90) \cup (97..122) \cup {32}
AllCodes(b, o, n) == \A i \in 0..(n - 1) : AlNumSp(At(b, o + i))
SwapOf(b, sw) == IF sw = -1 THEN ~YearDayOk(b, FALSE) ELSE sw = 1
Faults2(b, big) ==
  Cnt(<<\E i \in 0..5 : ~Digit(At(b, i)), At(b, 6) \notin {68, 82, 81, 77}, At(b, 7) \notin {32, 0},
        ~AllCodes(b, 8, 5), ~AllCodes(b, 13, 2), ~AllCodes(b, 15, 3), ~AllCodes(b, 18, 2),
        U16(b, 20, big) \notin 1900..2100, U16(b, 22, big) \notin 1..366, At(b, 24) > 23, At(b, 25) > 59, At(b, 26) > 60,
        U16(b, 28, big) > 9999, U16(b, 30, big) > 20000,
        U16(b, 30, big) > 0 /\ At(b, 39) > 0 /\ U16(b, 44, big) <= U16(b, 46, big)>>)
Fields2(b, big, d) ==
  When(d >= 1,
    <<L("RECORD", Sid2(b)), L("sequence number", Slice(b, 0, 6)), L("data quality indicator", <<At(b, 6)>>), L("reserved", <<At(b, 7)>>),
      L("station code", Slice(b, 8, 5)), L("location ID", Slice(b, 13, 2)), L("channel codes", Slice(b, 15, 3)), L("network code", Slice(b, 18, 2)),
      L("start time", BTimeV(b, 20, big)), L("number of samples", W32(<<0, 0, U16(b, 30, big) \div 256, U16(b, 30, big) % 256>>, 0, TRUE)),
      L("sample rate factor", <<S16(U16(b, 32, big))>>), L("sample rate multiplier", <<S16(U16(b, 34, big))>>)>>
    \o When(d > 1, One("activity flags", At(b, 36)) \o BitLines(At(b, 36), Act2) \o One("I/O and clock flags", At(b, 37)) \o BitLines(At(b, 37), Io2)
                   \o One("data quality flags", At(b, 38)) \o BitLines(At(b, 38), Dq2))
    \o <<L("number of blockettes", <<At(b, 39)>>), L("time correction", W32(b, 40, big)), L("data offset", <<U16(b, 44, big)>>), L("first blockette offset", <<U16(b, 46, big)>>)>>)

Name(t) == CASE t = 100 -> "Sample Rate" [] t = 200 -> "Generic Event Detection" [] t = 201 -> "Murdock Event Detection" [] t = 300 -> "Step Calibration"
             [] t = 310 -> "Sine Calibration" [] t = 320 -> "Pseudo-random Calibration" [] t = 390 -> "Generic Calibration" [] t = 395 -> "Calibration Abort"
             [] t = 400 -> "Beam" [] t = 500 -> "Timing" [] t = 1000 -> "Data Only SEED" [] t = 1001 -> "Data Extension" [] t = 2000 -> "Opaque Data" [] OTHER -> "Unknown"
FixedLen(t) == CASE t = 100 -> 12 [] t = 200 -> 52 [] t \in {201, 300, 310} -> 60 [] t = 320 -> 64 [] t = 390 -> 28 [] t \in {395, 400} -> 16 [] t = 500 -> 200
                 [] t \in {1000, 1001} -> 8 [] OTHER -> 0
Order(x) == IF x = 0 THEN "byte order Little endian" ELSE IF x = 1 THEN "byte order Big endian" ELSE "byte order Unknown value"
Enc2Ok(x) == x \in (0..5) \cup (10..19) \cup (30..33)
Max2(x, y) == IF x > y THEN x ELSE y
CalFlags(x, names) == One("calibration flags", x) \o BitLines(x, names)

(* the fields of a blockette at o, of type t and length len *)
BlkLines(b, o, t, len, big, d) ==
  LET F(label, k) == L(label, W32(b, o + k, big))
      T(label, k) == L(label, BTimeV(b, o + k, big))
      B1(label, k) == L(label, <<At(b, o + k)>>)
      X(label, k, n) == L(label, Chars(b, o + k, n))
      R1(k) == When(d > 1, One("reserved byte", At(b, o + k)))
  IN CASE t = 100 -> <<F("actual sample rate", 4)>> \o When(d > 1, One("undefined flags", At(b, o + 8)) \o <<L("reserved bytes (3)", Slice(b, o + 9, 3))>>)
       [] t = 200 -> LET x == At(b, o + 16) IN
                     <<F("signal amplitude", 4), F("signal period", 8), F("background estimate", 12)>>
                     \o When(d > 1, One("event detection flags", x)
                               \o <<L(IF Bit(x, 0) THEN "[Bit 0] 1: Dilatation wave" ELSE "[Bit 0] 0: Compression wave", <<>>),
                                    L(IF Bit(x, 1) THEN "[Bit 1] 1: Units after deconvolution" ELSE "[Bit 1] 0: Units are digital counts", <<>>)>>
                               \o When(Bit(x, 2), <<L("[Bit 2] Bit 0 is undetermined", <<>>)>>) \o R1(17))
                     \o <<T("signal onset time", 18), X("detector name", 28, 24)>>
       [] t = 201 -> LET x == At(b, o + 16) IN
                     <<F("signal amplitude", 4), F("signal period", 8), F("background estimate", 12)>> \o One("event detection flags", x)
                     \o <<L(IF Bit(x, 0) THEN "[Bit 0] 1: Dilation wave" ELSE "[Bit 0] 0: Compression wave", <<>>)>> \o R1(17)
                     \o <<T("signal onset time", 18), L("SNR values", Slice(b, o + 28, 6)), B1("loopback value", 34), B1("pick algorithm", 35), X("detector name", 36, 24)>>
       [] t = 300 -> <<T("calibration start time", 4), B1("number of calibrations", 14)>>
                     \o CalFlags(At(b, o + 15), <<"First pulse is positive", "Calibration's alternate sign", "Calibration was automatic", "Calibration continued from previous record(s)">>)
                     \o <<F("step duration", 16), F("interval duration", 20), F("signal amplitude", 24), X("input signal channel", 28, 3)>> \o R1(31)
                     \o <<F("reference amplitude", 32), X("coupling", 36, 12), X("rolloff", 48, 12)>>
       [] t = 310 -> LET x == At(b, o + 15)
                         bits == SelectSeq(BitLines(x, <<"-", "-", "Calibration was automatic", "Calibration continued from previous record(s)", "Peak-to-peak amplitude", "Zero-to-peak amplitude", "RMS amplitude">>),
                                           LAMBDA y : y.l \notin {"[Bit 0] -", "[Bit 1] -"})
                     IN <<T("calibration start time", 4)>> \o R1(14) \o One("calibration flags", x) \o bits
                        \o <<F("calibration duration", 16), F("signal period", 20), F("signal amplitude", 24), X("input signal channel", 28, 3)>> \o R1(31)
                        \o <<F("reference amplitude", 32), X("coupling", 36, 12), X("rolloff", 48, 12)>>
       [] t = 320 -> LET x == At(b, o + 15)
                         bits == SelectSeq(BitLines(x, <<"-", "-", "Calibration was automatic", "Calibration continued from previous record(s)", "Random amplitudes">>), LAMBDA y : y.l \notin {"[Bit 0] -", "[Bit 1] -"})
                     IN <<T("calibration start time", 4)>> \o R1(14) \o One("calibration flags", x) \o bits
                        \o <<F("calibration duration", 16), F("peak-to-peak amplitude", 20), X("input signal channel", 24, 3)>> \o R1(27)
                        \o <<F("reference amplitude", 28), X("coupling", 32, 12), X("rolloff", 44, 12), X("noise type", 56, 8)>>
       [] t = 390 -> LET x == At(b, o + 15)
                         bits == SelectSeq(BitLines(x, <<"-", "-", "Calibration was automatic", "Calibration continued from previous record(s)">>), LAMBDA y : y.l \notin {"[Bit 0] -", "[Bit 1] -"})
                     IN <<T("calibration start time", 4)>> \o R1(14) \o One("calibration flags", x) \o bits
                        \o <<F("calibration duration", 16), F("signal amplitude", 20), X("input signal channel", 24, 3)>> \o R1(27)
       [] t = 395 -> <<T("calibration end time", 4)>> \o When(d > 1, <<L("reserved bytes (2)", Slice(b, o + 14, 2))>>)
       [] t = 400 -> <<F("beam azimuth (degrees)", 4), F("beam slowness (sec/degree)", 8), L("configuration", <<U16(b, o + 12, big)>>)>>
                     \o When(d > 1, <<L("reserved bytes (2)", Slice(b, o + 14, 2))>>)
       [] t = 405 -> When(o + 6 <= Len(b), <<L("first delay value", <<U16(b, o + 4, big)>>)>>)
       [] t = 500 -> <<F("VCO correction", 4), T("time of exception", 8), L("usec", <<S8(At(b, o + 18))>>), B1("reception quality", 19), F("exception count", 20),
                       X("exception type", 24, 16), X("clock model", 40, 32), X("clock status", 72, 128)>>
       [] t = 1000 -> <<B1("encoding", 4), L(Order(At(b, o + 5)), <<At(b, o + 5)>>), L("record length", <<IF At(b, o + 6) <= 30 THEN Pow2(At(b, o + 6)) ELSE -1, At(b, o + 6)>>)>> \o R1(7)
       [] t = 1001 -> <<B1("timing quality", 4), L("micro second", <<S8(At(b, o + 5))>>)>> \o R1(6) \o <<B1("frame count", 7)>>
       [] t = 2000 -> LET x == At(b, o + 13)
                          do == U16(b, o + 6, big)
                          n == Max2(0, Min2(do, len) - 15)
                      IN <<L("blockette length", <<len>>), L("data offset", <<do>>), F("record number", 8), L(Order(At(b, o + 12)), <<At(b, o + 12)>>), L("data flags", <<x>>)>>
                         \o When(d > 1, <<L(IF Bit(x, 0) THEN "[Bit 0] 1: Stream oriented" ELSE "[Bit 0] 0: Record oriented", <<>>),
                                          L(IF Bit(x, 1) THEN "[Bit 1] 1: Blockette 2000s may NOT be packaged" ELSE "[Bit 1] 0: Blockette 2000s may be packaged", <<>>)>>)
                         \o <<B1("number of headers", 14)>> \o When(d > 1, <<X("headers", 15, n)>>)
       [] OTHER -> <<>>
Known2(t) == t = 405 \/ t = 2000 \/ FixedLen(t) > 0

(* the chain from o on: c = [n, cnt, end, rl, off, ls], off where the walk ended *)
RECURSIVE WalkBlk(_, _, _, _, _)
WalkBlk(b, big, d, o, c) ==
  IF o = 0 \/ o >= Len(b) THEN [c EXCEPT !.off = o]
  ELSE IF o + 4 > Len(b) THEN [c EXCEPT !.off = o, !.n = @ + 1]
  ELSE LET t == U16(b, o, big)
           nx == U16(b, o + 2, big)
           len == IF t # 2000 THEN FixedLen(t) ELSE IF o + 6 > Len(b) THEN 6 ELSE U16(b, o + 4, big)
           e == o + Max2(len, 4) - 1
           c1 == [c EXCEPT !.off = o, !.end = e, !.n = @ + (IF len = 0 THEN 1 ELSE 0),
                           !.ls = @ \o When(d >= 1, <<L("BLOCKETTE " \o Name(t), <<t>>), L("next blockette", <<nx>>)>>)]
       IN IF e >= Len(b) \/ (t = 2000 /\ len < 15) THEN [c1 EXCEPT !.n = @ + 1]
          ELSE LET x == IF t = 1000 THEN At(b, o + 6) ELSE 0
                   c2 == [c1 EXCEPT !.ls = @ \o When(d >= 1, BlkLines(b, o, t, len, big, d)), !.cnt = @ + 1,
                                    !.rl = IF t # 1000 THEN @ ELSE IF x <= 30 THEN Pow2(x) ELSE -1,
                                    !.n = @ + Cnt(<<~Known2(t), t = 1000 /\ ~Enc2Ok(At(b, o + 4)), t = 1000 /\ At(b, o + 5) > 1, t = 1000 /\ x > 30>>)]
               IN IF nx # 0 /\ nx <= e THEN [c2 EXCEPT !.n = @ + 1, !.off = 0]
                  ELSE WalkBlk(b, big, d, nx, c2)
Raw2(b, d, sw) ==
  IF Len(b) < 48 THEN [n |-> 1, ls |-> <<>>]
  ELSE LET big == SwapOf(b, sw)
           bo == U16(b, 46, big)
           do == U16(b, 44, big)
           ls == When(d > 1, SwapLine(big)) \o Fields2(b, big, d)
           c == WalkBlk(b, big, d, bo, [n |-> 0, cnt |-> 0, end |-> -1, rl |-> -1, off |-> 0, ls |-> <<>>])
       IN IF bo <= 46 \/ bo >= Len(b) THEN [n |-> Faults2(b, big), ls |-> ls]
          ELSE [n |-> Faults2(b, big) + c.n + Cnt(<<c.off > Len(b), c.rl > 0 /\ do > c.rl, c.rl > 0 /\ bo > c.rl, U16(b, 30, big) > 0 /\ do <= c.end, At(b, 39) # c.cnt>>),
                ls |-> ls \o c.ls]
=============================================================================
