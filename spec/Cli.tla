---------------------------------- MODULE Cli -----------------------------------
(* The command: its arguments, the records it passes, and everything it        *)
(* prints and writes.  Text is character codes.                                 *)
(*                                                                              *)
(* Environment g: [fs: <<[n, b]>> files, N: time units per second (a power of   *)
(*   ten), J: its exponent, base: instant of unit 0, rates: <<[bits, f, q, n,   *)
(*   d, per, hz]>> the sampling rates in use: samples per second n/d, as stored *)
(*   (bits of a double, bits of a float, fraction), the period in units, and a  *)
(*   whole value proportional to the rate, hzk to the power of ten per Hz].     *)
EXTENDS Reader, TLC
T == INSTANCE TraceList
Ck == INSTANCE Clock
I == INSTANCE Sid
Nu == INSTANCE Num

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> 31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]
Txt(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
NL == <<10>>

-----------------------------------------------------------------------------
(* Arguments.  Each is [s |-> the argument as a string, c |-> its codes].       *)
Opt0 == [res |-> "run", ins |-> <<>>, ts |-> <<>>, te |-> <<>>, m |-> <<>>, hasm |-> FALSE, r |-> <<>>, hasr |-> FALSE, n |-> -1, skip |-> FALSE,
         p |-> 0, off |-> FALSE, sum |-> FALSE, data |-> 0, list |-> 0, only |-> 0, gaps |-> FALSE, tt |-> <<>>, rt |-> <<>>,
         gmin |-> <<>>, gmax |-> <<>>, ver |-> FALSE, tf |-> -1, b |-> <<>>, o |-> <<>>]
Valued == {"-ts", "-te", "-m", "-r", "-n", "-tt", "-rt", "-gmin", "-gmax", "-tf", "-b", "-o"}
\* decimal numbers: optional sign, digits with at most one point
IsNumber(c) == LET s == IF c # <<>> /\ c[1] = 45 THEN SubSeq(c, 2, Len(c)) ELSE c
               IN /\ \A i \in DOMAIN s : Dig(s[i]) \/ s[i] = 46
                  /\ \E i \in DOMAIN s : Dig(s[i])
                  /\ Cardinality({i \in DOMAIN s : s[i] = 46}) <= 1
\* in units of 10^-j: the largest whole number not above it, and whether it is that number
Scaled(c, j) ==
  LET neg == c[1] = 45
      s == IF neg THEN SubSeq(c, 2, Len(c)) ELSE c
      ps == {i \in DOMAIN s : s[i] = 46}
      at == IF ps = {} THEN Len(s) + 1 ELSE CHOOSE i \in ps : TRUE
      fr == SubSeq(s, at + 1, Len(s)) \o [i \in 1..j |-> 48]
      w == Val(SubSeq(s, 1, at - 1) \o SubSeq(fr, 1, j))
      more == \E i \in (j + 1)..Len(fr) : fr[i] # 48
  IN [fl |-> IF ~neg THEN w ELSE IF more THEN -w - 1 ELSE -w, exact |-> ~more]
IntOf(c) == IF c # <<>> /\ IsNumber(c) THEN LET d == {i \in DOMAIN c : c[i] = 46} IN Val(SubSeq(c, 1, IF d = {} THEN Len(c) ELSE (CHOOSE i \in d : TRUE) - 1)) ELSE 0

\* the names in a list file
RECURSIVE Lines(_)
Lines(b) == LET k == {i \in DOMAIN b : b[i] = 10}
                i == CHOOSE x \in k : \A y \in k : x <= y
            IN IF b = <<>> THEN <<>> ELSE IF k = {} THEN <<b>> ELSE <<SubSeq(b, 1, i - 1)>> \o Lines(SubSeq(b, i + 1, Len(b)))
Names(b) == SelectSeq(Lines(b), LAMBDA l : l # <<>> /\ l[1] # 35)
File(g, p) == LET c == {i \in DOMAIN g.fs : g.fs[i].n = p} IN IF c = {} THEN <<>> ELSE <<g.fs[CHOOSE i \in c : \A j \in c : j <= i].b>>

With(o, a, v) ==
  CASE a = "-ts" -> LET t == Ck!AnyString(v) IN IF t = Ck!Bad THEN [o EXCEPT !.res = "bad"] ELSE [o EXCEPT !.ts = t]
    [] a = "-te" -> LET t == Ck!AnyString(v) IN IF t = Ck!Bad THEN [o EXCEPT !.res = "bad"] ELSE [o EXCEPT !.te = t]
    [] a = "-m" -> [o EXCEPT !.m = v, !.hasm = TRUE]
    [] a = "-r" -> [o EXCEPT !.r = v, !.hasr = TRUE]
    [] a = "-n" -> [o EXCEPT !.n = IntOf(v)]
    [] a = "-tt" -> [o EXCEPT !.tt = v]
    [] a = "-rt" -> [o EXCEPT !.rt = v]
    [] a = "-gmin" -> [o EXCEPT !.gmin = v]
    [] a = "-gmax" -> [o EXCEPT !.gmax = v]
    [] a = "-tf" -> [o EXCEPT !.tf = IntOf(v)]
    [] a = "-b" -> [o EXCEPT !.b = v]
    [] a = "-o" -> [o EXCEPT !.o = v]
Flag(o, a, g) ==
  LET s == a.s
      ps == LET q == {i \in 2..Len(a.c) : a.c[i] # 112} IN (IF q = {} THEN Len(a.c) + 1 ELSE CHOOSE x \in q : \A y \in q : x <= y) - 2
  IN CASE s \in {"-V", "-h"} -> [o EXCEPT !.res = "info"]
       [] s = "-snd" -> [o EXCEPT !.skip = TRUE]
       [] s = "-O" -> [o EXCEPT !.off = TRUE]
       [] s = "-s" -> [o EXCEPT !.sum = TRUE]
       [] s = "-d" -> [o EXCEPT !.data = 1]
       [] s = "-D" -> [o EXCEPT !.data = 2]
       [] s = "-t" -> [o EXCEPT !.list = 1]
       [] s = "-T" -> [o EXCEPT !.only = 1]
       [] s = "-tg" -> IF o.list = 0 THEN [o EXCEPT !.gaps = TRUE, !.only = 1] ELSE [o EXCEPT !.gaps = TRUE]
       [] s = "-g" -> [o EXCEPT !.list = 2]
       [] s = "-G" -> [o EXCEPT !.only = 2]
       [] s = "-S" -> [o EXCEPT !.only = 3]
       [] s \in {"-P", "-Q"} -> [o EXCEPT !.ver = TRUE]
       [] Len(a.c) >= 2 /\ a.c[1] = 45 /\ a.c[2] = 118 -> o  \* -v: more diagnostics
       [] Len(a.c) >= 2 /\ a.c[1] = 45 /\ a.c[2] = 112 -> [o EXCEPT !.p = @ + ps]
       [] Len(a.c) >= 2 /\ a.c[1] = 45 -> [o EXCEPT !.res = "bad"]
       [] Len(a.c) >= 1 /\ a.c[1] = 64 ->
            LET f == File(g, SubSeq(a.c, 2, Len(a.c)))
            IN IF f = <<>> THEN [o EXCEPT !.res = "bad"] ELSE [o EXCEPT !.ins = @ \o Names(f[1])]
       [] OTHER -> [o EXCEPT !.ins = Append(@, a.c)]
RECURSIVE Args(_, _, _)
Args(o, as, g) ==
  IF as = <<>> THEN IF o.res = "run" /\ (o.tf > 2 \/ o.ins = <<>>) THEN [o EXCEPT !.res = "bad"] ELSE o
  ELSE LET a == as[1] IN
       IF a.s \in Valued
       THEN LET v == IF Len(as) > 1 THEN as[2].c ELSE <<45>>
                ok == Len(as) > 1 /\ (v = <<>> \/ v[1] # 45 \/ (a.s = "-o" /\ v = <<45>>) \/ (a.s \in {"-gmin", "-gmax"} /\ IsNumber(v)))
                q == With(o, a.s, v)
            IN IF ~ok THEN [o EXCEPT !.res = "bad"] ELSE IF q.res # "run" THEN q ELSE Args(q, SubSeq(as, 3, Len(as)), g)
       ELSE LET q == Flag(o, a, g) IN IF q.res # "run" THEN q ELSE Args(q, Tail(as), g)

-----------------------------------------------------------------------------
(* Records as the trace list sees them                                         *)
RateOf(g, x) == LET c == {i \in DOMAIN g.rates : CASE x.rate.k = "d" -> g.rates[i].bits = x.rate.v [] x.rate.k = "q" -> g.rates[i].q = x.rate.v [] OTHER -> g.rates[i].f = x.rate.v}
                IN g.rates[CHOOSE i \in c : TRUE]
Units(g, t) == ((t[1] - g.base[1]) * 86400 + (t[2] - g.base[2])) * g.N + (t[3] - g.base[3]) \div (1000000000 \div g.N)
At_(g, u) == C!Norm(g.base[1], g.base[2] + (u \div g.N), g.base[3] + (u % g.N) * (1000000000 \div g.N))
AsRec(g, x) == LET r == RateOf(g, x)
               IN [sid |-> x.sid, pub |-> x.pub, st |-> Units(g, x.t), cnt |-> IntW(x.cnt), per |-> r.per, hz |-> r.hz, ty |-> "0", dat |-> <<>>, loc |-> 0]
EndT(g, x) == At_(g, T!EndOf(AsRec(g, x)))

Around(p) == <<42>> \o p \o <<42>>
Passes(o, g, x) ==
  /\ o.ts = <<>> \/ ~(C!Before(x.t, o.ts) /\ C!Before(EndT(g, x), o.ts))
  /\ o.te = <<>> \/ ~C!Before(o.te, x.t)
  /\ o.hasm => L!Glob(x.sid, Around(o.m))
  /\ o.hasr => ~L!Glob(x.sid, Around(o.r))

(* Reading one input, then the others: [k: records still wanted, -1 unlimited;  *)
(* ps: what was passed; err].  amb: how an input ending before any record ends. *)
RECURSIVE Input(_, _, _, _, _, _)
Input(o, g, c, pos, n, acc) ==
  IF acc.k = 0 THEN acc
  ELSE LET q == Scan(c, pos, n) IN
       IF q.cls # "ok" THEN [acc EXCEPT !.err = ~(q.cls = "eof" \/ (q.cls = "ends" /\ acc.amb))]
       ELSE LET d == IF o.data > 0 \/ o.b # <<>> THEN Samples(q.x, Slice(c.f, q.pos, q.x.len)) ELSE [cls |-> "ok", type |-> "", s |-> <<>>, alt |-> FALSE]
            IN Input(o, g, c, q.pos + q.x.len, q.nrec + 1,
                     IF ~Passes(o, g, q.x) THEN acc
                     ELSE [acc EXCEPT !.k = IF @ > 0 THEN @ - 1 ELSE @,
                                      !.ps = Append(@, [x |-> q.x, pos |-> q.pos, d |-> d, raw |-> Slice(c.f, q.pos, q.x.len)])])
RECURSIVE Inputs(_, _, _, _)
Inputs(o, g, ins, acc) ==
  IF ins = <<>> \/ acc.err THEN acc
  ELSE LET p == PathRange(ins[1])
           f == File(g, p.path)
           c == [f |-> f[1], m |-> MaxRecLen, start |-> p.start, end |-> p.end, skip |-> o.skip, crc |-> TRUE, unpack |-> FALSE, broken |-> FALSE, hassel |-> FALSE, sel |-> <<>>]
       \* once enough records were read the remaining inputs are not opened
       IN IF acc.k = 0 THEN Inputs(o, g, Tail(ins), acc)
          ELSE IF f = <<>> THEN [acc EXCEPT !.err = TRUE]
          ELSE Inputs(o, g, Tail(ins), Input(o, g, c, p.start, 0, acc))
Passed(o, g, amb) == Inputs(o, g, o.ins, [k |-> o.n, ps |-> <<>>, err |-> FALSE, amb |-> amb])

-----------------------------------------------------------------------------
(* Output: a sequence of pieces, each a set of texts                            *)
RateText(g, x) == LET r == RateOf(g, x) IN Nu!G(r.n, r.d, 10)
TimeText(t) == Ck!Fmt(t, 3, 5)
EncText(e) ==
  Txt(CASE e = 0 -> "Text" [] e = 1 -> "16-bit integer" [] e = 2 -> "24-bit integer" [] e = 3 -> "32-bit integer"
        [] e = 4 -> "32-bit float (IEEE single)" [] e = 5 -> "64-bit float (IEEE double)" [] e = 10 -> "STEIM-1 integer compression"
        [] e = 11 -> "STEIM-2 integer compression" [] e = 12 -> "GEOSCOPE Muxed 24-bit integer" [] e = 13 -> "GEOSCOPE Muxed 16/3-bit gain/exp"
        [] e = 14 -> "GEOSCOPE Muxed 16/4-bit gain/exp" [] e = 15 -> "US National Network compression" [] e = 16 -> "CDSN 16-bit gain ranged"
        [] e = 17 -> "Graefenberg 16-bit gain ranged" [] e = 18 -> "IPG - Strasbourg 16-bit gain" [] e = 19 -> "STEIM-3 integer compression"
        [] e = 30 -> "SRO gain ranged" [] e = 31 -> "HGLP" [] e = 32 -> "DWWSSN" [] OTHER -> "?")
HexDigit(i) == IF i < 10 THEN 48 + i ELSE 55 + i
HexText(w) == LET d == <<w[1] \div 4096, (w[1] \div 256) % 16, (w[1] \div 16) % 16, w[1] % 16, w[2] \div 4096, (w[2] \div 256) % 16, (w[2] \div 16) % 16, w[2] % 16>>
                  nz == {i \in 1..8 : d[i] # 0}
                  k == IF nz = {} THEN 8 ELSE CHOOSE i \in nz : \A j \in nz : i <= j
              IN [i \in 1..(9 - k) |-> HexDigit(d[i + k - 1])]
Bits8(v) == [i \in 1..8 |-> 48 + ((v \div (2 ^ (8 - i))) % 2)]
FlagName == <<"Calibration signals present", "Time tag is questionable", "Clock locked">>
One(t) == <<{t}>>
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
\* a document set out: its outer braces left away, a line for every member, two spaces deeper within each level
Blank(n) == [i \in 1..n |-> 32]
Pretty(b, n) ==
  Blank(n)
  \o FoldLeft(LAMBDA a, c :
                IF a.q THEN [a EXCEPT !.s = Append(@, c), !.e = ~a.e /\ c = 92, !.q = a.e \/ c # 34]
                ELSE CASE c = 34 -> [a EXCEPT !.s = Append(@, c), !.q = TRUE]
                       [] c = 58 -> [a EXCEPT !.s = @ \o <<58, 32>>]
                       [] c = 44 -> [a EXCEPT !.s = @ \o <<44, 10>> \o Blank(a.n)]
                       [] c \in {123, 91} -> [a EXCEPT !.n = @ + 2, !.s = @ \o <<c, 10>> \o Blank(a.n + 2)]
                       [] c \in {125, 93} -> [a EXCEPT !.n = @ - 2, !.s = @ \o <<10>> \o Blank(a.n - 2) \o <<c>>]
                       [] OTHER -> [a EXCEPT !.s = Append(@, c)],
              [q |-> FALSE, e |-> FALSE, n |-> n, s |-> <<>>], SubSeq(b, 2, Len(b) - 1)).s
  \o NL
\* the line, or lines, of a record
RecordText(o, g, x) ==
  LET head == IF o.p = 0 THEN <<>> ELSE
              x.sid \o Txt(", version ") \o Nu!IntText(x.pub) \o Txt(", ") \o Nu!IntText(x.len) \o Txt(" bytes (format: ") \o Nu!IntText(x.ver) \o Txt(")") \o NL
              \o Txt("             start time: ") \o TimeText(x.t) \o NL
              \o Txt("      number of samples: ") \o Nu!IntText(IntW(x.cnt)) \o NL
              \o Txt("       sample rate (Hz): ")
      tail == NL
              \o (IF o.p < 2 THEN <<>>
                  ELSE Txt("                  flags: [") \o Bits8(x.flags) \o Txt("] 8 bits") \o NL
                       \o Cat([i \in 1..8 |-> IF (x.flags \div (2 ^ (i - 1))) % 2 = 0 THEN <<>>
                                              ELSE Txt("                         [Bit ") \o <<47 + i>> \o Txt("] ") \o Txt(IF i <= 3 THEN FlagName[i] ELSE "Undefined bit set") \o NL]))
              \o Txt("                    CRC: 0x") \o HexText(x.crc) \o NL
              \o Txt("    extra header length: ") \o Nu!IntText(Len(x.extra)) \o Txt(" bytes") \o NL
              \o Txt("    data payload length: ") \o Nu!IntText(x.dlen) \o Txt(" bytes") \o NL
              \o Txt("       payload encoding: ") \o EncText(x.enc) \o Txt(" (val: ") \o Nu!IntText(x.enc) \o Txt(")") \o NL
              \o (IF o.p < 2 \/ x.extra = <<>> THEN <<>> ELSE Txt("          extra headers:") \o NL \o Pretty(x.extra, 16))
  IN IF o.p = 0
     THEN <<{x.sid \o Txt(", ") \o Nu!IntText(x.pub) \o Txt(", ") \o Nu!IntText(x.len) \o Txt(", ") \o Nu!IntText(IntW(x.cnt)) \o Txt(" samples, ") \o h \o Txt(" Hz, ")
             \o TimeText(x.t) \o NL : h \in RateText(g, x)}>>
     ELSE <<{head \o h \o tail : h \in RateText(g, x)}>>

\* sample values
S32(w) == (IF w[1] >= 32768 THEN w[1] - 65536 ELSE w[1]) * 65536 + w[2]
RECURSIVE Halve(_, _)
Halve(m, e) == IF e < 0 /\ m % 2 = 0 THEN Halve(m \div 2, e + 1) ELSE [m |-> m, e |-> e]
Dyadic(neg, m, e, sig) == \* m * 2^e
  LET h == Halve(m, e) IN IF m = 0 THEN Nu!SignedG(neg, 0, 1, sig) ELSE IF h.e >= 0 THEN Nu!SignedG(neg, h.m * (2 ^ h.e), 1, sig) ELSE Nu!SignedG(neg, h.m, 2 ^ (-h.e), sig)
SampleText(ty, w) ==
  CASE ty = "i" -> {Nu!PadL(Nu!IntText(S32(w)), 10)}
    [] ty = "f" -> LET z == w[1] % 32768 = 0 /\ w[2] = 0
                       e == (w[1] \div 128) % 256
                   IN {Nu!PadL(t, 10) : t \in Dyadic(w[1] >= 32768, IF z THEN 0 ELSE (w[1] % 128) * 65536 + w[2] + 8388608, e - 150, 8)}
    [] ty = "d" -> LET z == w[1] % 32768 = 0 /\ w[2] = 0
                       e == (w[1] \div 16) % 2048
                   IN {Nu!PadL(t, 10) : t \in Dyadic(w[1] >= 32768, IF z THEN 0 ELSE (w[1] % 16) * 65536 + w[2] + 1048576, e - 1043, 10)}
Slot(k, n) == [i \in 1..n |-> k + i]
SampleLines(o, d) ==
  LET n == Len(d.s)
      line(k) == Cat([i \in 1..(IF n - k < 6 THEN n - k ELSE 6) |-> <<{t \o <<32, 32>> : t \in SampleText(d.type, d.s[k + i])}>>]) \o One(NL)
      text == [i \in DOMAIN d.s |-> d.s[i][1]]
  IN IF n = 0 THEN <<>>
     ELSE IF d.type = "t" THEN One(Txt("Text Data:") \o NL) \o One(text \o NL)
     ELSE IF o.data = 1 THEN line(0)
     ELSE Cat([j \in 1..((n \div 6) + 1) |-> line(6 * (j - 1))])
RecordOut(o, g, p) ==
  (IF o.only # 0 THEN <<>>
   ELSE (IF o.off THEN One(Nu!PadR(Nu!IntText(p.pos), 10)) ELSE <<>>) \o RecordText(o, g, p.x)
        \o (IF o.data > 0 /\ p.d.cls = "ok" THEN SampleLines(o, p.d) ELSE <<>>))
  \o (IF o.o = <<45>> THEN One(p.raw) ELSE <<>>)

SummaryText(o, ps) == Txt("Files: ") \o Nu!IntText(Len(o.ins)) \o Txt(", Records: ") \o Nu!IntText(Len(ps)) \o Txt(", Samples: ")
                      \o Nu!IntText(FoldLeft(LAMBDA a, p : a + IntW(p.x.cnt), 0, ps)) \o NL

-----------------------------------------------------------------------------
(* Listings of a trace list                                                     *)
ListOpts(o, g) ==
  [sv |-> o.ver, ah |-> TRUE,
   tt |-> IF o.tt = <<>> THEN -1 ELSE Scaled(o.tt, g.J).fl,
   rt |-> LET r == Scaled(o.rt, g.hzk) IN IF o.rt = <<>> \/ (r.fl <= 0 /\ r.exact) THEN -1 ELSE r.fl,  \* zero or less: the default
   rl |-> FALSE]
Traces(o, g, ps) == FoldLeft(LAMBDA a, p : T!AddRec(a, AsRec(g, p.x), ListOpts(o, g)).tl, <<>>, ps)

HzRate(g, hz) == g.rates[CHOOSE i \in DOMAIN g.rates : g.rates[i].hz = hz]
\* the gap before segment b of segments a and b, no larger an overlap than b's coverage
GapOf(g, a, b) ==
  LET gap == b.st - a.en
      cover == (b.en - b.st) + HzRate(g, b.hz).per
  IN IF gap < 0 /\ -gap > cover THEN -cover ELSE gap
GapText(g, u) ==
  LET day == 86400 * g.N IN
  IF u = 0 THEN {Txt("-0  ")}
  ELSE IF g.J > 4 THEN {Nu!PadR(t, 4) : t \in Nu!G(u, g.N, 4)}  \* hours do not fit the model's integers
  ELSE IF u >= day \/ u <= -day THEN {t \o <<100>> : t \in Nu!F1(u, day)}
  ELSE IF u >= 3600 * g.N \/ u <= -3600 * g.N THEN {t \o <<104>> : t \in Nu!F1(u, 3600 * g.N)}
  ELSE {Nu!PadR(t, 4) : t \in Nu!G(u, g.N, 4)}
Form(o) == CASE o.tf = -1 -> 1 [] o.tf = 0 -> 6 [] o.tf = 1 -> 0 [] o.tf = 2 -> 7
(* How a listing is printed: [form: time format, ss: subseconds, det: rates and counts, gaps, ver: publication versions, gmin, gmax, dcc] *)
Style(o) == [form |-> Form(o), ss |-> 1, det |-> TRUE, gaps |-> o.gaps, ver |-> o.ver, gmin |-> o.gmin, gmax |-> o.gmax, dcc |-> Txt("DCC")]
Stamp(p, g, u) == Ck!Fmt(At_(g, u), p.form, 5)
Sp == <<32>>
Name(p, t) == Nu!PadR(IF p.ver THEN t.sid \o <<35>> \o Nu!IntText(t.pub) ELSE t.sid, 27)

TraceLine(p, g, t, k) ==
  LET sg == t.segs[k]
      r == HzRate(g, sg.hz)
      gp == IF ~p.gaps THEN {<<>>} ELSE IF k = 1 THEN {Txt(" == ")} ELSE GapText(g, GapOf(g, t.segs[k - 1], sg))
      hz == IF ~p.det THEN {<<>>} ELSE {(IF p.gaps THEN Sp ELSE <<>>) \o Nu!PadR(h, 3) \o Sp \o Nu!IntText(sg.cnt) : h \in Nu!G(r.n, r.d, 3)}
      stamps == Nu!PadR(Stamp(p, g, sg.st), 28) \o Sp \o Nu!PadR(Stamp(p, g, sg.en), 28)
  IN {Name(p, t) \o Sp \o stamps \o (IF p.gaps \/ p.det THEN Sp ELSE <<>>) \o x \o h \o NL : x \in gp, h \in hz}
TraceHead == "       SourceID                      Start sample                End sample"
TraceList_(p, g, tl) ==
  One(Txt(TraceHead) \o Txt(IF p.gaps THEN "           Gap" ELSE "") \o Txt(IF ~p.det THEN "" ELSE IF p.gaps THEN "  Hz  Samples" ELSE "           Hz  Samples") \o NL)
  \o Cat([i \in DOMAIN tl |-> [k \in DOMAIN tl[i].segs |-> TraceLine(p, g, tl[i], k)]])
  \o (IF ~p.det THEN <<>>
      ELSE One(Txt("Total: ") \o Nu!IntText(Len(tl)) \o Txt(" trace(s) with ") \o Nu!IntText(FoldLeft(LAMBDA a, t : a + Len(t.segs), 0, tl)) \o Txt(" segment(s)") \o NL))

\* a gap within the limits
Within(p, g, u) ==
  LET lo == Scaled(p.gmin, g.J)
      hi == Scaled(p.gmax, g.J)
  IN (p.gmin = <<>> \/ (IF lo.exact THEN u >= lo.fl ELSE u > lo.fl)) /\ (p.gmax = <<>> \/ u <= hi.fl)
\* pairs of consecutive segments with a gap or overlap to list
GapPairs(p, g, t) == SelectSeq([k \in 1..(Len(t.segs) - 1) |-> k], LAMBDA k : t.segs[k].hz # 0 /\ Within(p, g, GapOf(g, t.segs[k], t.segs[k + 1])))
GapLine(p, g, t, k) ==
  LET a == t.segs[k]
      b == t.segs[k + 1]
      u == GapOf(g, a, b)
      r == HzRate(g, a.hz)
      m == IF u < 0 THEN -u ELSE u
      \* samples missing, or overlapping
      ns == IF u > 0 THEN Nu!G(m - r.per, r.per, 8) ELSE Nu!G(m + r.per, r.per, 8)
  IN {Nu!PadR(t.sid, 27) \o Sp \o Nu!PadR(Stamp(p, g, a.en), 28) \o Sp \o Nu!PadR(Stamp(p, g, b.st), 28) \o Sp \o x \o Sp \o n \o NL : x \in GapText(g, u), n \in ns}
GapList_(p, g, tl) ==
  One(Txt("       SourceID                      Last Sample                 Next Sample          Gap  Samples") \o NL)
  \o Cat([i \in DOMAIN tl |-> LET q == GapPairs(p, g, tl[i]) IN [j \in DOMAIN q |-> GapLine(p, g, tl[i], q[j])]])
  \o One(Txt("Total: ") \o Nu!IntText(FoldLeft(LAMBDA a, t : a + Len(GapPairs(p, g, t)), 0, tl)) \o Txt(" gap(s)") \o NL)

YearDay(t) == LET f == C!Fields(t) IN C!Digits(f.year, 4) \o <<44>> \o C!Digits(f.doy, 3)
SyncLine(p, g, t, sg, yd) ==
  LET n == IF I!Known(t.sid) THEN I!Split(t.sid) ELSE [n |-> <<>>, s |-> <<>>, l |-> <<>>, c |-> <<>>]
      r == HzRate(g, sg.hz)
      bar == <<124>>
  IN {n.n \o bar \o n.s \o bar \o n.l \o bar \o n.c \o bar \o Ck!Fmt(At_(g, sg.st), 6, p.ss) \o bar \o Ck!Fmt(At_(g, sg.en), 6, p.ss) \o bar \o bar
      \o h \o bar \o Nu!IntText(sg.cnt) \o Txt("|||||||") \o yd \o NL : h \in Nu!G(r.n, r.d, 10)}
SyncList_(p, g, tl, yd) ==
  One(p.dcc \o <<124>> \o yd \o NL) \o Cat([i \in DOMAIN tl |-> [k \in DOMAIN tl[i].segs |-> SyncLine(p, g, tl[i], tl[i].segs[k], yd)]])

Listings(o, g, ps, yd) ==
  LET tl == Traces(o, g, ps)
      p == Style(o)
  IN (IF o.list = 1 \/ o.only = 1 THEN TraceList_(p, g, tl) ELSE <<>>)
     \o (IF o.list = 2 \/ o.only = 2 THEN GapList_(p, g, tl) ELSE <<>>)
     \o (IF o.only = 3 THEN SyncList_(p, g, tl, yd) ELSE <<>>)

-----------------------------------------------------------------------------
\* decoded samples as bytes of this host's order
Byte2(w) == <<w % 256, w \div 256>>
SampleBytes(d) ==
  Cat([i \in DOMAIN d.s |-> IF d.type = "t" THEN d.s[i] ELSE Cat([j \in DOMAIN d.s[i] |-> Byte2(d.s[i][Len(d.s[i]) + 1 - j])])])

(* A run: [exit, out (pieces), raw and bin (what the output files hold)]        *)
Run(o, g, yd, amb) ==
  IF o.res # "run" THEN [exit |-> IF o.res = "info" THEN 0 ELSE 1, out |-> <<>>, raw |-> <<>>, bin |-> <<>>, files |-> FALSE]
  ELSE LET q == Passed(o, g, amb)
           bad == \E i \in DOMAIN q.ps : q.ps[i].d.cls # "ok"
           body == Cat([i \in DOMAIN q.ps |-> RecordOut(o, g, q.ps[i])])
       IN [exit |-> IF q.err \/ bad THEN 1 ELSE 0, files |-> TRUE,
           out |-> IF q.err THEN body
                   ELSE body \o (IF o.sum THEN One(SummaryText(o, q.ps)) ELSE <<>>) \o Listings(o, g, q.ps, yd),
           raw |-> IF o.o = <<45>> THEN <<>> ELSE Cat([i \in DOMAIN q.ps |-> q.ps[i].raw]),
           bin |-> Cat([i \in DOMAIN q.ps |-> IF q.ps[i].d.cls = "ok" THEN SampleBytes(q.ps[i].d) ELSE <<>>])]

\* where the pieces fall short of the text: 0 when they make up the whole of it
RECURSIVE Fits_(_, _, _, _)
Fits_(out, at, ps, k) ==
  IF k > Len(ps) THEN IF at = Len(out) + 1 THEN 0 ELSE k
  ELSE LET c == {t \in ps[k] : at + Len(t) - 1 <= Len(out) /\ SubSeq(out, at, at + Len(t) - 1) = t}
       IN IF c = {} THEN k
          ELSE IF Cardinality(c) = 1 THEN Fits_(out, at + Len(CHOOSE t \in c : TRUE), ps, k + 1)
          ELSE LET r == {Fits_(out, at + Len(t), ps, k + 1) : t \in c} IN IF 0 \in r THEN 0 ELSE CHOOSE x \in r : \A y \in r : x >= y
=============================================================================
