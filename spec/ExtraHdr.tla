------------------------------- MODULE ExtraHdr -------------------------------
(* Extra headers: a JSON document addressed by pointers, stored with a record   *)
(* as text, and optionally held open for several operations.                    *)
EXTENDS Clock

----------------------------------------------------------------------------
(* A value: kind t, content v, length of its text z, members m.                 *)
(*   "o" object, members by name          "a" array, members by <<index>>       *)
(*   "s" text (UTF-8)   "i" whole number, v its digits   "r" real, v its 64 bits *)
(*   "b" <<0>> or <<1>>    "n" null       "!" not JSON at all                   *)
(* z = -1: has no JSON form (NaN, infinite, not UTF-8)                          *)
(* A long text of n letters x is written <<-n>>.                                *)
None == [x \in {} |-> 0]
Leaf(t, v, z) == [t |-> t, v |-> v, z |-> z, m |-> None]
Nul == Leaf("n", <<>>, 4)
Obj(m) == [t |-> "o", v |-> <<>>, z |-> 0, m |-> m]
Arr(s) == [t |-> "a", v |-> <<>>, z |-> 0, m |-> [k \in {<<i - 1>> : i \in 1..Len(s)} |-> s[k[1] + 1]]]
Whole(k) == LET v == Dec(k) IN Leaf("i", v, Len(v))
Real(w) == Leaf("r", w, 0)
Flag(b) == Leaf("b", IF b THEN <<1>> ELSE <<0>>, IF b THEN 4 ELSE 5)
Members(n) == Cardinality(DOMAIN n.m)

\* length of the text of a string: quotes and escapes
CharSize(c) == IF c \in {34, 92, 8, 9, 10, 12, 13} THEN 2 ELSE IF c < 32 THEN 6 ELSE 1
TextSize(k) == IF k # <<>> /\ k[1] < 0 THEN 2 - k[1] ELSE FoldLeft(LAMBDA a, c : a + CharSize(c), 2, k)
Text(k) == Leaf("s", k, TextSize(k))

\* has the document a JSON form
RECURSIVE HasForm(_)
HasForm(n) == n.z >= 0 /\ \A k \in DOMAIN n.m : HasForm(n.m[k])
\* length of the compact text (a real number taking rl characters)
RECURSIVE Size(_, _)
Size(n, rl) ==
  IF n.t = "r" THEN rl
  ELSE IF n.t \notin {"o", "a"} THEN n.z
  ELSE 2 + (IF Members(n) > 1 THEN Members(n) - 1 ELSE 0)
         + FoldLeft(LAMBDA a, k : a + Size(n.m[k], rl) + (IF n.t = "o" THEN TextSize(k) + 1 ELSE 0), 0, SetToSeq(DOMAIN n.m))
Most == 65535
\* may, must a document be refused
MayRefuse(d) == ~HasForm(d) \/ Size(d, 24) > Most
MustRefuse(d) == ~HasForm(d) \/ Size(d, 3) > Most

----------------------------------------------------------------------------
(* Pointers *)
\* the tokens of a pointer; ok: well formed
Unescape(t) ==
  FoldLeft(LAMBDA a, c :
             IF ~a.ok THEN a
             ELSE IF a.esc THEN (IF c = 48 THEN [a EXCEPT !.s = Append(@, 126), !.esc = FALSE]
                                 ELSE IF c = 49 THEN [a EXCEPT !.s = Append(@, 47), !.esc = FALSE]
                                 ELSE [a EXCEPT !.ok = FALSE])
             ELSE IF c = 126 THEN [a EXCEPT !.esc = TRUE]
             ELSE [a EXCEPT !.s = Append(@, c)],
           [ok |-> TRUE, esc |-> FALSE, s |-> <<>>], t)
Pointer(p) ==
  IF p = <<>> THEN [ok |-> TRUE, toks |-> <<>>]
  ELSE IF p[1] # 47 THEN [ok |-> FALSE, toks |-> <<>>]
  ELSE LET parts == FoldLeft(LAMBDA a, c : IF c = 47 THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)], <<>>, p)
           us == [i \in DOMAIN parts |-> Unescape(parts[i])]
       IN [ok |-> \A i \in DOMAIN us : us[i].ok /\ ~us[i].esc, toks |-> [i \in DOMAIN us |-> us[i].s]]
\* the element of an array a token names
Index(t) ==
  IF t # <<>> /\ Len(t) <= 6 /\ (\A i \in DOMAIN t : t[i] \in 48..57) /\ (t[1] # 48 \/ Len(t) = 1)
  THEN <<FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, t)>> ELSE <<-1>>
Key(n, t) == IF n.t = "a" THEN Index(t) ELSE t
HasKey(n, t) == n.t \in {"o", "a"} /\ Key(n, t) \in DOMAIN n.m

\* lookup: a sequence of at most one value
Get(doc, toks) == FoldLeft(LAMBDA a, t : IF a = <<>> \/ ~HasKey(a[1], t) THEN <<>> ELSE <<a[1].m[Key(a[1], t)]>>, doc, toks)

Put(n, k, x) == [n EXCEPT !.m = [j \in DOMAIN n.m \cup {k} |-> IF j = k THEN x ELSE n.m[j]]]
Drop(n, k) == [n EXCEPT !.m = [j \in DOMAIN n.m \ {k} |-> n.m[j]]]
Chain(toks, x) == FoldRight(LAMBDA t, a : Obj([k \in {t} |-> a]), toks, x)
\* replace or create: objects missing on the way are created, elements of arrays are not
RECURSIVE Set(_, _, _)
Set(n, toks, x) ==
  IF toks = <<>> THEN <<x>>
  ELSE LET t == Head(toks) IN
       IF HasKey(n, t) THEN LET r == Set(n.m[Key(n, t)], Tail(toks), x) IN IF r = <<>> THEN <<>> ELSE <<Put(n, Key(n, t), r[1])>>
       ELSE IF n.t = "o" THEN <<Put(n, t, Chain(Tail(toks), x))>>
       ELSE <<>>
\* in a document (at most one value): nothing there yet
SetIn(doc, toks, x) == IF doc = <<>> THEN (IF toks = <<>> THEN <<>> ELSE <<Chain(toks, x)>>) ELSE Set(doc[1], toks, x)
\* add to the end of an array, which is made if there is nothing there
AppendIn(doc, toks, x) ==
  LET g == Get(doc, toks)
  IN IF g = <<>> THEN SetIn(doc, toks, Arr(<<x>>))
     ELSE IF g[1].t # "a" THEN <<>>
     ELSE SetIn(doc, toks, Put(g[1], <<Members(g[1])>>, x))
\* RFC 7386
RECURSIVE Merge(_, _)
Merge(n, p) ==
  IF p.t # "o" THEN p
  ELSE LET b == IF n.t = "o" THEN n ELSE Obj(None)
           keep == {k \in DOMAIN b.m : k \notin DOMAIN p.m}
           put == {k \in DOMAIN p.m : p.m[k].t # "n"}
       IN Obj([k \in keep \cup put |-> IF k \in keep THEN b.m[k] ELSE Merge(IF k \in DOMAIN b.m THEN b.m[k] ELSE Nul, p.m[k])])
MergeIn(doc, toks, p) == IF Get(doc, toks) = <<>> THEN <<>> ELSE SetIn(doc, toks, Merge(Get(doc, toks)[1], p))

----------------------------------------------------------------------------
(* Operations: the record's stored document, and states held by the program.    *)
(* h: held at all; doc: as last seen or changed; w: has changes to store        *)
Closed == [h |-> FALSE, doc |-> <<>>, w |-> "no"]
Seen(stored, p) == IF p.h THEN p.doc ELSE stored
\* what a change makes of a document: "set", "app", "mrg"
Change(doc, kind, p, x) ==
  IF ~p.ok THEN <<>>
  ELSE CASE kind = "set" -> IF p.toks = <<>> THEN <<>> ELSE SetIn(doc, p.toks, x)
         [] kind = "app" -> IF p.toks = <<>> THEN <<>> ELSE AppendIn(doc, p.toks, x)
         [] kind = "mrg" -> MergeIn(doc, p.toks, x)

\* kinds of value a reader may ask for: "" only asks if there is one
Fits0(x, ty) == CASE ty = "n" -> x.t \in {"i", "r"} [] ty = "i" -> x.t = "i" [] ty = "s" -> x.t = "s" [] ty = "b" -> x.t = "b" [] OTHER -> TRUE
\* a text as far as its first NUL and the reader's room for n bytes with a NUL
Cut(v, n) ==
  IF v # <<>> /\ v[1] < 0 THEN [i \in 1..Min({-v[1], n - 1}) |-> 120]
  ELSE LET z == {i \in DOMAIN v : v[i] = 0} IN SubSeq(v, 1, Min({Len(v), n - 1} \cup {i - 1 : i \in z}))

----------------------------------------------------------------------------
(* Values added by name *)
Ascii == " !.#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
CodeOf(ch) == IF \E i \in 1..Len(Lower) : SubSeq(Lower, i, i) = ch THEN 96 + (CHOOSE i \in 1..Len(Lower) : SubSeq(Lower, i, i) = ch)
              ELSE 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch)
C(str) == [i \in 1..Len(str) |-> CodeOf(SubSeq(str, i, i))]
Names == [x \in {"Type", "SignalAmplitude", "SignalPeriod", "BackgroundEstimate", "Wave", "Units", "OnsetTime", "MEDSNR", "MEDLookback", "MEDPickAlgorithm",
                 "Detector", "BeginTime", "EndTime", "Steps", "StepFirstPulsePositive", "StepAlternateSign", "Trigger", "Continued", "Amplitude", "InputUnits",
                 "AmplitudeRange", "Duration", "SinePeriod", "StepBetween", "InputChannel", "ReferenceAmplitude", "Coupling", "Rolloff", "Noise", "Time",
                 "VCOCorrection", "ReceptionQuality", "Count", "ClockStatus", "FDSN", "Event", "Detection", "Calibration", "Sequence", "Exception", "Recenter"} |-> C(x)]
\* members that are included, from <<name, values>> with at most one value each
Struct(fs) == LET in == {i \in DOMAIN fs : fs[i][2] # <<>>}
              IN Obj([k \in {Names[fs[i][1]] : i \in in} |-> fs[CHOOSE i \in in : Names[fs[i][1]] = k][2][1]])
T1(v) == IF v = <<>> THEN <<>> ELSE <<Text(v)>>
R1(w) == IF w[2] = 0 /\ w[3] = 0 /\ w[4] = 0 /\ w[1] \in {0, 32768} THEN <<>> ELSE <<Real(w)>>
I1(k) == IF k < 0 THEN <<>> ELSE <<Whole(k)>>
B1(k) == IF k < 0 THEN <<>> ELSE <<Flag(k # 0)>>
When1(t) == IF t = <<>> THEN <<>> ELSE <<Text(Fmt(t[1], 1, 6))>>
Event1(e) ==
  Struct(<< <<"Type", T1(e.type)>>, <<"SignalAmplitude", R1(e.amp)>>, <<"SignalPeriod", R1(e.per)>>, <<"BackgroundEstimate", R1(e.bg)>>, <<"Wave", T1(e.wave)>>,
            <<"Units", T1(e.units)>>, <<"OnsetTime", When1(e.on)>>, <<"MEDSNR", IF \A i \in 1..6 : e.snr[i] = 0 THEN <<>> ELSE <<Arr([i \in 1..6 |-> Whole(e.snr[i])])>> >>,
            <<"MEDLookback", I1(e.lb)>>, <<"MEDPickAlgorithm", I1(e.pa)>>, <<"Detector", T1(e.det)>> >>)
Calibration1(e) ==
  Struct(<< <<"Type", T1(e.type)>>, <<"BeginTime", When1(e.bt)>>, <<"EndTime", When1(e.et)>>, <<"Steps", I1(e.steps)>>, <<"StepFirstPulsePositive", B1(e.fpp)>>,
            <<"StepAlternateSign", B1(e.as)>>, <<"Trigger", T1(e.trig)>>, <<"Continued", B1(e.cont)>>, <<"Amplitude", R1(e.amp)>>, <<"InputUnits", T1(e.iu)>>,
            <<"AmplitudeRange", T1(e.ar)>>, <<"Duration", R1(e.dur)>>, <<"SinePeriod", R1(e.sp)>>, <<"StepBetween", R1(e.sb)>>, <<"InputChannel", T1(e.ic)>>,
            <<"ReferenceAmplitude", R1(e.ra)>>, <<"Coupling", T1(e.cp)>>, <<"Rolloff", T1(e.ro)>>, <<"Noise", T1(e.no)>> >>)
Exception1(e) ==
  Struct(<< <<"Time", When1(e.tm)>>, <<"VCOCorrection", IF e.vco[1] > 32768 THEN <<>> ELSE <<Real(e.vco)>> >>, <<"ReceptionQuality", I1(e.rq)>>,
            <<"Count", IF e.cnt = 0 THEN <<>> ELSE <<Whole(e.cnt)>> >>, <<"Type", T1(e.type)>>, <<"ClockStatus", T1(e.cs)>> >>)
Recenter1(e) ==
  Struct(<< <<"Type", T1(e.type)>>, <<"BeginTime", When1(e.bt)>>, <<"EndTime", When1(e.et)>>, <<"Trigger", T1(e.trig)>> >>)
Usual(k) == CASE k = "ev" -> <<Names["FDSN"], Names["Event"], Names["Detection"]>>
              [] k = "cal" -> <<Names["FDSN"], Names["Calibration"], Names["Sequence"]>>
              [] k = "tex" -> <<Names["FDSN"], Names["Time"], Names["Exception"]>>
              [] k = "rec" -> <<Names["FDSN"], Names["Recenter"], Names["Sequence"]>>
Named(k, e) == CASE k = "ev" -> Event1(e) [] k = "cal" -> Calibration1(e) [] k = "tex" -> Exception1(e) [] k = "rec" -> Recenter1(e)

----------------------------------------------------------------------------
(* The listing: the text of the document without its outer braces, set out with *)
(* white space between its parts.                                               *)
Bare(b) == \* without white space outside strings
  FoldLeft(LAMBDA a, c :
             IF a.q THEN (IF a.e THEN [a EXCEPT !.s = Append(@, c), !.e = FALSE]
                          ELSE [a EXCEPT !.s = Append(@, c), !.e = (c = 92), !.q = (c # 34)])
             ELSE IF c \in {32, 10, 9, 13} THEN a
             ELSE [a EXCEPT !.s = Append(@, c), !.q = (c = 34)],
           [q |-> FALSE, e |-> FALSE, s |-> <<>>], b).s
\* nothing but white space was added, and every line of a compact text is set in by at least n
Listed(extra, out, n) ==
  /\ Bare(out) = Bare(SubSeq(extra, 2, Len(extra) - 1))
  /\ out # <<>> /\ out[Len(out)] = 10
  /\ Bare(extra) = extra => \A i \in 0..(Len(out) - 1) : (i = 0 \/ out[Max({i, 1})] = 10) => \A j \in 1..n : i + j <= Len(out) /\ out[i + j] = 32
=============================================================================
