--------------------------------- MODULE Clock ---------------------------------
(* Calendar fields, time strings and instants.                                  *)
EXTENDS Cal, SequencesExt, FiniteSetsExt, TLC

----------------------------------------------------------------------------
(* Decimal text of large values: of an instant's magnitude in seconds and ns   *)
Neg(t) == t[1] < 0
Mag(t) == IF Neg(t) THEN Norm(-t[1], -t[2], -t[3]) ELSE t
Strip(s) == LET k == {i \in DOMAIN s : \A j \in 1..(i - 1) : s[j] = 48} IN SubSeq(s, Min({Max(k), Len(s)}), Len(s))
Secs(m) == Strip(Dec(m[1] * 864 + (m[2] \div 100)) \o Digits(m[2] % 100, 2))
Sign(t) == IF Neg(t) THEN <<45>> ELSE <<>>

\* formats: 0..8 as numbered by the library; subseconds 0..6
NoFrac == 0
\* digits of the fraction to show for ns nanoseconds of which us are whole microseconds
FracDigits(ss, ns) ==
  CASE ss = 0 -> 0 [] ss = 1 -> 6 [] ss = 2 -> 9
    [] ss = 3 -> IF ns \div 1000 = 0 THEN 0 ELSE 6
    [] ss = 4 -> IF ns = 0 THEN 0 ELSE 9
    [] ss = 5 -> IF ns % 1000 = 0 THEN 6 ELSE 9
    [] ss = 6 -> IF ns = 0 THEN 0 ELSE IF ns % 1000 = 0 THEN 6 ELSE 9
FracText(ss, ns) == LET k == FracDigits(ss, ns) IN
                    IF k = 0 THEN <<>> ELSE <<46>> \o (IF k = 6 THEN Digits(ns \div 1000, 6) ELSE Digits(ns, 9))
HMS(f) == Digits(f.hour, 2) \o <<58>> \o Digits(f.min, 2) \o <<58>> \o Digits(f.sec, 2)
Fmt(t, form, ss) ==
  LET f == Fields(t)
      m == MonthOf(f.year, f.doy)
      ymd == Digits(f.year, 4) \o <<45>> \o Digits(m, 2) \o <<45>> \o Digits(f.doy - MonthStart(f.year, m), 2)
      fr == FracText(ss, t[3])
      doy == <<32, 40>> \o Digits(f.doy, 3) \o <<41>>
      g == Mag(t)
  IN CASE form \in 0..1 -> ymd \o <<84>> \o HMS(f) \o fr \o (IF form = 1 THEN <<90>> ELSE <<>>)
       [] form \in 2..3 -> ymd \o <<84>> \o HMS(f) \o fr \o (IF form = 3 THEN <<90>> ELSE <<>>) \o doy
       [] form \in 4..5 -> ymd \o <<32>> \o HMS(f) \o fr \o (IF form = 5 THEN <<90>> ELSE <<>>)
       [] form = 6 -> Digits(f.year, 4) \o <<44>> \o Digits(f.doy, 3) \o <<44>> \o HMS(f) \o fr
       [] form = 7 -> \* a negative value with neither whole seconds nor a fraction shown may go without its sign
                      LET x == Secs(g) \o FracText(ss, g[3]) IN Sign(t) \o x
       [] form = 8 -> Sign(t) \o Strip(Secs(g) \o Digits(g[3], 9))
FmtOk(t, form, ss, str) ==
  LET w == Fmt(t, form, ss)
  IN str = w \/ (form = 7 /\ w = <<45, 48>> /\ str = <<48>>)

----------------------------------------------------------------------------
(* Reading strings *)
IsDigit(c) == c \in 48..57
IsSpace(c) == c = 32 \/ c \in 9..13
ChAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* end of the run of characters in the set that starts at i
RunEnd(s, i, set) == LET K == {k \in i..Len(s) : s[k] \notin set} IN IF K = {} THEN Len(s) + 1 ELSE Min(K)
Dig == 48..57
Spaces == {32} \cup 9..13
Val(d) == FoldLeft(LAMBDA a, c : IF a > 99999999 THEN a ELSE a * 10 + (c - 48), 0, d)
ScanInt(s, i0) ==
  LET i == RunEnd(s, i0, Spaces)
      neg == ChAt(s, i) = 45
      j == IF ChAt(s, i) \in {43, 45} THEN i + 1 ELSE i
      k == RunEnd(s, j, Dig)
      v == Val(SubSeq(s, j, k - 1))
  IN [ok |-> k > j, v |-> IF neg THEN -v ELSE v, i |-> k]
\* nanoseconds of a fraction ".ddd", to the nearest; "tie": the tenth digit decides and more is not stated
FracNs(d) == Val(SubSeq(d \o [q \in 1..9 |-> 48], 1, 9)) + (IF Len(d) > 9 /\ d[10] >= 53 THEN 1 ELSE 0)
\* what follows the seconds: nothing, a fraction, text that is no number - or a number that is no fraction,
\* which is refused.  ok: "yes", "no", or "open" for signed, spaced or scaled fractions, of which nothing is said
ScanFrac(s, i) ==
  LET j == RunEnd(s, i + 1, Dig)
      b == RunEnd(s, i, Spaces)
      g == IF ChAt(s, b) \in {43, 45} THEN b + 1 ELSE b
      n == ScanInt(s, i)
  IN IF ChAt(s, i) = 46 /\ j > i + 1
     THEN [ok |-> IF ChAt(s, j) \in {69, 101} THEN "open" ELSE "yes", ns |-> FracNs(SubSeq(s, i + 1, j - 1))]
     ELSE [ns |-> 0,
           ok |-> IF g > i /\ ChAt(s, g) = 46 /\ IsDigit(ChAt(s, g + 1)) THEN "open"
                  ELSE IF ~n.ok THEN "yes"
                  ELSE IF n.v # 0 THEN "no"
                  ELSE IF ChAt(s, n.i) \in {46, 69, 88, 101, 120} THEN "open" ELSE "yes"]

DateSep == {45, 44, 47, 58, 46}
SeedSep == {45, 44, 58, 46}
\* fields separated by runs of separators; seps[k] precedes field k+1
ScanFields(s, seps) ==
  FoldLeft(LAMBDA a, sep :
      IF ~a.go THEN a
      ELSE LET j == IF sep = {} THEN a.i ELSE RunEnd(s, a.i, sep)
               x == ScanInt(s, j)
           IN IF (sep # {} /\ j = a.i) \/ ~x.ok THEN [a EXCEPT !.go = FALSE]
              ELSE [a EXCEPT !.v = Append(@, x.v), !.i = x.i],
    [v |-> <<>>, i |-> 1, go |-> TRUE], seps)
Bad == <<>>
Open == <<0>>
Made(y, doy, h, mi, sec, ns) ==
  LET t == Instant(y, doy, h, mi, sec, ns) IN IF InRange(t) THEN t ELSE Bad
Fraction(s, f, n) == IF Len(f.v) = n THEN ScanFrac(s, f.i) ELSE [ok |-> "yes", ns |-> 0]
Or(v, k, dflt) == IF k <= Len(v) THEN v[k] ELSE dflt
MonthDay(s) ==
  LET f == ScanFields(s, <<{}, DateSep, DateSep, DateSep \cup {84, 116, 32}, DateSep, DateSep>>)
      x == Fraction(s, f, 6)
      y == Or(f.v, 1, 0)
      m == Or(f.v, 2, 1)
      d == Or(f.v, 3, 1)
  IN IF f.v = <<>> \/ ~ValidYear(y) \/ m \notin 1..12 THEN Bad
     ELSE IF d \notin 1..MonthLen(y, m) \/ ~ValidClock(Or(f.v, 4, 0), Or(f.v, 5, 0), Or(f.v, 6, 0)) \/ x.ok = "no" \/ x.ns > 999999999 THEN Bad
     ELSE IF x.ok = "open" THEN Open
     ELSE Made(y, MonthStart(y, m) + d, Or(f.v, 4, 0), Or(f.v, 5, 0), Or(f.v, 6, 0), x.ns)
Ordinal(s) ==
  LET f == ScanFields(s, <<{}, SeedSep, SeedSep \cup {84, 116, 32}, SeedSep, SeedSep>>)
      x == Fraction(s, f, 5)
      y == Or(f.v, 1, 0)
      d == Or(f.v, 2, 1)
  IN IF f.v = <<>> \/ ~ValidYear(y) THEN Bad
     ELSE IF ~ValidYearDay(y, d) \/ ~ValidClock(Or(f.v, 3, 0), Or(f.v, 4, 0), Or(f.v, 5, 0)) \/ x.ok = "no" \/ x.ns > 999999999 THEN Bad
     ELSE IF x.ok = "open" THEN Open
     ELSE Made(y, d, Or(f.v, 3, 0), Or(f.v, 4, 0), Or(f.v, 5, 0), x.ns)

\* seconds written in decimal, as days and seconds
DaySec(d) == FoldLeft(LAMBDA a, c : LET r == a[2] * 10 + (c - 48) IN IF a[1] > 10000000 THEN a ELSE <<a[1] * 10 + (r \div 86400), r % 86400>>, <<0, 0>>, d)
Epoch(s) ==
  LET j == IF ChAt(s, 1) \in {43, 45} THEN 2 ELSE 1
      k == RunEnd(s, j, Dig)
      q == DaySec(SubSeq(s, j, k - 1))
      e == RunEnd(s, k + 1, Dig)
      ns == IF ChAt(s, k) = 46 /\ e > k + 1 THEN FracNs(SubSeq(s, k + 1, e - 1)) ELSE 0
  IN IF k = j THEN Bad
     ELSE IF q[1] > Latest[1] \/ (q[1] = Latest[1] /\ q[2] >= Latest[2]) THEN Bad
     ELSE IF ChAt(s, 1) = 45 THEN Norm(-q[1], -q[2], -ns) ELSE Norm(q[1], q[2], ns)

\* any of the layouts
Separators == {45, 47, 44, 58, 46}
AnyString(s) ==
  LET zed == s # <<>> /\ s[Len(s)] \in {90, 122}
      body == IF zed THEN SubSeq(s, 1, Len(s) - 1) ELSE s
      sepAt == {i \in DOMAIN body : body[i] \in {84, 32}}
      sep == IF sepAt = {} THEN Len(body) + 1 ELSE Min(sepAt)
      okch == \A i \in DOMAIN body : body[i] \in Separators \cup Dig \/ (i = 1 /\ body[i] = 43) \/ i = sep
      delims == {i \in DOMAIN body : body[i] \in Separators}
      first == IF delims = {} THEN 0 ELSE body[Min(delims)]
      before == Cardinality({i \in delims : i < sep})
      numlike == ~zed /\ \A i \in DOMAIN body : body[i] \in Dig \cup {46} \/ (i = 1 /\ body[i] \in {43, 45})
  IN IF ~okch THEN Bad
     ELSE IF numlike /\ (Len(s) # 4 \/ ChAt(s, 1) \in {43, 45}) THEN Epoch(s)
     ELSE IF Len(s) < 4 \/ Len(s) > 32 THEN Bad
     ELSE IF first \in {45, 47} /\ before = 2 THEN MonthDay(s)
     ELSE IF first = 45 /\ before = 1 THEN Ordinal(s)
     ELSE IF first = 44 THEN Ordinal(s)
     ELSE IF first = 0 /\ Len(s) = 4 /\ sepAt = {} THEN Ordinal(s)
     ELSE Bad
\* the instant that stands for an error
ErrorTime == <<-24837, 0, 0>>
Parsed(s, how) == CASE how = "any" -> AnyString(s) [] how = "md" -> MonthDay(s) [] OTHER -> Ordinal(s)
Joined(y, d, h, mi, sec, ns) ==
  IF ValidYear(y) /\ ValidYearDay(y, d) /\ ValidClock(h, mi, sec) /\ ns \in 0..999999999 THEN Made(y, d, h, mi, sec, ns) ELSE Bad
=============================================================================
