--------------------------------- MODULE Cal ----------------------------------
(* The calendar.  An instant is <<day, sec, ns>>: days since 1970-01-01, second *)
(* of that day, nanosecond of that second.                                      *)
EXTENDS Integers, Sequences

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
\* days from 1970-01-01 to January 1st of year y
YearStart(y) == 365 * (y - 1970) + ((y - 1969) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
\* days of the year before month m
MonthStart(y, m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)

ValidYear(y) == y >= 1678 /\ y <= 2262
ValidYearDay(y, d) == d >= 1 /\ d <= YearLen(y)
ValidClock(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..60

\* normalised instant
Norm(day, sec, ns) ==
  LET s == sec + (ns \div 1000000000)
  IN <<day + (s \div 86400), s % 86400, ns % 1000000000>>
Instant(y, doy, h, mi, s, ns) == Norm(YearStart(y) + doy - 1, h * 3600 + mi * 60 + s, ns)
AddNs(t, ns) == Norm(t[1], t[2], t[3] + ns)
AddSec(t, s) == Norm(t[1], t[2] + s, t[3])

\* the last instant that fits the nanosecond count: 2262-04-11T23:47:16.854775807
Latest == <<106751, 85636, 854775807>>
InRange(t) == t[1] < Latest[1] \/ (t[1] = Latest[1] /\ (t[2] < Latest[2] \/ (t[2] = Latest[2] /\ t[3] <= Latest[3])))
\* back to calendar fields
YearOf(day) == LET g == 1970 + (day \div 366) IN
  LET c == {y \in (g - 1)..(g + 2) : YearStart(y) <= day /\ day < YearStart(y + 1)}
  IN CHOOSE y \in c : TRUE
Fields(t) == LET y == YearOf(t[1]) IN
  [year |-> y, doy |-> t[1] - YearStart(y) + 1, hour |-> t[2] \div 3600, min |-> (t[2] \div 60) % 60, sec |-> t[2] % 60, nsec |-> t[3]]
MonthOf(y, doy) == LET g == 1 + ((doy - 1) \div 31) IN IF g < 12 /\ MonthStart(y, g + 1) < doy THEN g + 1 ELSE g

Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

\* decimal digits as character codes, padded to width w
RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN <<>> ELSE Append(Digits(n \div 10, w - 1), 48 + (n % 10))
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
\* "YYYY-MM-DDThh:mm:ss" with the given fractional digits and suffix
IsoMonthDay(t, frac, tail) ==
  LET f == Fields(t)
      m == MonthOf(f.year, f.doy)
  IN Digits(f.year, 4) \o <<45>> \o Digits(m, 2) \o <<45>> \o Digits(f.doy - MonthStart(f.year, m), 2) \o <<84>>
     \o Digits(f.hour, 2) \o <<58>> \o Digits(f.min, 2) \o <<58>> \o Digits(f.sec, 2) \o frac \o tail
\* fraction as many digits as needed: none, six or nine
NanoMicroNone(t) == IF t[3] = 0 THEN <<>>
                    ELSE IF t[3] % 1000 = 0 THEN <<46>> \o Digits(t[3] \div 1000, 6)
                    ELSE <<46>> \o Digits(t[3], 9)
IsoZ(t) == IsoMonthDay(t, NanoMicroNone(t), <<90>>)
=============================================================================
