-------------------------------- MODULE MCCal ---------------------------------
(* The calendar arithmetic against a calendar that is turned page by page over  *)
(* the whole supported range, and the layouts of times against their reading.   *)
EXTENDS Clock

CONSTANTS Final,  \* last day to visit
          Begin,  \* first days of years to start from: (year - 1600) * 10^6 + day + 200000; the walks meet
          Every  \* layouts are checked on every Every-th day
VARIABLES day, y, m, d, doy
vars == <<day, y, m, d, doy>>
\* 1678-01-01
Init == (\E b \in Begin : y = 1600 + (b \div 1000000) /\ day = (b % 1000000) - 200000) /\ m = 1 /\ d = 1 /\ doy = 1
Long == {1, 3, 5, 7, 8, 10, 12}
Days == IF m = 2 THEN (IF y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0) THEN 29 ELSE 28) ELSE IF m \in Long THEN 31 ELSE 30
Next == /\ day < Final
        /\ day' = day + 1
        /\ IF d < Days THEN d' = d + 1 /\ UNCHANGED <<y, m>> /\ doy' = doy + 1
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y /\ doy' = doy + 1
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1 /\ doy' = 1
Spec == Init /\ [][Next]_vars

Turned == /\ YearStart(y) + doy - 1 = day
          /\ YearOf(day) = y
          /\ MonthOf(y, doy) = m
          /\ MonthStart(y, m) + d = doy
          /\ doy <= YearLen(y)

\* instants of the day worth looking at, and the layouts that can be read back
Secs3 == {<<0, 0>>, <<86399, 999999999>>, <<43200 + (day % 3600), 1000 * (day % 1000)>>, <<day % 86400, (day * 7919) % 1000000000>>}
At == {<<day, x[1], x[2]>> : x \in Secs3}
Readable == {0, 1, 4, 5, 6, 7}
\* what is left of an instant by a layout that shows fewer digits
Shown(t, form, ss) ==
  LET k == FracDigits(ss, IF form = 7 THEN Mag(t)[3] ELSE t[3])
      unit == CASE k = 9 -> 1 [] k = 6 -> 1000 [] OTHER -> 1000000000
      g == Mag(t)
      h == <<g[1], g[2], g[3] - (g[3] % unit)>>
  IN IF form = 7 /\ Neg(t) THEN Norm(-h[1], -h[2], -h[3]) ELSE <<t[1], t[2], t[3] - (t[3] % unit)>>
\* a plain number of four digits is a year
IsYear(w) == Len(w) = 4 /\ \A i \in 1..4 : w[i] \in Dig
Readback == (day % Every = 0 \/ day \in -3..3 \/ day = Final) =>
  \A t \in At : InRange(t) => \A form \in Readable, ss \in 0..6 :
      LET w == Fmt(t, form, ss) IN IsYear(w) \/ Parsed(w, "any") = Shown(t, form, ss)
\* later instants have later texts of the same layout (dates as text sort by time)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN b # <<>> ELSE b # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b))))
Ordered == (day % Every = 0 \/ day \in -3..3) =>
  \A t, u \in At : Before(t, u) /\ InRange(u) => LexLess(Fmt(t, 0, 2), Fmt(u, 0, 2)) /\ Before(Instant(y, doy, 0, 0, 0, 0), u)
\* back from the fields
BackAgain == \A t \in {<<day, 0, 0>>, <<day, 86399, 999999999>>} :
  LET f == Fields(t) IN Instant(f.year, f.doy, f.hour, f.min, f.sec, f.nsec) = t
=============================================================================
