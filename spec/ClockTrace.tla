------------------------------ MODULE ClockTrace ------------------------------
(* Calls to the time functions and to the leap second table, as recorded.       *)
EXTENDS Clock, Times, Leap2, TraceRun

Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
\* leaps: the table, in order; own: it was read from a file
Start(cfg) == [leaps |-> BuiltIn]
TraceInit == TraceInit0 /\ st = [leaps |-> BuiltIn]

\* one year: every day of the year and every month and day
DayView(y, d) ==
  IF ~ValidYear(y) \/ ~ValidYearDay(y, d) THEN <<0, 0, -1, 0, 0, 0, 0, 0>>
  ELSE LET m == MonthOf(y, d)
           t == Made(y, d, 0, 0, 0, 0)
           e == IF t = Bad \/ t = ErrorTime THEN <<0, 0, 0, 0, 0>> ELSE <<1, t[1], y, d, 1>>
       IN <<m, d - MonthStart(y, m), d>> \o e
MdView(y, m, d) == IF ~ValidYear(y) \/ m \notin 1..12 THEN -1
                   ELSE IF d \notin 1..MonthLen(y, m) THEN -1 ELSE MonthStart(y, m) + d
YearBad(e) == {<<"day", d, e.days[d + 1], DayView(e.y, d)>> : d \in {d \in 0..367 : e.days[d + 1] # DayView(e.y, d)}}
         \cup {<<"monthday", c[1], c[2], e.md[c[1] * 33 + c[2] + 1], MdView(e.y, c[1], c[2])>> :
                 c \in {c \in (0..13) \X (0..32) : e.md[c[1] * 33 + c[2] + 1] # MdView(e.y, c[1], c[2])}}

\* an instant in the result, or the error value
Got(e) == IF e.r.err THEN Bad ELSE e.r.t
SplitView(t) == LET f == Fields(t) IN <<f.year, f.doy, f.hour, f.min, f.sec, f.nsec>>
Step(s, e) ==
  CASE e.op = "year" -> LET b == YearBad(e) IN Res(b = {}, s, IF ValidYear(e.y) THEN "year" ELSE "bad_year", b)
    [] e.op = "split" -> Res(e.r = SplitView(e.t), s, IF Neg(e.t) THEN "split_before_1970" ELSE "split", SplitView(e.t))
    [] e.op = "join" -> LET x == Joined(e.f[1], e.f[2], e.f[3], e.f[4], e.f[5], e.f[6]) IN
                        Res(Got(e) = x, s, IF x = Bad THEN "join_refused" ELSE IF e.f[5] = 60 THEN "join_60" ELSE "join", x)
    [] e.op = "fmt" -> Res(e.r.ok /\ FmtOk(e.t, e.form, e.ss, e.r.str), s, "fmt" \o ToString(e.form), Fmt(e.t, e.form, e.ss))
    [] e.op = "round" ->
         \* formatted and read back
         LET x == Parsed(e.r.str, "any")
             w == IF x = Bad \/ x = Open THEN ErrorTime ELSE x IN
         Res(e.r.ok /\ FmtOk(e.t, e.form, e.ss, e.r.str) /\ e.r.back = w, s, "round" \o ToString(e.form), <<Fmt(e.t, e.form, e.ss), w>>)
    [] e.op = "parse" -> LET x == Parsed(e.str, e.how) IN
                         Res(x = Open \/ Got(e) = x, s, e.how \o (IF x = Bad THEN "_refused" ELSE "_read"), x)
    [] e.op = "sample" -> LET x == SampleTimes(e.t, e.k, e.q, LeapSet(s.leaps)) IN
                          Res(e.r \in x, s, IF Cardinality(x) > 1 THEN "sample_tie" ELSE IF \E v \in x : Spanned(e.t, AddSec(v, 1), LeapSet(s.leaps)) THEN "sample_leap" ELSE "sample", x)
    [] e.op = "same" -> \* a rate given as a frequency and as a period
                        Res(e.r.t[1] = e.r.t[2], s, "same", e.r.t[1])
    [] e.op = "rec" ->
         \* a record: its rate as a frequency and a period in nanoseconds, and its end
         LET x == SampleTimes(e.t, IF e.cnt > 0 THEN e.cnt - 1 ELSE 0, e.q, LeapSet(s.leaps)) IN
         Res(e.r.end \in x /\ e.r.q = e.q /\ e.r.per \in (IF e.q[1] = 0 THEN {<<0, 0, 0>>} ELSE Shifted(<<0, 0, 0>>, Span(1, e.q[1], e.q[2]))), s, IF e.cnt <= 1 THEN "rec_one" ELSE "rec", x)
    [] e.op = "leapfile" ->
         LET q == ReadTable(e) IN
         IF q.rv < 0 THEN Res(e.r.rv < 0 /\ (e.missing => TableOf(e.r.list) = s.leaps) /\ e.r.warned, [s EXCEPT !.leaps = TableOf(e.r.list)], "leap_error", q)
         ELSE Res(e.r.rv = q.rv /\ TableOf(e.r.list) = q.table /\ (e.r.warned <=> q.warn), [s EXCEPT !.leaps = q.table],
                  IF q.warn THEN "leap_warned" ELSE "leap_read", q)
    [] e.op = "leapenv" -> Res(e.r.rv = -2, s, "leap_unset", -2)
    [] e.op = "leapdump" -> Res(TableOf(e.r) = s.leaps, s, "leapdump", s.leaps)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")

TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
