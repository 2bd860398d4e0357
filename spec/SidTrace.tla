------------------------------- MODULE SidTrace -------------------------------
EXTENDS Sid, TraceRun
Res(ok, s, tag, exp) == [ok |-> ok, st |-> s, tag |-> tag, exp |-> exp]
Start(cfg) == 0
TraceInit == TraceInit0 /\ st = 0
\* what is left in a buffer of 80 Qs
Filled(t, z) == t \o z \o [i \in 1..(80 - Len(t) - Len(z)) |-> 81]

Step(s, e) ==
  CASE e.op = "split" ->
         IF Known(e.sid) THEN Res(e.r.ok /\ e.r.c = Split(e.sid), s, "split", Split(e.sid))
         ELSE Res(~e.r.ok, s, "split_refused", "refused")
    [] e.op = "combine" ->
         LET w == Combine(e.n, e.st, e.l, e.c) IN
         IF e.len >= 16 /\ Len(w) < e.len THEN Res(e.r.rv = Len(w) /\ e.r.sid = w, s, IF Len(w) = e.len - 1 THEN "combine_full" ELSE "combine", w)
         ELSE Res(e.r.rv < 0, s, IF Len(w) = e.len THEN "combine_by_one" ELSE "combine_refused", "refused")
    [] e.op = "round" -> \* codes combined and split again
         Res(e.r.ok /\ e.r.c = [n |-> e.n, s |-> e.st, l |-> e.l, c |-> e.c], s, "round", "the same codes")
    [] e.op = "toX" -> Res(IF ToXchan(e.c) = Refused THEN ~e.r.ok ELSE e.r.ok /\ e.r.c = ToXchan(e.c), s, "toX", ToXchan(e.c))
    [] e.op = "toSeed" -> Res(IF ToSeedChan(e.c) = Refused THEN ~e.r.ok ELSE e.r.ok /\ e.r.c = ToSeedChan(e.c), s, "toSeed", ToSeedChan(e.c))
    [] e.op = "field" ->
         LET t == Text(e.src, e.n)
             q == CASE e.k = "clean" -> Squeezed(t) [] e.k = "tail" -> Trimmed(t) [] OTHER -> t
             w == IF e.k = "open" THEN Filled(Padded(t, e.n), <<>>) ELSE Filled(q, <<0>>)
             \* beyond the terminator the cleared length may hold anything
             same == IF e.k = "open" THEN e.r.out = w
                     ELSE /\ SubSeq(e.r.out, 1, Len(q) + 1) = q \o <<0>>
                          /\ \A i \in (e.n + 2)..80 : e.r.out[i] = 81
         IN Res(e.r.rv = Len(q) /\ same, s, e.k \o (IF Len(t) < e.n /\ Len(t) < Len(e.src) /\ e.src[Len(t) + 1] # 0 THEN "_cut" ELSE ""), w)
    [] OTHER -> Res(FALSE, s, "unknown_event", "no such event")
TraceNext == Event(Start, Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == Consumed
=============================================================================
