--------------------------------- MODULE MCRoll --------------------------------
(* Every interleaving of a few additions and packing calls.  Each sample is     *)
(* <<record, position>>; its time is known, and every sample ever added is      *)
(* either still in the list or has been delivered once, with that time.         *)
EXTENDS Roll, TLC, Json

CONSTANTS N, Slots, Cnts, Sids, Rooms, Opts
OptsRoll == {[sv |-> FALSE, ah |-> x, tt |-> -1, rt |-> -1, rl |-> FALSE] : x \in BOOLEAN}
VARIABLES o, room, tl, hist, acc, out
vars == <<o, room, tl, hist, acc, out>>
P == 10
Sid(k) == IF k = 0 THEN <<65, 66>> ELSE <<65, 67>>
Rec(g, k) == [sid |-> Sid(g.sd), pub |-> 1, st |-> g.g * P, cnt |-> g.c, per |-> P, hz |-> 1000, ty |-> "i",
              dat |-> [i \in 1..g.c |-> 100 * k + i], loc |-> k]
TimeOf(v) == acc[v \div 100].st + ((v % 100) - 1) * P
Init == o \in Opts /\ room \in Rooms /\ tl = <<>> /\ hist = <<>> /\ acc = <<>> /\ out = <<>>
Add == \E g \in [g : Slots, c : Cnts, sd : Sids] :
         LET r == Rec(g, Len(acc) + 1)
             q == AddRec(tl, r, o)
         IN /\ q.ok
            /\ tl' = q.tl /\ acc' = Append(acc, r) /\ hist' = Append(hist, [k |-> "a", g |-> g.g, c |-> g.c, sd |-> g.sd])
            /\ UNCHANGED <<out, room, o>>
\* delivered by one call: for every segment in turn, its samples with the times they are given
Delivered(flush) ==
  FlattenSeq([i \in DOMAIN tl |-> FlattenSeq([j \in DOMAIN tl[i].segs |->
    LET s == tl[i].segs[j] IN [x \in 1..Take(Len(s.dat), room, flush) |-> [sid |-> tl[i].sid, v |-> s.dat[x], t |-> s.st + (x - 1) * P]]])])
Pack(flush, keep) ==
  /\ hist # <<>>
  /\ out' = IF keep THEN out ELSE out \o Delivered(flush)
  /\ tl' = IF keep THEN tl ELSE [i \in DOMAIN tl |-> [tl[i] EXCEPT !.segs = [j \in DOMAIN @ |-> Consume(@[j], Take(Len(@[j].dat), room, flush), P)]]]
  /\ hist' = Append(hist, [k |-> "p", flush |-> flush, keep |-> keep])
  /\ UNCHANGED <<o, room, acc>>
Next == Len(hist) < N /\ (Add \/ Pack(FALSE, FALSE) \/ Pack(TRUE, FALSE) \/ Pack(TRUE, TRUE))
Spec == Init /\ [][Next]_vars

InList == FlattenSeq([i \in DOMAIN tl |-> AllDat(tl[i].segs)])
Added == FlattenSeq([k \in DOMAIN acc |-> acc[k].dat])
OutDat == [k \in DOMAIN out |-> out[k].v]
\* every sample once
Once == BagOf(InList \o OutDat) = BagOf(Added)
\* with its time, to whom it belongs
RightTime == \A k \in DOMAIN out : out[k].t = TimeOf(out[k].v) /\ out[k].sid = acc[out[k].v \div 100].sid
\* what is left has its time too
LeftTime == \A i \in DOMAIN tl : \A j \in DOMAIN tl[i].segs : LET s == tl[i].segs[j] IN
              /\ s.cnt = Len(s.dat)
              /\ \A x \in DOMAIN s.dat : TimeOf(s.dat[x]) = s.st + (x - 1) * P
\* nothing waits after a flush
Flushed == hist # <<>> /\ hist[Len(hist)].k = "p" /\ hist[Len(hist)].flush /\ ~hist[Len(hist)].keep => InList = <<>>
\* what waits otherwise is less than would fill a record and one sample
Bounded == hist # <<>> /\ hist[Len(hist)].k = "p" /\ ~hist[Len(hist)].flush => \A i \in DOMAIN tl : \A j \in DOMAIN tl[i].segs : Len(tl[i].segs[j].dat) <= room
\* a continuous stretch that arrives in time order leaves in time order
InOrder == \A b \in DOMAIN acc : LET S == {a \in 1..(b - 1) : acc[a].sid = acc[b].sid} IN
             S = {} \/ acc[b].st = EndOf(acc[CHOOSE a \in S : \A x \in S : x <= a]) + P
Ordered == InOrder => \A a, b \in DOMAIN out : a < b /\ out[a].sid = out[b].sid => out[a].t < out[b].t
Emit == Len(hist) = N => PrintT("HIST " \o ToJson([ah |-> o.ah, room |-> room, h |-> hist]))
=============================================================================
