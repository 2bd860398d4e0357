------------------------------ MODULE MCTraceList -----------------------------
(* Exhaustive exploration of TraceList within small constants: every sequence  *)
(* of up to N records drawn from a grid, under every option in Opts.           *)
(* Emits each maximal history (HIST lines) for replay in the library.          *)
EXTENDS TraceList, TLC, Json, IOUtils

CONSTANTS N,        \* records per history
          Slots,    \* start times, in periods
          Cnts,     \* samples per record
          Rates,    \* subset of {0, 1}: 1000 or 500 rate units
          Pubs, Sids, Opts,
          Halves,   \* offsets of a start from the grid, in half periods + {0}
          Types     \* sample types

OptsBasic == {[sv |-> FALSE, ah |-> TRUE, tt |-> -1, rt |-> -1], [sv |-> FALSE, ah |-> FALSE, tt |-> -1, rt |-> -1]}
OptsHeal == {[sv |-> FALSE, ah |-> TRUE, tt |-> -1, rt |-> -1]}
OptsVer == {[sv |-> x, ah |-> TRUE, tt |-> -1, rt |-> -1] : x \in BOOLEAN}
OptsTol == {[sv |-> FALSE, ah |-> TRUE, tt |-> x, rt |-> y] : x \in {-1, 0, 3, 12}, y \in {-1, 0, 600}}
OptsBig == {[sv |-> FALSE, ah |-> x, tt |-> y, rt |-> -1] : x \in BOOLEAN, y \in {10, 25}}

P == 10 \* time units per period at rate 1000

VARIABLES o, tl, hist, acc
vars == <<o, tl, hist, acc>>

Sid(k) == IF k = 0 THEN <<65, 66>> ELSE <<65, 67>>

\* the k-th record of a history with shape g
Rec(g, k) ==
  [sid |-> Sid(g.sd), pub |-> g.pb, st |-> g.g * P + g.h, cnt |-> g.c,
   per |-> IF g.r = 0 THEN P ELSE 2 * P, hz |-> IF g.r = 0 THEN 1000 ELSE 500,
   ty |-> IF g.c = 0 THEN "0" ELSE g.t,
   dat |-> IF g.t = "0" THEN <<>> ELSE [i \in 1..g.c |-> 100 * k + i], loc |-> k]

Shapes == [g : Slots, h : Halves, c : Cnts, r : Rates, pb : Pubs, sd : Sids, t : Types]

OptSet == {[sv |-> x.sv, ah |-> x.ah, tt |-> x.tt, rt |-> x.rt, rl |-> TRUE] : x \in Opts}

Init == o \in OptSet /\ tl = <<>> /\ hist = <<>> /\ acc = <<>>

Add == /\ Len(hist) < N
       /\ \E g \in Shapes :
            LET r == Rec(g, Len(hist) + 1)
                q == AddRec(tl, r, o)
            IN /\ tl' = q.tl
               /\ hist' = Append(hist, g)
               /\ acc' = IF q.ok THEN Append(acc, r) ELSE acc
               /\ UNCHANGED o
Next == Add
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Small(r) == TimeTol(r, o) < r.per

Mine(t) == SelectSeq(acc, LAMBDA r : IsTrace(t, r.sid, r.pub, o))

\* T01: nothing lost, nothing twice, nothing elsewhere
Conserved ==
  /\ \A i \in DOMAIN tl :
       /\ SumCnt(tl[i].segs) = SumCnt(Mine(tl[i]))
       /\ BagOf(AllDat(tl[i].segs)) = BagOf(AllDat(Mine(tl[i])))
       /\ {x.loc : x \in ToSet(AllRl(tl[i].segs))} = {r.loc : r \in ToSet(Mine(tl[i]))}
       /\ Len(AllRl(tl[i].segs)) = Len(Mine(tl[i]))
  /\ \A k \in DOMAIN acc : \E i \in DOMAIN tl : IsTrace(tl[i], acc[k].sid, acc[k].pub, o)

\* T02
Ordered == Sorted(tl)
Bounded == (\A k \in DOMAIN acc : Small(acc[k])) => Bounds(tl)
OneEach == \A i, j \in DOMAIN tl : i # j => ~(tl[i].sid = tl[j].sid /\ (~o.sv \/ tl[i].pub = tl[j].pub))

\* T04/T05: the samples of a segment are those of the records in its record
\* list, in that order; the record list is in time order and spans the segment
Samples(x) == (CHOOSE r \in ToSet(acc) : r.loc = x.loc).dat
SegData ==
  \A i \in DOMAIN tl : \A j \in DOMAIN tl[i].segs :
    LET s == tl[i].segs[j] IN
    /\ s.dat = FoldSeq(LAMBDA x, a : a \o Samples(x), <<>>, s.rl)
    /\ s.st = s.rl[1].st /\ s.en = s.rl[Len(s.rl)].en
    /\ \A k \in 1..Len(s.rl) - 1 : s.rl[k].en < s.rl[k + 1].st + 2 * P
    /\ (\A k \in DOMAIN acc : Small(acc[k])) => \A k \in 1..Len(s.rl) - 1 : s.rl[k].en < s.rl[k + 1].st
    /\ s.ty \in {"0"} \cup {r.ty : r \in ToSet(acc)}
    /\ Len(s.dat) \in {0, s.cnt} \/ "0" \in Types

\* T07
Versions ==
  \A i \in DOMAIN tl :
    IF o.sv THEN \A r \in ToSet(Mine(tl[i])) : r.pub = tl[i].pub
    ELSE tl[i].pub = FoldSeq(LAMBDA r, m : MaxI(r.pub, m), 0, Mine(tl[i]))

\* T01/T06 as an action property: joined exactly when a segment is continuous
\* with the record; otherwise a segment of its own
Cont(s, r) == RateOK(r.hz, s.hz, o) /\ (Joins(s.en, r.st, r, o) \/ Joins(EndOf(r), s.st, r, o))
Dup(s, r) == o.ah /\ s.st = r.st /\ s.en = EndOf(r)
JoinRule ==
  [][LET r == Rec(hist'[Len(hist')], Len(hist'))
         i == FindIdx(tl, r.sid, r.pub, o)
         n == FindIdx(tl', r.sid, r.pub, o)
         was == IF i = 0 THEN <<>> ELSE tl[i].segs
         now == IF n = 0 THEN <<>> ELSE tl'[n].segs
         c == {k \in DOMAIN was : Cont(was[k], r)}
         dup == \E k \in DOMAIN was : Dup(was[k], r)
     IN IF Len(acc') = Len(acc) THEN tl' = tl /\ \E k \in DOMAIN was : Cont(was[k], r) /\ ~TypeOK(was[k], r)
        ELSE IF c = {}
             THEN BagOf(now) = BagOf(Append(was, NewSeg(r, o)))
             ELSE IF ~dup THEN Len(now) <= Len(was) /\ Len(now) >= Len(was) - 1 /\ (Len(now) < Len(was) => o.ah)
             ELSE Len(now) \in {Len(was), Len(was) + 1}]_vars

\* T03: with healing and no overlap, the segments are the maximal runs
Overlap(a, b) == a.sid = b.sid /\ a.st <= EndOf(b) + b.per - 1 /\ b.st <= EndOf(a) + a.per - 1
NoOverlap == \A i, j \in DOMAIN acc : i # j => ~Overlap(acc[i], acc[j])
Recs(s) == SortSeq(s, LAMBDA a, b : a.st < b.st)
RECURSIVE Runs(_, _)
Runs(rs, out) ==
  IF rs = <<>> THEN out
  ELSE LET r == Head(rs)
           n == Len(out)
       IN IF n > 0 /\ Joins(out[n].en, r.st, r, o)
          THEN Runs(Tail(rs), [out EXCEPT ![n] = Append1(@, r, o)])
          ELSE Runs(Tail(rs), Append(out, NewSeg(r, o)))
OrderFree ==
  (o.ah /\ ~o.sv /\ NoOverlap) => \A i \in DOMAIN tl : tl[i].segs = Runs(Recs(Mine(tl[i])), <<>>)

Emit == Len(hist) = N => PrintT("HIST " \o ToJson([o |-> o, h |-> hist]))
EmitN == NoOverlap => Emit
=============================================================================
