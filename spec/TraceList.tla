------------------------------ MODULE TraceList ------------------------------
(* The trace list: how records accumulate into per-identifier continuous      *)
(* segments.  A transcription of the observable behaviour of adding a record  *)
(* to an MS3TraceList, as pure operators; MCTraceList explores it             *)
(* exhaustively, TraceListTrace binds it to recorded executions.              *)
(*                                                                            *)
(* A record  : [sid, pub, st, cnt, per, hz, ty, dat, loc]                     *)
(*   st start time and per sample period, both in the session's time unit,    *)
(*   relative to the session's epoch; hz the sample rate in the session's     *)
(*   rate unit; cnt samples of coverage; ty sample type of dat ("0" none);    *)
(*   dat the decoded samples; loc where the record's bytes are.               *)
(* Options   : [sv, ah, tt, rt, rl] split versions, auto-heal, time and rate  *)
(*   tolerance (-1: default), keep record lists.                              *)
(* A segment : [st, en, hz, cnt, ty, dat, rl]                                 *)
(* A trace   : [sid, pub, earliest, latest, segs]                             *)
(* A list    : sequence of traces in ascending (sid, pub) order               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

\* Time of the last sample
EndOf(r) == IF r.cnt > 1 THEN r.st + (r.cnt - 1) * r.per ELSE r.st

\* strcmp-like comparison of identifiers given as sequences of character codes
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PutAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s)) \* x becomes s[i]

\* Sample rates agree: within the caller's tolerance, or 0.01 % by default
RateOK(a, b, o) ==
  IF o.rt >= 0 THEN AbsI(a - b) <= o.rt ELSE AbsI(a - b) * 10000 < b

TimeTol(r, o) == IF o.tt >= 0 THEN o.tt ELSE r.per \div 2

HasData(r) == Len(r.dat) > 0

RlEntry(r) == [st |-> r.st, en |-> EndOf(r), cnt |-> r.cnt, loc |-> r.loc]

NewSeg(r, o) == [st |-> r.st, en |-> EndOf(r), hz |-> r.hz, cnt |-> r.cnt,
                 ty |-> r.ty, dat |-> r.dat,
                 rl |-> IF o.rl THEN <<RlEntry(r)>> ELSE <<>>]

\* May the record's samples join the segment's?
TypeOK(s, r) == HasData(r) => s.ty = r.ty
HealOK(a, b) == Len(b.dat) > 0 => a.ty = b.ty

Append1(s, r, o) == [s EXCEPT !.en = EndOf(r), !.cnt = @ + r.cnt, !.dat = @ \o r.dat,
                              !.rl = IF o.rl THEN @ \o <<RlEntry(r)>> ELSE @]
Prepend1(s, r, o) == [s EXCEPT !.st = r.st, !.cnt = @ + r.cnt, !.dat = r.dat \o @,
                               !.rl = IF o.rl THEN <<RlEntry(r)>> \o @ ELSE @]
Merge(a, b) == [a EXCEPT !.en = b.en, !.cnt = @ + b.cnt, !.dat = @ \o b.dat, !.rl = @ \o b.rl]

\* Segment order: by start time, the longer first
Before(a, b) == a.st < b.st \/ (a.st = b.st /\ a.en > b.en)

\* Bubble the segment at position i into place; [segs, pos]
RECURSIVE Down(_, _)
Down(ss, i) ==
  IF i < Len(ss) /\ Before(ss[i + 1], ss[i])
  THEN Down([ss EXCEPT ![i] = ss[i + 1], ![i + 1] = ss[i]], i + 1)
  ELSE [segs |-> ss, pos |-> i]
RECURSIVE Up(_, _)
Up(ss, i) ==
  IF i > 1 /\ Before(ss[i], ss[i - 1])
  THEN Up([ss EXCEPT ![i] = ss[i - 1], ![i - 1] = ss[i]], i - 1)
  ELSE [segs |-> ss, pos |-> i]
Place(ss, i) == LET d == Down(ss, i) IN Up(d.segs, d.pos)

Within(gap, tol) == -tol <= gap /\ gap <= tol

\* Gap between the end of a and the start of b, less one period of the record
Joins(en, st, r, o) == Within(st - en - r.per, TimeTol(r, o))

(* Scan of all segments.  [before, after, follow]: first segment the record   *)
(* continues, first segment it precedes, last segment starting before it.     *)
RECURSIVE Scan(_, _, _, _, _)
Scan(ss, r, o, i, acc) ==
  IF i > Len(ss) THEN acc
  ELSE
    LET s == ss[i]
        e == EndOf(r)
    IN IF o.ah /\ r.st = s.st /\ e = s.en
       THEN [acc EXCEPT !.follow = i]
       ELSE
         LET f == IF r.st > s.st THEN i ELSE acc.follow
             b == IF acc.before = 0 /\ Joins(s.en, r.st, r, o) /\ RateOK(r.hz, s.hz, o) THEN i ELSE acc.before
             a == IF acc.after = 0 /\ Joins(e, s.st, r, o) /\ RateOK(r.hz, s.hz, o) THEN i ELSE acc.after
             n == [before |-> b, after |-> a, follow |-> f]
         IN IF (b # 0 /\ a # 0) \/ (~o.ah /\ (b # 0 \/ a # 0)) THEN n
            ELSE Scan(ss, r, o, i + 1, n)

\* What adding r does to the segments of a trace: [ok, segs, pos, tag]
AddToSegs(t, r, o) ==
  LET ss == t.segs
      n == Len(ss)
      e == EndOf(r)
      tol == TimeTol(r, o)
      fail == [ok |-> FALSE, segs |-> ss, pos |-> 0, tag |-> "refuse"]
      ok(q, p, g) == [ok |-> TRUE, segs |-> q, pos |-> p, tag |-> g]
  IN
  IF Joins(ss[n].en, r.st, r, o) /\ RateOK(r.hz, ss[n].hz, o) THEN
    IF TypeOK(ss[n], r) THEN ok([ss EXCEPT ![n] = Append1(@, r, o)], n, "append_last") ELSE fail
  ELSE IF r.st - r.per - tol > t.latest THEN
    ok(Append(ss, NewSeg(r, o)), n + 1, "new_after_all")
  ELSE IF e + r.per + tol < t.earliest THEN
    ok(<<NewSeg(r, o)>> \o ss, 1, "new_before_all")
  ELSE IF Joins(e, ss[1].st, r, o) /\ RateOK(r.hz, ss[1].hz, o) THEN
    IF TypeOK(ss[1], r) THEN ok([ss EXCEPT ![1] = Prepend1(@, r, o)], 1, "prepend_first") ELSE fail
  ELSE
    LET sc == Scan(ss, r, o, 1, [before |-> 0, after |-> 0, follow |-> 0])
        b == sc.before
        a == sc.after
    IN
    IF b # 0 THEN
      IF ~TypeOK(ss[b], r) THEN fail
      ELSE LET sb == Append1(ss[b], r, o) IN
           IF o.ah /\ a # 0 /\ a # b /\ HealOK(sb, ss[a])
           THEN LET m == [ss EXCEPT ![b] = Merge(sb, ss[a])]
                IN ok(DropAt(m, a), IF a < b THEN b - 1 ELSE b, "heal")
           ELSE ok([ss EXCEPT ![b] = sb], b, "append_scan")
    ELSE IF a # 0 THEN
      IF TypeOK(ss[a], r) THEN ok([ss EXCEPT ![a] = Prepend1(@, r, o)], a, "prepend_scan") ELSE fail
    ELSE ok(PutAt(ss, sc.follow + 1, NewSeg(r, o)), sc.follow + 1, "new_middle")

\* Does trace t hold records of (sid, pub) under the options?
IsTrace(t, sid, pub, o) == t.sid = sid /\ (o.sv => t.pub = pub)

\* Order of traces
TraceLess(t, sid, pub) == Cmp(t.sid, sid) < 0 \/ (t.sid = sid /\ t.pub < pub)

FindIdx(tl, sid, pub, o) ==
  LET S == {i \in DOMAIN tl : IsTrace(tl[i], sid, pub, o)}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(* Add one record: [tl, ok, iord, sord, tag]; iord/sord 0-based position of   *)
(* the segment that now holds the record.                                     *)
AddRec(tl, r, o) ==
  LET i == FindIdx(tl, r.sid, r.pub, o)
  IN IF i = 0
     THEN LET k == Cardinality({j \in DOMAIN tl : TraceLess(tl[j], r.sid, r.pub)}) + 1
              t == [sid |-> r.sid, pub |-> r.pub, earliest |-> r.st, latest |-> EndOf(r),
                    segs |-> <<NewSeg(r, o)>>]
          IN [tl |-> PutAt(tl, k, t), ok |-> TRUE, iord |-> k - 1, sord |-> 0, tag |-> "new_id"]
     ELSE LET t == tl[i]
              a == AddToSegs(t, r, o)
          IN IF ~a.ok
             THEN [tl |-> tl, ok |-> FALSE, iord |-> -1, sord |-> -1, tag |-> a.tag]
             ELSE LET p == Place(a.segs, a.pos)
                      t2 == [t EXCEPT !.segs = p.segs, !.pub = MaxI(@, r.pub),
                                      !.earliest = MinI(@, r.st), !.latest = MaxI(@, EndOf(r))]
                  IN [tl |-> [tl EXCEPT ![i] = t2], ok |-> TRUE,
                      iord |-> i - 1, sord |-> p.pos - 1, tag |-> a.tag]

-----------------------------------------------------------------------------
(* Properties of every reachable list                                         *)

SumCnt(ss) == FoldSeq(LAMBDA s, acc : s.cnt + acc, 0, ss)
AllDat(ss) == FoldSeq(LAMBDA s, acc : acc \o s.dat, <<>>, ss)
AllRl(ss) == FoldSeq(LAMBDA s, acc : acc \o s.rl, <<>>, ss)

Sorted(tl) ==
  /\ \A i \in 1..Len(tl) - 1 :
       Cmp(tl[i].sid, tl[i + 1].sid) < 0 \/ (tl[i].sid = tl[i + 1].sid /\ tl[i].pub < tl[i + 1].pub)
  /\ \A i \in DOMAIN tl : \A j \in 1..Len(tl[i].segs) - 1 : ~Before(tl[i].segs[j + 1], tl[i].segs[j])

Bounds(tl) ==
  \A i \in DOMAIN tl :
    /\ \A j \in DOMAIN tl[i].segs : tl[i].earliest <= tl[i].segs[j].st /\ tl[i].segs[j].en <= tl[i].latest
    /\ \E j \in DOMAIN tl[i].segs : tl[i].earliest = tl[i].segs[j].st
    /\ \E j \in DOMAIN tl[i].segs : tl[i].latest = tl[i].segs[j].en

\* Record lists name each added record once (as a bag of entries per identifier)
BagOf(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
=============================================================================
