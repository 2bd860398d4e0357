-------------------------------- MODULE Select --------------------------------
(* Data selections: identifier patterns, versions and time windows; and the    *)
(* selection file.  Strings are sequences of character codes.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

OPEN == -1000000007 \* an unset time

STAR == 42 \* *
QM == 63   \* ?
LB == 91   \* [
RB == 93   \* ]
CARET == 94
DASH == 45
BSL == 92

\* Does c belong to the set body b (the characters between the brackets, after
\* any negation)?  Ranges x-y hold x, y and everything between.
RECURSIVE InSet(_, _, _)
InSet(c, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i + 2 <= Len(b) /\ b[i + 1] = DASH
       THEN c = b[i] \/ c = b[i + 2] \/ (b[i] < c /\ c < b[i + 2]) \/ InSet(c, b, i + 3)
       ELSE c = b[i] \/ InSet(c, b, i + 1)

\* Position of the bracket closing the set that opens at j, 0 if none
CloseOf(p, j) ==
  LET first == IF j + 1 <= Len(p) /\ p[j + 1] = CARET THEN j + 3 ELSE j + 2
      S == {k \in first..Len(p) : p[k] = RB}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m

\* Shell-style pattern match of s from i against p from j
RECURSIVE GlobAt(_, _, _, _)
GlobAt(s, i, p, j) ==
  IF j > Len(p) THEN i > Len(s)
  ELSE IF p[j] = STAR /\ j < Len(p) /\ p[j + 1] = STAR THEN GlobAt(s, i, p, j + 1)
  ELSE IF p[j] = STAR
       THEN GlobAt(s, i, p, j + 1) \/ (i <= Len(s) /\ GlobAt(s, i + 1, p, j))
  ELSE IF i > Len(s) THEN FALSE
  ELSE CASE p[j] = QM -> GlobAt(s, i + 1, p, j + 1)
         [] p[j] = LB ->
              LET k == CloseOf(p, j)
                  neg == j + 1 <= Len(p) /\ p[j + 1] = CARET
                  b == SubSeq(p, IF neg THEN j + 2 ELSE j + 1, k - 1)
              IN k # 0 /\ (InSet(s[i], b, 1) # neg) /\ GlobAt(s, i + 1, p, k + 1)
         [] p[j] = BSL /\ j < Len(p) -> s[i] = p[j + 1] /\ GlobAt(s, i + 1, p, j + 2)
         [] OTHER -> s[i] = p[j] /\ GlobAt(s, i + 1, p, j + 1)
Glob(s, p) == GlobAt(s, 1, p, 1)

-----------------------------------------------------------------------------
\* A window [s, e] and a span [st, en] have an instant in common
InWindow(w, st, en) == (w.s = OPEN \/ en >= w.s) /\ (w.e = OPEN \/ st <= w.e)

\* The selections: entries [pat, pub, tw], newest first; windows newest first
SameEntry(x, pat, pub) == x.pat = pat /\ x.pub = pub
AddSel(sel, pat, pub, w) ==
  IF \E i \in DOMAIN sel : SameEntry(sel[i], pat, pub)
  THEN [i \in DOMAIN sel |-> IF SameEntry(sel[i], pat, pub) THEN [sel[i] EXCEPT !.tw = <<w>> \o @] ELSE sel[i]]
  ELSE <<[pat |-> pat, pub |-> pub, tw |-> <<w>>]>> \o sel

\* the longest pattern an entry can hold; a longer one is refused
MaxPattern == 99
Kept2(pat) == Len(pat) <= MaxPattern

EntryMatch(x, sid, st, en, pub) ==
  /\ Glob(sid, x.pat)
  /\ x.pub = 0 \/ x.pub = pub
  /\ x.tw = <<>> \/ \E k \in DOMAIN x.tw : InWindow(x.tw[k], st, en)

Matches(sel, sid, st, en, pub) == \E i \in DOMAIN sel : EntryMatch(sel[i], sid, st, en, pub)

\* Order-free view
View(sel) == {[pat |-> sel[i].pat, pub |-> sel[i].pub, tw |-> {sel[i].tw[k] : k \in DOMAIN sel[i].tw}] : i \in DOMAIN sel}

-----------------------------------------------------------------------------
(* Pattern built from SEED codes: a three-character channel becomes the        *)
(* extended form, "--" is the empty location, an absent code is "*".           *)
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
ChanChar(c) == Alnum(c) \/ c = STAR \/ c = QM
Chan(c) == IF Len(c) = 3 THEN <<c[1], 95, c[2], 95, c[3]>> ELSE c
Loc(l) == IF l = <<45, 45>> THEN <<>> ELSE l
PatOf(n, s, l, c) == <<70, 68, 83, 78, 58>> \o n \o <<95>> \o s \o <<95>> \o Loc(l) \o <<95>> \o Chan(c)

(* Selection file.  A line is a sequence of fields [c |-> characters,          *)
(* t |-> the time the field denotes, or "no": not a time at all, or            *)
(* "bad": begins like a date but denotes no time].                             *)
IsDate(f) == f.k # "no"
Digits(c) == Len(c) > 0 /\ \A i \in DOMAIN c : c[i] \in 48..57
RECURSIVE ValOf(_, _)
ValOf(c, i) == IF i > Len(c) THEN 0 ELSE ValOf(c, i + 1) + (c[i] - 48) * (10 ^ (Len(c) - i))

\* What a line means: [k |-> "skip" | "unknown" | "bad" | "add", ...]
Skip == [k |-> "skip"]
Bad == [k |-> "bad"]
Unknown == [k |-> "unknown"]
\* fields f of a line whose text, without space at its end, has `width` characters
LineMeaning(f, width) ==
  LET n == Len(f)
      d(i) == i <= n /\ IsDate(f[i])
      badtime(i) == d(i) /\ f[i].k = "bad"
      time(i) == IF i <= n THEN f[i].t ELSE OPEN
      ver(i) == IF i <= n /\ Digits(f[i].c) THEN IF Len(f[i].c) > 4 THEN 9999 ELSE ValOf(f[i].c, 1) ELSE 0
      form1 == n = 1 \/ (n = 2 /\ d(2)) \/ (n = 3 /\ d(2) /\ d(3)) \/ (n = 4 /\ d(2) /\ d(3) /\ Digits(f[4].c))
      form2 == n = 4 \/ n = 5 \/ (n = 6 /\ d(6)) \/ (n = 7 /\ d(6) /\ d(7))
  IN IF n = 0 \/ f[1].c[1] = 35 THEN Skip
     ELSE IF width > 198 THEN Unknown
     ELSE IF badtime(IF d(2) THEN 2 ELSE 6) \/ badtime(IF d(3) THEN 3 ELSE 7) THEN Bad
     ELSE IF form1
          THEN IF ver(4) > 255 THEN Bad
               ELSE [k |-> "add", pat |-> f[1].c, pub |-> ver(4), w |-> [s |-> time(2), e |-> time(3)]]
     ELSE IF form2
          THEN IF ver(5) > 255 THEN Bad
               ELSE [k |-> "add", pat |-> PatOf(f[1].c, f[2].c, f[3].c, f[4].c), pub |-> ver(5), w |-> [s |-> time(6), e |-> time(7)]]
     ELSE Unknown

\* Reading the lines in order: [sel, n]; n = -1 at the first line that cannot be understood
RECURSIVE ReadLines(_, _, _)
ReadLines(sel, ls, n) ==
  IF ls = <<>> THEN [sel |-> sel, n |-> n]
  ELSE LET m == LineMeaning(Head(ls).f, Head(ls).w)
       IN CASE m.k = "bad" -> [sel |-> sel, n |-> -1]
            [] m.k = "add" /\ ~Kept2(m.pat) -> [sel |-> sel, n |-> -1]
            [] m.k = "add" -> ReadLines(AddSel(sel, m.pat, m.pub, m.w), Tail(ls), n + 1)
            [] OTHER -> ReadLines(sel, Tail(ls), n)
=============================================================================
