--------------------------------- MODULE Sid ----------------------------------
(* Source identifiers, SEED codes, and padded text fields.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

US == 95  \* underscore
Colon == 58
Refused == <<-1>>

\* three characters as band, source and position, and back
ToXchan(c) == IF Len(c) = 3 THEN <<c[1], US, c[2], US, c[3]>> ELSE Refused
ToSeedChan(x) == IF Len(x) = 5 /\ x[2] = US /\ x[4] = US THEN <<x[1], x[3], x[5]>> ELSE Refused

Prefix == <<70, 68, 83, 78, 58>>  \* FDSN:
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* text after the last colon
Codes(s) == LET k == {i \in DOMAIN s : s[i] = Colon} IN SubSeq(s, Max(k) + 1, Len(s))
Delims(s) == SetToSortSeq({i \in DOMAIN s : s[i] = US}, LAMBDA a, b : a < b)
Known(s) == StartsWith(s, Prefix) /\ Len(Delims(Codes(s))) = 5
Split(s) ==
  LET c == Codes(s)
      d == Delims(c)
      x == SubSeq(c, d[3] + 1, Len(c))
  IN [n |-> SubSeq(c, 1, d[1] - 1), s |-> SubSeq(c, d[1] + 1, d[2] - 1), l |-> SubSeq(c, d[2] + 1, d[3] - 1),
      c |-> IF ToSeedChan(x) = Refused THEN x ELSE ToSeedChan(x)]
\* a channel of three characters without delimiters is a SEED channel
IsSeed(c) == Len(c) = 3 /\ US \notin ToSet(c)
Combine(n, st, l, c) == Prefix \o n \o <<US>> \o st \o <<US>> \o l \o <<US>> \o (IF IsSeed(c) THEN ToXchan(c) ELSE c)

----------------------------------------------------------------------------
(* UTF-8: the bytes of whole characters at the start of b, at most n bytes,     *)
(* up to a zero byte or the first byte that does not belong to a character      *)
Between(x, a, z) == x >= a /\ x <= z
CharLen(b, i, n) ==
  LET at(k) == IF i + k <= n THEN b[i + k] ELSE -1
      tail(k) == Between(at(k), 128, 191)
      x == b[i]
  IN CASE x < 128 -> 1
       [] Between(x, 194, 223) /\ tail(1) -> 2
       [] x = 224 /\ Between(at(1), 160, 191) /\ tail(2) -> 3
       [] (Between(x, 225, 236) \/ x \in {238, 239}) /\ tail(1) /\ tail(2) -> 3
       [] x = 237 /\ Between(at(1), 128, 159) /\ tail(2) -> 3
       [] x = 240 /\ Between(at(1), 144, 191) /\ tail(2) /\ tail(3) -> 4
       [] Between(x, 241, 243) /\ tail(1) /\ tail(2) /\ tail(3) -> 4
       [] x = 244 /\ Between(at(1), 128, 143) /\ tail(2) /\ tail(3) -> 4
       [] OTHER -> 0
RECURSIVE Whole(_, _, _)
Whole(b, i, n) == IF i > n \/ b[i] = 0 THEN i - 1
                  ELSE LET k == CharLen(b, i, n) IN IF k = 0 THEN i - 1 ELSE Whole(b, i + k, n)
Text(b, n) == SubSeq(b, 1, Whole(b, 1, IF n < Len(b) THEN n ELSE Len(b)))
Squeezed(t) == SelectSeq(t, LAMBDA x : x # 32)
Trimmed(t) == LET k == {i \in DOMAIN t : t[i] # 32} IN IF k = {} THEN <<>> ELSE SubSeq(t, 1, Max(k))
Padded(t, n) == t \o [i \in 1..(n - Len(t)) |-> 32]
=============================================================================
