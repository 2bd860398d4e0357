-------------------------------- MODULE MCSid ---------------------------------
(* Codes of up to N letters over a small alphabet: combining and splitting are  *)
(* inverse, and identifiers of distinct codes are distinct.                     *)
EXTENDS Sid, TLC
CONSTANTS N, Letters
Strs(k) == UNION {[1..j -> Letters] : j \in 0..k}
VARIABLES n, s, l, c, n2, c2
vars == <<n, s, l, c, n2, c2>>
\* a channel is three letters without delimiters, or band, source and position codes
Chans == [1..3 -> Letters] \cup {a \o <<US>> \o b \o <<US>> \o d : a \in Strs(N), b \in Strs(N), d \in Strs(N)}
\* channel forms that differ but name the same codes
Plain(x) == IF ToSeedChan(x) = Refused THEN x ELSE ToSeedChan(x)
Init == n \in Strs(N) /\ s \in Strs(1) /\ l \in Strs(1) /\ c \in Chans /\ n2 \in Strs(1) /\ c2 \in {<<65, 65, 65>>, <<65, US, US, 66>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inv == /\ Known(Combine(n, s, l, c))
       /\ Split(Combine(n, s, l, c)) = [n |-> n, s |-> s, l |-> l, c |-> Plain(c)]
       /\ Combine(n, s, l, c) = Combine(n2, s, l, c2) => n = n2 /\ Plain(c) = Plain(c2)
\* leading namespaces are skipped
Spaces == Split(Prefix \o <<65, Colon>> \o SubSeq(Combine(n, s, l, c), 6, Len(Combine(n, s, l, c)))) = Split(Combine(n, s, l, c))
=============================================================================
