-------------------------------- MODULE MCDiag --------------------------------
(* Every small version 2 record: every chain of blockettes up to a length, each *)
(* blockette whole, too short for its fields or of a kind unknown, its pointer  *)
(* to the next right, past a gap, to itself, into itself, to where no header    *)
(* fits or beyond the record, in both byte orders, the data none, after the     *)
(* chain or on its last byte, and the record cut at and around the chain's end. *)
(* Diagnosing it ends (evaluation would not), looks at the record only          *)
(* (evaluation would fail) and finds no fault in the well-formed ones and some  *)
(* in every other.                                                              *)
EXTENDS Diag, Json
CONSTANTS MaxChain, Kinds
VARIABLE r
vars == <<r>>
W(x, big) == IF big THEN <<x \div 256, x % 256>> ELSE <<x % 256, x \div 256>>
Zeros(n) == [i \in 1..n |-> 0]
Type(k) == CASE k = "rate" -> 100 [] k \in {"whole", "longexp"} -> 1000 [] k \in {"opaque", "opaque0", "opaque14", "opaque200"} -> 2000 [] k = "delay" -> 405 [] OTHER -> 7
Size(k) == CASE k = "rate" -> 12 [] k \in {"whole", "longexp"} -> 8 [] k \in {"opaque", "opaque200"} -> 20 [] k \in {"opaque0", "opaque14"} -> 16 [] k = "delay" -> 6 [] OTHER -> 8
Body(k, big) == CASE k = "whole" -> <<11, IF big THEN 1 ELSE 0, 7, 0>>
                  [] k = "longexp" -> <<11, 0, 40, 0>>
                  [] k = "opaque" -> W(20, big) \o W(18, big) \o Zeros(7) \o <<72, 73, 74, 75, 76>>
                  [] k = "opaque0" -> Zeros(12)
                  [] k = "opaque14" -> W(14, big) \o Zeros(10)
                  [] k = "opaque200" -> W(200, big) \o W(15, big) \o Zeros(12)
                  [] OTHER -> Zeros(Size(k) - 4)
Links == {"end", "self", "into", "edge", "beyond", "back"}
Target(l, o, k, n) == CASE l = "right" -> o + Size(k) [] l = "gap" -> o + Size(k) + 4 [] l = "self" -> o [] l = "into" -> o + 3 [] l = "edge" -> n - 2 [] l = "beyond" -> n + 100 [] l = "back" -> 40 [] OTHER -> 0
\* c: kinds; g: gaps; last: where the last one points
RECURSIVE Blks(_, _, _, _, _, _)
Blks(c, g, last, o, n, big) ==
  IF c = <<>> THEN <<>>
  ELSE LET l == IF Len(c) = 1 THEN last ELSE IF Head(g) THEN "gap" ELSE "right"
       IN W(Type(c[1]), big) \o W(Target(l, o, c[1], n), big) \o Body(c[1], big) \o (IF l = "gap" THEN Zeros(4) ELSE <<>>)
          \o Blks(Tail(c), Tail(g), last, o + Size(c[1]) + (IF l = "gap" THEN 4 ELSE 0), n, big)
Hdr(big, nb, ns, doff) == <<48, 48, 48, 48, 48, 49, 68, 32>> \o <<83, 84, 65, 32, 32, 48, 48, 66, 72, 90, 88, 88>> \o W(2020, big) \o W(60, big) \o <<1, 2, 3, 0>> \o W(0, big)
                          \o W(ns, big) \o W(1, big) \o W(1, big) \o <<0, 0, 0, nb>> \o Zeros(4) \o W(doff, big) \o W(48, big)
Chains == UNION {[1..k -> Kinds] : k \in 1..MaxChain}
Total(c, g) == LET RECURSIVE Sm(_)
                   Sm(i) == IF i > Len(c) THEN 0 ELSE Size(c[i]) + (IF i < Len(c) /\ g[i] THEN 4 ELSE 0) + Sm(i + 1)
               IN 48 + Sm(1)
Cuts == {"long", "exact", "short1", "short3"}
CutLen(q, t) == CASE q = "long" -> 128 [] q = "exact" -> t [] q = "short1" -> t - 1 [] q = "short3" -> t - 3
Init == r = [b |-> <<>>, well |-> FALSE]
Next == /\ r.b = <<>>
        /\ \E c \in Chains, g \in [1..MaxChain -> BOOLEAN], l \in Links, q \in Cuts, big \in BOOLEAN, dd \in {"none", "after", "last"} :
             /\ \A i \in 1..MaxChain : i >= Len(c) => ~g[i]
             /\ LET t == Total(c, g)
                    n == CutLen(q, t)
                    b == Hdr(big, Len(c), IF dd = "none" THEN 0 ELSE 9, IF dd = "none" THEN 0 ELSE IF dd = "after" THEN t ELSE t - 1) \o Blks(c, g, l, 48, n, big)
                IN r' = [b |-> SubSeq(b \o Zeros(128), 1, n),
                         well |-> dd # "last" /\ l = "end" /\ q \in {"long", "exact"} /\ \A i \in DOMAIN c : c[i] \in {"rate", "whole", "opaque"}]
Spec == Init /\ [][Next]_vars
Told == r.b # <<>> => (Raw2(r.b, 0, -1).n = 0) = r.well
SameCount == r.b # <<>> => Raw2(r.b, 0, -1).n = Raw2(r.b, 2, -1).n
OrderMatters == r.b # <<>> => Raw2(r.b, 0, IF SwapOf(r.b, -1) THEN 1 ELSE 0) = Raw2(r.b, 0, -1)
Emit == r.b # <<>> => PrintT("HIST " \o ToJson([b |-> r.b]))
===============================================================================
