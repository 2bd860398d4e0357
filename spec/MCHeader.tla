------------------------------ MODULE MCHeader -------------------------------
(* Version 2 headers with every chain of blockettes up to a length and field    *)
(* values of several patterns, in both byte orders: their meaning does not       *)
(* depend on the byte order nor on what follows, and each blockette of the chain *)
(* is accounted for.                                                            *)
EXTENDS Rec, Json
CONSTANTS MaxChain, Types, Pats
VARIABLE r
vars == <<r>>

W(x, big) == IF big THEN <<x \div 256, x % 256>> ELSE <<x % 256, x \div 256>>
W4(w, big) == IF big THEN W(w[1], TRUE) \o W(w[2], TRUE) ELSE W(w[2], FALSE) \o W(w[1], FALSE)
Zeros(n) == [i \in 1..n |-> 0]
\* field values of a pattern: long words, floats, bytes, text, times
L4(p, k) == <<<<0, 0>>, <<0, 10000 + k>>, <<32767, 65535>>, <<65535, 65535 - k>>>>[p]
F4(p, k) == <<<<0, 0>>, <<16256, 0>>, <<49350, 13107 + k>>, <<17530, 6291>>>>[p]
B1(p, k) == <<0, 21 + k, 255, 128 + 32 + k>>[p]
Tx(p, n) == [i \in 1..n |-> IF p = 1 THEN 32 ELSE IF p = 2 THEN (IF i < n \div 2 THEN 64 + i ELSE 0) ELSE IF p = 3 THEN 97 ELSE IF i % 3 = 0 THEN 32 ELSE 48 + (i % 10)]
BT(p, big) == W(<<2016, 1970, 2015, 2000>>[p], big) \o W(<<60, 1, 365, 366>>[p], big) \o <<<<0, 23, 12, 5>>[p], <<0, 59, 34, 6>>[p], <<0, 59, 56, 7>>[p], 0>> \o W(<<0, 9999, 5000, 1>>[p], big)
Body(t, p, big) ==
  CASE t = 100 -> W4(F4(p, 0), big) \o Zeros(4)
    [] t = 200 -> W4(F4(p, 1), big) \o W4(F4(p, 2), big) \o W4(F4(p, 3), big) \o <<B1(p, 0), 0>> \o BT(p, big) \o Tx(p, 24)
    [] t = 201 -> W4(F4(p, 1), big) \o W4(F4(p, 2), big) \o W4(F4(p, 3), big) \o <<B1(p, 0), 0>> \o BT(p, big) \o [i \in 1..8 |-> B1(p, i)] \o Tx(p, 24)
    [] t = 300 -> BT(p, big) \o <<B1(p, 1), B1(p, 2)>> \o W4(L4(p, 1), big) \o W4(L4(p, 2), big) \o W4(F4(p, 3), big) \o Tx(p, 3) \o <<0>> \o W4(L4(p, 4), big) \o Tx(p, 12) \o Tx(p, 12)
    [] t = 310 -> BT(p, big) \o <<0, B1(p, 2)>> \o W4(L4(p, 1), big) \o W4(F4(p, 2), big) \o W4(F4(p, 3), big) \o Tx(p, 3) \o <<0>> \o W4(L4(p, 4), big) \o Tx(p, 12) \o Tx(p, 12)
    [] t = 320 -> BT(p, big) \o <<0, B1(p, 2)>> \o W4(L4(p, 1), big) \o W4(F4(p, 3), big) \o Tx(p, 3) \o <<0>> \o W4(L4(p, 4), big) \o Tx(p, 12) \o Tx(p, 12) \o Tx(p, 8)
    [] t = 390 -> BT(p, big) \o <<0, B1(p, 2)>> \o W4(L4(p, 1), big) \o W4(F4(p, 3), big) \o Tx(p, 3) \o <<0>>
    [] t = 395 -> BT(p, big) \o <<0, 0>>
    [] t = 500 -> W4(F4(p, 1), big) \o BT(p, big) \o <<<<0, 50, 206, 99>>[p], B1(p, 1)>> \o W4(L4(p, 1), big) \o Tx(p, 16) \o Tx(p, 32) \o Tx(p, 128)
    [] t = 1001 -> <<B1(p, 3), <<0, 50, 206, 99>>[p], 0, 1>>
    [] t = 2000 -> W(15 + 5, big) \o W(15, big) \o Zeros(12)
    [] t = 400 -> Zeros(12)
    [] OTHER -> <<1, 2>>
Size(t, p) == 4 + Len(Body(t, p, TRUE))
RECURSIVE Blks(_, _, _, _)
Blks(c, o, p, big) == IF c = <<>> THEN <<>>
                      ELSE W(c[1], big) \o W(IF Len(c) = 1 THEN 0 ELSE o + Size(c[1], p), big) \o Body(c[1], p, big) \o Blks(Tail(c), o + Size(c[1], p), p, big)
Build(c, p, big) ==
  LET hd == <<48, 48, 48, 48, 48, 49, <<68, 82, 81, 77>>[p], 32>> \o <<83, 84, 65, 32, 32, 48, 48, 66, 72, 90, 88, 88>> \o BT(p, big)
            \o W(0, big) \o W(<<1, 20, 65535, 100>>[p], big) \o W(<<1, 65526, 3, 32767>>[p], big) \o <<B1(p, 0), B1(p, 3), B1(p, 5), Len(c) + 1>> \o W4(<<<<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<32767, 65535>>>>[p], big)
            \o W(0, big) \o W(48, big)
      b1000 == W(1000, big) \o W(IF c = <<>> THEN 0 ELSE 56, big) \o <<11, IF big THEN 1 ELSE 0, 10, 0>>
      b == hd \o b1000 \o Blks(c, 56, p, big)
  IN b \o Zeros(1024 - Len(b))

Chains == UNION {[1..k -> Types] : k \in 0..MaxChain}
Init == r = [c |-> <<0>>, p |-> 0, big |-> <<>>, little |-> <<>>]
Next == /\ r.p = 0
        /\ \E c \in Chains, p \in Pats : r' = [c |-> c, p |-> p, big |-> Build(c, p, TRUE), little |-> Build(c, p, FALSE)]
Spec == Init /\ [][Next]_vars
Meaning(b) == ParseBytes(b, TRUE, FALSE)
NoOrder(x) == [x EXCEPT !.big = FALSE]
\* an unknown blockette ends the chain
Upto == LET u == {i \in DOMAIN r.c : BlktLen(r.big, 0, r.c[i], TRUE, 1024) = 0 /\ r.c[i] # 2000} IN
        IF u = {} THEN r.c ELSE SubSeq(r.c, 1, (CHOOSE i \in u : \A j \in u : i <= j) - 1)
Count(ts) == Len(SelectSeq(Upto, LAMBDA t : t \in ts))
Heads(x, pre) == Cardinality({e[1] : e \in {f \in x.ex : IsPrefixAt(f[1], 0, pre)}})

Valid == r.p > 0 => Meaning(r.big).cls = "ok"
OrderIrrelevant == r.p > 0 => NoOrder(Meaning(r.big)) = NoOrder(Meaning(r.little))
SuffixIrrelevant == r.p > 0 => \A s \in {<<0>>, SubSeq(r.little, 1, 64), [i \in 1..100 |-> 255]} : Meaning(r.big \o s) = Meaning(r.big)
\* one entry with a type for each detection and calibration in the chain, and no more
EachOnce == r.p > 0 =>
  LET x == Meaning(r.big)
      Has(path) == \E e \in x.ex : e[1] = path
      det == Count({200, 201})
      cal == Count({300, 310, 320, 390, 395})
      exc == Count({500})
  IN /\ \A i \in 0..3 : Has("/FDSN/Event/Detection/" \o ToString(i) \o "/Type") = (i < det)
     /\ \A i \in 0..3 : Has("/FDSN/Calibration/Sequence/" \o ToString(i) \o "/Type") = (i < cal)
     /\ \A i \in 0..3 : Has("/FDSN/Time/Exception/" \o ToString(i) \o "/ReceptionQuality") = (i < exc)
\* no path twice
Functional == r.p > 0 => LET x == Meaning(r.big) IN \A e, f \in x.ex : e[1] = f[1] => e = f
Emit == r.p > 0 => PrintT("HIST " \o ToJson([big |-> r.big, little |-> r.little]))
=============================================================================
