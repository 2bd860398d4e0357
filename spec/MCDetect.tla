------------------------------ MODULE MCDetect -------------------------------
(* Every small record of either version -- every blockette chain up to a        *)
(* length, both byte orders, with and without the length-defining blockette --  *)
(* followed by every kind of bytes, cut anywhere: detection names the exact      *)
(* length or asks for more.                                                     *)
EXTENDS Rec, Json
CONSTANTS MaxChain, Types
VARIABLE r
vars == <<r>>

W(x, big) == IF big THEN <<x \div 256, x % 256>> ELSE <<x % 256, x \div 256>>
Zeros(n) == [i \in 1..n |-> 0]
Size(t) == CASE t = 100 -> 12 [] t = 1000 -> 8 [] t = 1001 -> 8 [] t = 2000 -> 20
Hdr2(big, off) == <<48, 48, 48, 48, 48, 49, 68, 32>> \o <<83, 84, 65, 32, 32, 48, 48, 66, 72, 90, 88, 88>> \o W(2020, big) \o W(60, big) \o <<1, 2, 3, 0>> \o W(0, big)
                  \o W(0, big) \o W(1, big) \o W(1, big) \o <<0, 0, 0, 1>> \o Zeros(4) \o W(0, big) \o W(off, big)
Body(t, exp, big) == CASE t = 1000 -> <<11, IF big THEN 1 ELSE 0, exp, 0>>
                       [] t = 2000 -> W(20, big) \o Zeros(14)
                       [] OTHER -> Zeros(Size(t) - 4)
RECURSIVE Blks(_, _, _, _)
Blks(c, o, exp, big) == IF c = <<>> THEN <<>>
                        ELSE W(c[1], big) \o W(IF Len(c) = 1 THEN 0 ELSE o + Size(c[1]), big) \o Body(c[1], exp, big) \o Blks(Tail(c), o + Size(c[1]), exp, big)
Pad(b, n) == b \o Zeros(n - Len(b))
V2(c, exp, big) == Pad(Hdr2(big, IF c = <<>> THEN 0 ELSE 48) \o Blks(c, 48, exp, big), Pow2(exp))
V3Bytes(sl, xl, dl) == <<77, 83, 3, 0>> \o Zeros(4) \o W(2020, FALSE) \o W(1, FALSE) \o <<0, 0, 0, 1>> \o Zeros(8) \o Zeros(4) \o Zeros(4)
                       \o <<1, sl>> \o W(xl, FALSE) \o W(dl, FALSE) \o <<0, 0>> \o Zeros(sl + xl + dl)

Chains == UNION {[1..k -> Types] : k \in 0..MaxChain}
Followers == {<<>>, Hdr2(TRUE, 0) \o Zeros(16), V3Bytes(0, 0, 0), Zeros(80)}
Records == [k : {2}, c : Chains, exp : {7, 8}, big : BOOLEAN, suf : Followers] \cup [k : {3}, sl : {0, 1, 19}, xl : {0, 2, 300}, dl : {0, 1, 64}, suf : Followers]
Bytes2(x) == IF x.k = 2 THEN V2(x.c, x.exp, x.big) ELSE V3Bytes(x.sl, x.xl, x.dl)

Init == r = [b |-> <<>>, len |-> 0, ver |-> 0, has |-> FALSE, nxt |-> 0]
Next == /\ r.len = 0
        /\ \E x \in Records :
             LET b == Bytes2(x) IN
             r' = [b |-> b \o x.suf, len |-> Len(b), ver |-> x.k,
                   has |-> IF x.k = 3 THEN TRUE ELSE \E i \in DOMAIN x.c : x.c[i] = 1000,
                   nxt |-> IF x.suf # <<>> /\ x.suf[1] = 48 THEN 2 ELSE 0]
Spec == Init /\ [][Next]_vars

Cut(n) == SubSeq(r.b, 1, n)
\* the true length, more bytes needed, or too little to look at; nothing else
NeverWrong == r.len > 0 => \A n \in 0..Len(r.b) :
                LET d == Detect(Cut(n)) IN \/ d.len = r.len /\ d.ver = r.ver
                                           \/ d.len = 0 /\ d.ver = r.ver /\ (n < r.len \/ ~r.has)
                                           \/ d.len = -1 /\ n < 40
WholeExact == r.len > 0 /\ (r.has \/ r.nxt = 2) => Detect(r.b).len = r.len
\* what follows a record with a length of its own is irrelevant
SuffixIrrelevant == r.len > 0 /\ r.has => \A n \in r.len..Len(r.b) : Detect(Cut(n)) = Detect(Cut(r.len))
\* a damaged signature is not a record
ForeignRefused == r.len > 0 => \A k \in (IF r.ver = 3 THEN {1, 2, 3} ELSE {1, 2, 3, 4, 5, 6, 7, 8}) :
                    Detect([r.b EXCEPT ![k] = 1]).len = -1
Emit == r.len > 0 => PrintT("HIST " \o ToJson([b |-> r.b, len |-> r.len]))
=============================================================================
