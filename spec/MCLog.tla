-------------------------------- MODULE MCLog ---------------------------------
(* Every history of a few calls on two contexts.  Each message carries a number; *)
(* a message that was stored is in its registry, or has been delivered once, or  *)
(* was cleared, or was pushed out by newer ones.                                 *)
EXTENDS Log, TLC, Json, FiniteSets

CONSTANTS N, Maxes, Counts, Levels
VARIABLES c, hist, sent, gone, k
vars == <<c, hist, sent, gone, k>>
C == {1, 2}
H(i, lv) == 2 * i + (IF lv >= 1 THEN 1 ELSE 0)
Init == /\ c = [i \in C |-> [Fresh EXCEPT !.hl = 2 * i, !.hd = 2 * i + 1]]
        /\ hist = <<>> /\ sent = <<>> /\ gone = {} /\ k = 0
Size(i) == \E m \in Maxes : /\ m # c[i].max
                            /\ c' = [c EXCEPT ![i] = Init1(@, [lp |-> <<>>, ep |-> <<>>, hl |-> -1, hd |-> -1, max |-> m])]
                            /\ hist' = Append(hist, [k |-> "s", c |-> i, n |-> m]) /\ UNCHANGED <<sent, gone, k>>
Say(i) == \E lv \in Levels :
            LET m == <<97 + k>>
                d == Delivered(c[i], lv, m)
                after == Logged(c[i], lv, <<>>, m)
                num(e) == <<i, e.msg[Len(e.msg)]>>
            IN /\ k' = k + 1 /\ c' = [c EXCEPT ![i] = after]
               /\ sent' = sent \o [x \in DOMAIN d |-> [i |-> i, h |-> d[x].h, v |-> d[x].m[Len(d[x].m)]]]
               /\ gone' = gone \cup ({num(c[i].reg[x]) : x \in DOMAIN c[i].reg} \ {num(after.reg[x]) : x \in DOMAIN after.reg})
               /\ hist' = Append(hist, [k |-> "l", c |-> i, n |-> lv])
Send(i) == \E n \in Counts :
             LET d == Out(c[i], n) IN
             /\ c[i].reg # <<>>
             /\ sent' = sent \o [x \in DOMAIN d |-> [i |-> i, h |-> Handler(c[i], d[x].lv), v |-> d[x].msg[Len(d[x].msg)]]]
             /\ c' = [c EXCEPT ![i] = Emitted(@, n)] /\ hist' = Append(hist, [k |-> "e", c |-> i, n |-> n]) /\ UNCHANGED <<gone, k>>
Clear(i) == /\ c[i].reg # <<>>
            /\ gone' = gone \cup {<<i, c[i].reg[x].msg[Len(c[i].reg[x].msg)]>> : x \in DOMAIN c[i].reg}
            /\ c' = [c EXCEPT ![i] = Cleared(@)] /\ hist' = Append(hist, [k |-> "f", c |-> i, n |-> 0]) /\ UNCHANGED <<sent, k>>
Next == Len(hist) < N /\ \E i \in C : Size(i) \/ Say(i) \/ Send(i) \/ Clear(i)
Spec == Init /\ [][Next]_vars

Held(i) == {c[i].reg[x].msg[Len(c[i].reg[x].msg)] : x \in DOMAIN c[i].reg}
SentBy(i) == {sent[x].v : x \in {x \in DOMAIN sent : sent[x].i = i}}
GoneBy(i) == {g[2] : g \in {g \in gone : g[1] = i}}
\* once, and nowhere else
Once == /\ \A a, b \in DOMAIN sent : sent[a].v = sent[b].v => a = b
        /\ \A i \in C : Held(i) \cap SentBy(i) = {} /\ Held(i) \cap GoneBy(i) = {} /\ SentBy(i) \cap GoneBy(i) = {}
        /\ Cardinality(Held(1) \cup Held(2)) + Len(sent) + Cardinality(gone) = k
\* contexts do not mix
Apart == Held(1) \cap Held(2) = {} /\ SentBy(1) \cap SentBy(2) = {}
Own == \A x \in DOMAIN sent : sent[x].h \in {2 * sent[x].i, 2 * sent[x].i + 1}
\* newest first
Sorted == \A i \in C : \A x, y \in DOMAIN c[i].reg : x < y => c[i].reg[x].msg[Len(c[i].reg[x].msg)] > c[i].reg[y].msg[Len(c[i].reg[y].msg)]
\* nothing older than a pushed-out message stays
Kept == [][\A i \in C : \A g \in GoneBy(i)' \ GoneBy(i) : hist'[Len(hist')].k = "l" => \A h \in Held(i)' : h > g]_vars
Emit == Len(hist) = N => PrintT("HIST " \o ToJson(hist))
=============================================================================
