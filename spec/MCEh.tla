--------------------------------- MODULE MCEh ---------------------------------
(* Every history of a few changes, direct and through one held state, of a small *)
(* document; what a change may affect, and when it reaches the record.           *)
EXTENDS ExtraHdr, Json
CONSTANTS N, Direct
VARIABLES d, q, hist, log, base
vars == <<d, q, hist, log, base>>

P(s) == CASE s = "/a" -> <<47, 97>> [] s = "/a/b" -> <<47, 97, 47, 98>> [] s = "/b" -> <<47, 98>> [] s = "/b/0" -> <<47, 98, 47, 48>>
          [] s = "/b/1" -> <<47, 98, 47, 49>> [] s = "/b/2" -> <<47, 98, 47, 50>> [] s = "" -> <<>> [] s = "/a/b/c" -> <<47, 97, 47, 98, 47, 99>>
Ptrs == {"/a", "/a/b", "/b", "/b/0", "/b/1", "/b/2", "/a/b/c"}
A == <<97>>  B == <<98>>
O1(k, x) == Obj([j \in {k} |-> x])
One == Whole(1)
Doc1 == Obj([k \in {A, B} |-> IF k = A THEN O1(B, One) ELSE Arr(<<One, Text(<<120>>)>>)])
Patch1 == Obj([k \in {A, B} |-> IF k = A THEN Nul ELSE O1(A, One)])
Patch2 == O1(A, O1(B, Nul))
Changes == {[k |-> "set", p |-> p, v |-> 1] : p \in Ptrs} \cup {[k |-> "set", p |-> "/b", v |-> 2]}
           \cup {[k |-> "app", p |-> p, v |-> 0] : p \in {"/a", "/b", "/a/b", "/b/0"}}
           \cup {[k |-> "mrg", p |-> p, v |-> v] : p \in {"", "/a", "/b"}, v \in 1..2} \cup {[k |-> "mrg", p |-> "", v |-> 3]}
Arg(c) == CASE c.k = "set" -> IF c.v = 1 THEN One ELSE Text(<<120>>) [] c.k = "app" -> Recenter1([type |-> <<120>>, bt |-> <<>>, et |-> <<>>, trig |-> <<>>])
            [] c.k = "mrg" -> IF c.v = 1 THEN Patch1 ELSE IF c.v = 2 THEN Patch2 ELSE One
After(doc, c) == Change(doc, c.k, Pointer(P(c.p)), Arg(c))

Init == /\ d \in {<<>>, <<Doc1>>} /\ q = Closed /\ log = <<>> /\ base = <<>>
        /\ hist = <<[k |-> IF d = <<>> THEN "none" ELSE "doc", p |-> "", v |-> 0, q |-> 0]>>
H(c, h) == hist' = Append(hist, [k |-> c.k, p |-> c.p, v |-> c.v, q |-> h])
Opened == IF q.h THEN <<q.doc, base>> ELSE <<d, d>>
Now1(c) == /\ Direct /\ H(c, 0) /\ UNCHANGED <<q, log, base>>
           /\ d' = IF After(d, c) = <<>> THEN d ELSE After(d, c)
Held1(c) == LET x == After(Opened[1], c) IN
            /\ H(c, 1) /\ UNCHANGED d /\ base' = Opened[2]
            /\ q' = IF x = <<>> THEN [h |-> TRUE, doc |-> Opened[1], w |-> IF q.w = "yes" THEN "yes" ELSE "may"] ELSE [h |-> TRUE, doc |-> x, w |-> "yes"]
            /\ log' = IF x = <<>> THEN log ELSE Append(log, c)
Store == /\ q.h /\ q.w = "yes" /\ H([k |-> "ser", p |-> "", v |-> 0], 1) /\ d' = q.doc /\ UNCHANGED <<q, log, base>>
Free == /\ q.h /\ H([k |-> "free", p |-> "", v |-> 0], 1) /\ q' = Closed /\ log' = <<>> /\ base' = <<>> /\ UNCHANGED d
Next == Len(hist) <= N /\ ((\E c \in Changes : Now1(c) \/ Held1(c)) \/ Store \/ Free)
Spec == Init /\ [][Next]_vars

\* the value a held state shows is the one it was opened with and its own changes since
View == q.h => q.doc = FoldLeft(LAMBDA x, c : After(x, c), base, log)
At(doc, p) == Get(doc, Pointer(P(p)).toks)
\* neither of two pointers lies within the other
Prefix1(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Apart(a, b) == ~Prefix1(Pointer(P(a)).toks, Pointer(P(b)).toks) /\ ~Prefix1(Pointer(P(b)).toks, Pointer(P(a)).toks)
Docs == IF q.h THEN {d, q.doc} ELSE {d}
\* what a change does where it was made, and nothing elsewhere
Local ==
  \A doc \in Docs, c \in Changes :
    LET x == After(doc, c) IN
    x # <<>> =>
      /\ \A p \in Ptrs : Apart(p, c.p) => At(x, p) = At(doc, p)
      /\ c.k = "set" => At(x, c.p) = <<Arg(c)>> /\ After(x, c) = x
      /\ c.k = "app" => LET was == At(doc, c.p)  is == At(x, c.p)[1]  n == IF was = <<>> THEN 0 ELSE Members(was[1]) IN
                        /\ is.t = "a" /\ Members(is) = n + 1 /\ is.m[<<n>>] = Arg(c)
                        /\ \A i \in 0..(n - 1) : is.m[<<i>>] = was[1].m[<<i>>]
      /\ c.k = "mrg" => After(x, c) \in {x, <<>>}
\* a change elsewhere than in the record does not reach it before it is stored
Quiet == [][(hist' # hist /\ hist'[Len(hist')].q = 1 /\ hist'[Len(hist')].k # "ser") => d' = d]_vars
Stored == [][(hist' # hist /\ hist'[Len(hist')].k = "ser") => d' = q.doc /\ q' = q]_vars
\* sizes are those of the text
Sizes == \A doc \in Docs : doc # <<>> => Size(doc[1], 3) >= 1 /\ HasForm(doc[1])
Emit == Len(hist) = N + 1 => PrintT("HIST " \o ToJson(hist))
=============================================================================
