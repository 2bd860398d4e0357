------------------------------- MODULE MCSelect -------------------------------
(* Every sequence of up to N additions over small sets of patterns, versions   *)
(* and windows: what matches depends only on the set of additions.             *)
EXTENDS Select, TLC, Json
CONSTANTS N, Times, SPubs, QPubs
VARIABLES sel, hist
vars == <<sel, hist>>

Pats == {<<65>>, <<66>>, <<STAR>>, <<QM>>}
Sids == {<<65>>, <<66>>, <<65, 66>>}
Windows == {w \in [s : Times \cup {OPEN}, e : Times \cup {OPEN}] : w.s = OPEN \/ w.e = OPEN \/ w.s <= w.e}
Init == sel = <<>> /\ hist = <<>>
Add == /\ Len(hist) < N
       /\ \E p \in Pats, v \in SPubs, w \in Windows :
            /\ sel' = AddSel(sel, p, v, w)
            /\ hist' = Append(hist, [pat |-> p, pub |-> v, w |-> w])
Spec == Init /\ [][Add]_vars

Spans == {x \in (0..4) \X (0..4) : x[1] <= x[2]}
\* an entry, version or window admits exactly its own data, whatever else was added and in whatever order
Meaning ==
  \A sid \in Sids, q \in QPubs, sp \in Spans :
    Matches(sel, sid, sp[1], sp[2], q) =
      \E k \in DOMAIN hist : /\ Glob(sid, hist[k].pat)
                             /\ hist[k].pub \in {0, q}
                             /\ \E t \in sp[1]..sp[2] : (hist[k].w.s = OPEN \/ hist[k].w.s <= t) /\ (hist[k].w.e = OPEN \/ t <= hist[k].w.e)
Distinct == \A i, j \in DOMAIN sel : i # j => ~SameEntry(sel[i], sel[j].pat, sel[j].pub)
Kept == Cardinality(UNION {{[p |-> sel[i].pat, v |-> sel[i].pub, w |-> sel[i].tw[k]] : k \in DOMAIN sel[i].tw} : i \in DOMAIN sel})
        = Cardinality({[p |-> h.pat, v |-> h.pub, w |-> h.w] : h \in ToSet(hist)})
Emit == Len(hist) = N => PrintT("HIST " \o ToJson(hist))
=============================================================================
