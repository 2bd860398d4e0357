---------------------------------- MODULE Alloc ----------------------------------
(* Memory and file handles: what the library obtains through the configured      *)
(* functions and when it must have given it back.  A block is a number.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* State m: live: blocks obtained and not released; kept: those of them that     *)
(* belong to a retained parse state, whose make-up is its own affair.            *)
Empty == [live |-> {}, kept |-> {}]

\* one request: <<kind, block, block before>>, 1 obtained, 2 released, 3 resized,
\* 4 refused (the block before stays), 5 not a block of the configured functions
Legal(m, r) ==
  CASE r[1] = 1 -> r[2] \notin m.live
    [] r[1] = 2 -> r[2] \in m.live
    [] r[1] = 3 -> r[3] \in m.live /\ r[2] \notin m.live
    [] r[1] = 4 -> TRUE
    [] OTHER -> FALSE
Apply(m, r, par) ==
  LET keep(k) == IF par THEN k \cup {r[2]} ELSE k IN
  CASE r[1] = 1 -> [live |-> m.live \cup {r[2]}, kept |-> keep(m.kept)]
    [] r[1] = 2 -> [live |-> m.live \ {r[2]}, kept |-> m.kept \ {r[2]}]
    [] r[1] = 3 -> [live |-> (m.live \ {r[3]}) \cup {r[2]}, kept |-> IF r[3] \in m.kept THEN (m.kept \ {r[3]}) \cup {r[2]} ELSE keep(m.kept)]
    [] OTHER -> m
\* a call's requests: the state after them, or where they stop being legal
Requests(m, rs, par) == FoldLeft(LAMBDA a, r : IF a.at > 0 THEN a ELSE IF Legal(a.m, r) THEN [a EXCEPT !.m = Apply(a.m, r, par), !.n = @ + 1] ELSE [a EXCEPT !.at = a.n + 1],
                                 [m |-> m, n |-> 0, at |-> 0], rs)
\* between calls: the blocks live are those the caller's objects (held) consist of
Lost(m, held) == m.live \ (held \cup m.kept)
Dangling(m, held) == held \ m.live
\* a call refused memory: reported (by its value or an error message), or without effect on the answer;
\* repeated with memory at hand, it answers in full
Reported(e) == e.failed \/ e.told \/ e.got = e.want
Recovered(e) == e.got = e.want
==================================================================================
