--------------------------------- MODULE Log ----------------------------------
(* Logging contexts: handlers, prefixes and a registry of messages.             *)
(* A context is [lp, ep: prefixes, hl, hd: handlers, max: registry size,        *)
(* reg: stored messages, newest first].  Texts are sequences of characters.     *)
EXTENDS Integers, Sequences, SequencesExt

MaxText == 199  \* longest message that is kept
FnText == 29    \* longest function name
NL == 10
ErrorPrefix == <<69, 114, 114, 111, 114, 58, 32>>  \* "Error: "
Fresh == [lp |-> <<>>, ep |-> ErrorPrefix, hl |-> -1, hd |-> -1, max |-> 0, reg |-> <<>>]

Clip(t, n) == IF Len(t) > n THEN SubSeq(t, 1, n) ELSE t
Chomp(t) == IF t # <<>> /\ t[Len(t)] = NL THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Newest(reg, n) == IF Len(reg) > n THEN SubSeq(reg, 1, n) ELSE reg
Handler(c, lv) == IF lv >= 1 THEN c.hd ELSE c.hl
Full(c, lv, msg) == Clip((IF lv >= 2 THEN c.ep ELSE c.lp) \o msg, MaxText)

\* what is given replaces what was there: <<>> when not given, <<x>> otherwise
Init1(c, i) ==
  [c EXCEPT !.lp = IF i.lp = <<>> \/ Len(i.lp[1]) > MaxText THEN @ ELSE i.lp[1],
            !.ep = IF i.ep = <<>> \/ Len(i.ep[1]) > MaxText THEN @ ELSE i.ep[1],
            !.hl = IF i.hl < 0 THEN @ ELSE i.hl, !.hd = IF i.hd < 0 THEN @ ELSE i.hd,
            !.max = IF i.max < 0 THEN @ ELSE i.max]
\* a message: stored, or delivered at once
Stores(c, lv) == lv >= 1 /\ c.max > 0
Logged(c, lv, fn, msg) ==
  IF Stores(c, lv) THEN [c EXCEPT !.reg = Newest(<<[lv |-> lv, fn |-> Clip(fn, FnText), msg |-> Chomp(Full(c, lv, msg))]>> \o @, c.max)] ELSE c
Delivered(c, lv, msg) ==
  IF lv < 0 \/ Stores(c, lv) THEN <<>> ELSE <<[h |-> Handler(c, lv), m |-> Full(c, lv, msg)]>>
\* the newest n leave the registry, the oldest of them first; all when n is not positive
Out(c, n) == Reverse(IF n > 0 THEN Newest(c.reg, n) ELSE c.reg)
Emitted(c, n) == [c EXCEPT !.reg = SubSeq(@, 1 + Len(Out(c, n)), Len(@))]
Cleared(c) == [c EXCEPT !.reg = <<>>]
=============================================================================
