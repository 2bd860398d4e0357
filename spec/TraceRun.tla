------------------------------- MODULE TraceRun -------------------------------
(* Common part of the trace-checking modules: reads the recorded events        *)
(* (one JSON object per line, file named by TRACE), and provides the           *)
(* bookkeeping used by every <X>Trace module's Next.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* next event
          st,   \* specification state of the current session
          bad   \* the session has already left the specified behaviours

tvars == <<l, st, bad>>

\* branch counters (coverage of the specification by the recorded behaviour)
Count(tag) ==
  LET f == TLCGet(1)
  IN IF tag \in DOMAIN f THEN TLCSet(1, [f EXCEPT ![tag] = @ + 1])
     ELSE TLCSet(1, [x \in DOMAIN f \cup {tag} |-> IF x = tag THEN 1 ELSE f[x]])

Mismatch(e, exp) ==
  PrintT("MISMATCH " \o ToJson([s |-> e.s, l |-> l, op |-> e.op, exp |-> exp, got |-> e]))

TraceInit0 == /\ l = 1 /\ bad = FALSE
              /\ TLCSet(1, [reset |-> 0]) /\ TLCSet(2, 0)

Consumed == /\ PrintT("TAGS " \o ToJson(TLCGet(1)))
            /\ PrintT("CONSUMED " \o ToString(TLCGet(2)) \o " OF " \o ToString(Len(Trace)))

\* One event.  Start(cfg) is the initial specification state of a session;
\* Step(s, e) = [ok, st, tag, exp]: may e happen in s, and the state after it.
Event(Start(_), Step(_, _)) ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ TLCSet(2, l)
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Start(e.cfg) /\ bad' = FALSE /\ Count("reset")
     ELSE IF bad THEN UNCHANGED <<st, bad>>
     ELSE IF e.op = "CRASH" THEN Mismatch(e, "no crash, hang or abort") /\ bad' = TRUE /\ UNCHANGED st
     ELSE LET q == Step(st, e) IN
          /\ Count(q.tag)
          /\ IF q.ok THEN st' = q.st /\ bad' = FALSE
             ELSE Mismatch(e, q.exp) /\ bad' = TRUE /\ UNCHANGED st
=============================================================================
