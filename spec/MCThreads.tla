------------------------------ MODULE MCThreads ---------------------------------
(* Every interleaving of the steps of the threads' calls.  Shared: what is not each *)
(* thread's own, which no interleaving may then forgive.                            *)
EXTENDS Threads, TLC, Json
CONSTANTS N, Calls, Kinds, Shared

VARIABLES prog,    \* the calls of each thread
          done,    \* calls each has finished
          ph,      \* 0 between calls, 1 within one
          obj, scratch, log, out,
          sched    \* the threads, in the order their calls began
vars == <<prog, done, ph, obj, scratch, log, out, sched>>
T == 1..N
Of(t, what) == IF what \in Shared THEN 0 ELSE t
Init == /\ prog \in [T -> [1..Calls -> Kinds]]
        /\ done = [t \in T |-> 0] /\ ph = [t \in T |-> 0]
        /\ obj = [t \in T |-> <<>>] /\ out = [t \in T |-> <<>>]
        /\ scratch = [x \in 0..N |-> <<>>] /\ log = [x \in 0..N |-> <<>>]
        /\ sched = <<>>
Kind(t) == prog[t][done[t] + 1]
V(t) == <<t, done[t] + 1>>
Finish(t, o) == out' = [out EXCEPT ![t] = Append(@, o)] /\ done' = [done EXCEPT ![t] = @ + 1] /\ ph' = [ph EXCEPT ![t] = 0]
\* a call prepares its result in scratch space, and then hands it over
Begin(t) == /\ ph[t] = 0 /\ done[t] < Calls
            /\ ph' = [ph EXCEPT ![t] = 1] /\ sched' = Append(sched, t)
            /\ scratch' = [scratch EXCEPT ![Of(t, "scratch")] = IF Kind(t) = "work" THEN Append(obj[t], V(t)) ELSE <<V(t)>>]
            /\ UNCHANGED <<prog, done, obj, log, out>>
Work(t) == /\ ph[t] = 1 /\ Kind(t) = "work"
           /\ LET r == scratch[Of(t, "scratch")] IN obj' = [obj EXCEPT ![t] = r] /\ Finish(t, r)
           /\ UNCHANGED <<prog, scratch, log, sched>>
Message(t) == /\ ph[t] = 1 /\ Kind(t) = "message"
              /\ log' = [log EXCEPT ![Of(t, "log")] = Keep(@ \o scratch[Of(t, "scratch")])]
              /\ Finish(t, <<>>) /\ UNCHANGED <<prog, obj, scratch, sched>>
Emit(t) == /\ ph[t] = 1 /\ Kind(t) = "emit"
           /\ LET x == Of(t, "log") IN Finish(t, log[x]) /\ log' = [log EXCEPT ![x] = <<>>]
           /\ UNCHANGED <<prog, obj, scratch, sched>>
Next == \E t \in T : Begin(t) \/ Work(t) \/ Message(t) \/ Emit(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* each thread has what it would have by itself
Isolated == \A t \in T : LET a == Alone(t, prog[t], done[t]) IN out[t] = a.out /\ obj[t] = a.obj /\ (Shared = {} => log[t] = a.log)
Over == \A t \in T : done[t] = Calls
Finishes == <>Over
Emitted == Over => PrintT("HIST " \o ToJson(sched))
=============================================================================
