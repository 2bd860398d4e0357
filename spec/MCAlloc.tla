-------------------------------- MODULE MCAlloc ----------------------------------
(* Calls that build and change a caller's objects while any request for memory    *)
(* may be refused: whatever is refused, and wherever, nothing is lost and nothing *)
(* in use is released, provided a call gives back what it has not yet attached.   *)
EXTENDS Alloc, TLC, Json
CONSTANTS Ops,      \* kinds of call
          Calls,    \* calls in a history
          MaxLive
\* the blocks a kind of call asks for before it attaches them, and how many of the object's own it gives up
Needs(op) == CASE op = "add" -> 3 [] op = "extend" -> 1 [] op = "grow" -> 1 [] op = "drop" -> 0
Gives(op) == CASE op = "drop" -> 2 [] op = "grow" -> 1 [] OTHER -> 0

VARIABLES m,     \* Alloc's state
          own,   \* blocks of the caller's objects
          pend,  \* blocks obtained by the call at hand
          op,    \* the call at hand, "" between calls
          ends,  \* how the call ends: "" still asking, "ok", "undo"
          next,  \* the next block's number
          hist   \* <<kind, request refused or 0>>
vars == <<m, own, pend, op, ends, next, hist>>
Init == m = Empty /\ own = {} /\ pend = {} /\ op = "" /\ ends = "" /\ next = 1 /\ hist = <<>>
Begin == /\ op = "" /\ Len(hist) < Calls
         /\ \E o \in Ops : Cardinality(own) >= Gives(o) /\ Cardinality(own) + Needs(o) <= MaxLive /\ op' = o /\ hist' = Append(hist, <<o, 0>>)
         /\ ends' = "" /\ UNCHANGED <<m, own, pend, next>>
Take == /\ op # "" /\ ends = "" /\ Cardinality(pend) < Needs(op)
        /\ Legal(m, <<1, next, 0>>)
        /\ m' = Apply(m, <<1, next, 0>>, FALSE) /\ pend' = pend \cup {next} /\ next' = next + 1
        /\ UNCHANGED <<own, op, ends, hist>>
Refuse == /\ op # "" /\ ends = "" /\ Cardinality(pend) < Needs(op)
          /\ hist' = [hist EXCEPT ![Len(hist)] = <<op, Cardinality(pend) + 1>>]
          /\ ends' = "undo" /\ UNCHANGED <<m, own, pend, op, next>>
Enough == /\ op # "" /\ ends = "" /\ Cardinality(pend) = Needs(op)
          /\ \E g \in SUBSET own : Cardinality(g) = Gives(op) /\ own' = (own \ g) \cup pend /\ pend' = g
          /\ ends' = "ok" /\ UNCHANGED <<m, op, next, hist>>
GiveBack == /\ ends # "" /\ pend # {}
            /\ \E b \in pend : Legal(m, <<2, b, 0>>) /\ m' = Apply(m, <<2, b, 0>>, FALSE) /\ pend' = pend \ {b}
            /\ UNCHANGED <<own, op, ends, next, hist>>
Return == /\ ends # "" /\ pend = {} /\ op' = "" /\ ends' = "" /\ UNCHANGED <<m, own, pend, next, hist>>
Next == Begin \/ Take \/ Refuse \/ Enough \/ GiveBack \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Refuse \/ Enough \/ GiveBack \/ Return)

Accounted == m.live = own \cup pend /\ own \cap pend = {}
Quiet == op = "" => Lost(m, own) = {} /\ Dangling(m, own) = {}
Kept == m.kept = {}
Unchanged == ends = "undo" => Dangling(m, own) = {}
Returns == (op # "") ~> (op = "")
Emit == (op = "" /\ Len(hist) = Calls) => PrintT("HIST " \o ToJson(hist))
==================================================================================
