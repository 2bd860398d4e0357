-------------------------------- MODULE MCOutput --------------------------------
(* Why both the stream's error mark and its closing have to be asked: records go  *)
(* through a buffered stream to a device that may be full for a while or for good; *)
(* a buffer that could not be written is kept for another try or dropped.          *)
EXTENDS Output, TLC
CONSTANTS Lens,   \* lengths of records
          N,      \* most records
          B,      \* size of the stream's buffer
          Caps,   \* sizes of the device
          Frees,  \* whether room may appear again
          Asks    \* what is asked at the end: subset of {"error", "close"}
VARIABLES recs, i, buf, dev, cap, err, end, failed
vars == <<recs, i, buf, dev, cap, err, end, failed>>
\* record r is bytes r, r, ...
Byte(k) == [j \in 1..recs[k] |-> k]
All == FoldLeft(LAMBDA a, k : a \o Byte(k), <<>>, [k \in DOMAIN recs |-> k])
Seqs == UNION {[1..n -> Lens] : n \in 0..N}
Init == /\ recs \in Seqs /\ i = 1 /\ buf = <<>> /\ dev = <<>> /\ cap \in Caps /\ err = FALSE /\ end = "no" /\ failed = FALSE
Room == cap - Len(dev)
\* bytes handed to the device: all, or what there is room for and an error
Put(b) == IF Len(b) <= Room THEN dev' = dev \o b /\ buf' = <<>> /\ UNCHANGED <<err, failed>>
          ELSE /\ dev' = dev \o SubSeq(b, 1, Room) /\ err' = TRUE /\ failed' = TRUE
               /\ (buf' = SubSeq(b, Room + 1, Len(b)) \/ buf' = <<>>)
Fill == /\ end = "no" /\ i <= Len(recs)
        /\ i' = i + 1
        /\ LET b == buf \o Byte(i) IN
           IF Len(b) < B THEN buf' = b /\ UNCHANGED <<dev, err, failed>> ELSE Put(b)
        /\ UNCHANGED <<recs, cap, end>>
Close == /\ end = "no" /\ i > Len(recs)
         /\ LET mark == err IN
            IF buf = <<>> THEN end' = (IF "error" \in Asks /\ mark THEN "failed" ELSE "done") /\ UNCHANGED <<dev, buf, err, failed>>
            ELSE /\ Put(buf)
                 /\ end' = (IF ("error" \in Asks /\ mark) \/ ("close" \in Asks /\ Len(buf) > Room) THEN "failed" ELSE "done")
         /\ UNCHANGED <<recs, i, cap>>
More == Frees /\ end = "no" /\ \E c \in Caps : c > cap /\ cap' = c /\ UNCHANGED <<recs, i, buf, dev, err, end, failed>>
Next == Fill \/ Close \/ More
Spec == Init /\ [][Next]_vars
\* a call that answers well has written everything; one that fails met a failure
Honest == (end = "done" => dev = All) /\ (end = "failed" => failed)
\* with a device that stays full, a leading part was written
Leading == ~Frees => Starts2(All, dev)
\* and the answer is the one the specification gives
Same == ~Frees /\ end # "no" =>
          LET a == [path |-> 1, ow |-> TRUE, open |-> TRUE, limit |-> cap, full |-> FALSE]
              rs == [k \in DOMAIN recs |-> Byte(k)]
          IN Answer(<<>>, a, rs, TRUE, IF end = "done" THEN Len(recs) ELSE -1, end = "failed") /\ Content(<<>>, a, rs, dev)
=================================================================================
