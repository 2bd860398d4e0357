-------------------------------- MODULE RecCmp --------------------------------
(* Comparing what the code reports about a record with what it should be.      *)
EXTENDS Rec

\* a reported class against the expected one
ClsOk(x, r) ==
  CASE x = "any" -> TRUE
    [] x = "ok" -> r = "ok"
    [] x = "crc" -> r = "crc"
    [] x = "notseed" -> r \in {"notseed", "range"}
    [] x \in {"range", "err"} -> r \in {"notseed", "range", "err", "unknown"}
    [] OTHER -> r = x

\* values of extra headers
VEq(x, o) ==
  CASE x.k = "b" -> o.k = "b" /\ o.v = x.v
    [] x.k = "s" -> o.k = "s" /\ o.v = x.v
    [] x.k = "i" -> o.k = "n" /\ o.i = x.v
    [] x.k = "m" -> o.k = "n" /\ o.m = x.v /\ o.neg = (x.v[1] > 32767)
    [] x.k = "u" -> o.k = "n" /\ o.m = x.v /\ ~o.neg
    [] x.k = "f" -> o.k = "n" /\ o.f = x.v
    [] OTHER -> FALSE
ExEq(ex, o) ==
  /\ Len(o) = Cardinality(ex)
  /\ \A p \in ex : \E i \in DOMAIN o : o[i][1] = p[1] /\ VEq(p[2], o[i][2])

RateEq(x, o) == CASE x.k = "d" -> o.d = x.v [] x.k = "q" -> o.q = x.v [] x.k = "f" -> o.f = x.v

\* header fields that differ, for the message
Diff(x, r) ==
  (IF x.len = r.reclen THEN {} ELSE {"length"}) \cup (IF x.sid = r.sid THEN {} ELSE {"sid"}) \cup (IF x.ver = r.fmt THEN {} ELSE {"version"})
  \cup (IF x.flags = r.flags THEN {} ELSE {"flags"}) \cup (IF x.pub = r.pub THEN {} ELSE {"pubversion"}) \cup (IF x.enc = r.enc THEN {} ELSE {"encoding"})
  \cup (IF x.cnt = r.cnt THEN {} ELSE {"samplecnt"}) \cup (IF x.t = r.t THEN {} ELSE {"starttime"}) \cup (IF RateEq(x.rate, r.rate) THEN {} ELSE {"rate"})
  \cup (IF x.ver = 2 \/ x.crc = r.crc THEN {} ELSE {"crc"}) \cup (IF x.dlen = r.dlen \/ x.doff > x.len THEN {} ELSE {"datalength"})
  \cup (IF x.ver = 3 THEN (IF x.extra = r.extra THEN {} ELSE {"extra"}) ELSE IF ExEq(x.ex, r.ex) THEN {} ELSE {"blockettes"})
=============================================================================
