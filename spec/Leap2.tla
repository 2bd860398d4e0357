-------------------------------- MODULE Leap2 ---------------------------------
(* The table of leap seconds and the file it is read from.                      *)
EXTENDS Clock

\* the day after each leap second so far, with the difference TAI - UTC from then on
LeapDaysSeq == <<730, 912, 1096, 1461, 1826, 2191, 2557, 2922, 3287, 3652, 4199, 4564, 4929, 5660, 6574, 7305, 7670, 8217, 8582, 8947, 9496, 10043, 10592, 13149, 14245, 15522, 16617, 17167>>
BuiltIn == [i \in 1..28 |-> [at |-> <<LeapDaysSeq[i], 0, 0>>, tai |-> 9 + i]]
LeapSet(table) == {table[i].at : i \in DOMAIN table}
TableOf(list) == [i \in DOMAIN list |-> [at |-> list[i][1], tai |-> list[i][2]]]

\* a count of seconds since 1900 at position i of a line
NtpAt(s, i0) ==
  LET i == RunEnd(s, i0, Spaces)
      j == IF ChAt(s, i) \in {43, 45} THEN i + 1 ELSE i
      k == RunEnd(s, j, Dig)
      q == DaySec(SubSeq(s, j, k - 1))
  IN [ok |-> k > j, i |-> k,
      t |-> IF ChAt(s, i) = 45 THEN Norm(-q[1] - 25567, -q[2], 0) ELSE Norm(q[1] - 25567, q[2], 0)]
\* any day between the writing of this and the last dates used as expired
Past == 20000
Line(s) ==
  IF s = <<>> THEN "none"
  ELSE IF s[1] = 35 THEN
       IF ChAt(s, 2) = 64 /\ NtpAt(s, 3).ok THEN (IF NtpAt(s, 3).t[1] < Past THEN "warn" ELSE "none") ELSE "none"
  ELSE LET a == NtpAt(s, 1) IN
       IF a.ok /\ ScanInt(s, a.i).ok THEN "leap" ELSE "warn"
ReadTable(e) ==
  IF e.missing \/ e.unreadable THEN [rv |-> -1, table |-> <<>>, warn |-> TRUE]
  ELSE LET good == SelectSeq(e.lines, LAMBDA s : Line(s) = "leap")
       IN [rv |-> Len(good), warn |-> \E i \in DOMAIN e.lines : Line(e.lines[i]) = "warn",
           table |-> [i \in DOMAIN good |-> [at |-> NtpAt(good[i], 1).t, tai |-> ScanInt(good[i], NtpAt(good[i], 1).i).v]]]

=============================================================================
