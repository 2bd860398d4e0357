------------------------------- MODULE MCSteim --------------------------------
(* Design check: for every series over a set of boundary differences, encoding *)
(* into a number of frames and decoding gives back the samples taken.          *)
EXTENDS Steim, TLC
CONSTANTS V, Diffs, MaxLen, Frames0
VARIABLE s
SetA == {0, 127, -128, 128, -129, 32767, -32768, 32768}
SetB == {0, 7, -8, 8, 15, -16, 16, 31, -32, 32}
SetC == {0, -8, 127, -128, 128, 511, -512, 512, 16383, -16384, 16384}
DiffWords == {Word(d) : d \in Diffs} \cup {<<8192, 0>>, <<8191, 65535>>, <<57344, 0>>, <<57343, 65535>>, <<32768, 0>>}
Init == s \in {<<Word(x)>> : x \in {0, 5, -1}}
Next == /\ Len(s) < MaxLen
        /\ \E d \in DiffWords : s' = Append(s, Add32(s[Len(s)], d))
Spec == Init /\ [][Next]_s
\* pads the series so that longer payloads are filled
Long(k) == s \o [i \in 1..k |-> Add32(s[Len(s)], Word(i % 7))]
Lossless(x, frames) ==
  LET e == Encode(V, x, frames) IN
  IF ~e.ok THEN V = 2 /\ \E i \in 2..Len(x) : ~InBits(DiffAt(x, i), 30)
  ELSE LET d == DecodePayload(IF V = 1 THEN STEIM1 ELSE STEIM2, TRUE, e.b, e.n) IN
       /\ d.ok /\ ~d.alt /\ d.s = SubSeq(x, 1, e.n)
       /\ (e.n < Len(x) => Len(e.b) = 64 * frames)
       /\ W32(e.b, 4, TRUE) = x[1] /\ W32(e.b, 8, TRUE) = x[e.n]
       /\ \A f \in 0..(Len(e.b) \div 64 - 1) : CleanFrame(e.b, f)
       /\ e.n <= MaxPerFrame(V) * frames
Roundtrip == Lossless(s, 1)
RoundtripLong == Len(s) = MaxLen => \A f \in Frames0 : Lossless(Long(40), f)
\* Steim-2 refuses nothing but differences over 30 bits; Steim-1 nothing
Total == V = 1 => Encode(1, s, 1).ok
=============================================================================
