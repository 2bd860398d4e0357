-------------------------------- MODULE Bytes ---------------------------------
(* Bytes and fixed-width words.  A byte string is a sequence of 0..255, offsets *)
(* are zero-based as in the format descriptions.  TLC's integers are 32 bits    *)
(* wide, so 32- and 64-bit quantities are tuples of 16-bit words, most          *)
(* significant first: <<h, l>> and <<w3, w2, w1, w0>>.                          *)
EXTENDS Integers, Sequences, SequencesExt

At(b, o) == b[o + 1]
Slice(b, o, n) == SubSeq(b, o + 1, o + n)
U16(b, o, big) == IF big THEN At(b, o) * 256 + At(b, o + 1) ELSE At(b, o + 1) * 256 + At(b, o)
W32(b, o, big) == IF big THEN <<U16(b, o, TRUE), U16(b, o + 2, TRUE)>> ELSE <<U16(b, o + 2, FALSE), U16(b, o, FALSE)>>
W64(b, o, big) == IF big THEN W32(b, o, TRUE) \o W32(b, o + 4, TRUE) ELSE W32(b, o + 4, FALSE) \o W32(b, o, FALSE)
S16(x) == IF x > 32767 THEN x - 65536 ELSE x
S8(x) == IF x > 127 THEN x - 256 ELSE x

\* small values of a word as an integer; only meaningful when Fits
Fits(w) == w[1] < 32768
IntW(w) == w[1] * 65536 + w[2]
\* signed 32-bit value (-2^31 itself does not fit TLC's negation-safe range but is never needed)
SInt(w) == IF w[1] > 32767 THEN (w[1] - 65536) * 65536 + w[2] ELSE IntW(w)
\* a 32-bit word from an integer
Word(i) == IF i >= 0 THEN <<i \div 65536, i % 65536>> ELSE <<(i \div 65536) % 65536, i % 65536>>
Add32(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
Neg32(a) == Add32(<<65535 - a[1], 65535 - a[2]>>, <<0, 1>>)
Sub32(a, b) == Add32(a, Neg32(b))

Pow2(n) == 2 ^ n
Bit(x, n) == (x \div Pow2(n)) % 2 = 1
\* bits lo..lo+n-1 of a 32-bit word, n <= 16
Bits(w, lo, n) ==
  IF lo >= 16 THEN (w[1] \div Pow2(lo - 16)) % Pow2(n)
  ELSE IF lo + n <= 16 THEN (w[2] \div Pow2(lo)) % Pow2(n)
  ELSE (w[2] \div Pow2(lo)) + (w[1] % Pow2(lo + n - 16)) * Pow2(16 - lo)
\* an n-bit value sign-extended
SE(v, n) == IF v >= Pow2(n - 1) THEN v - Pow2(n) ELSE v

IsPrefixAt(b, o, s) == Len(b) >= o + Len(s) /\ \A i \in 1..Len(s) : b[o + i] = s[i]
=============================================================================
