------------------------------- MODULE Decode ---------------------------------
(* What the bytes of a data payload mean, for every encoding.                  *)
(* Samples are tuples of 16-bit words (the bit pattern of the sample in its    *)
(* type), a byte for text.  Samples of the gain-ranged float encodings are      *)
(* given as their exact value times 32768, those of GEOSCOPE-24 as the integer. *)
EXTENDS Bytes

TEXT == 0  INT16 == 1  INT32 == 3  FLOAT32 == 4  FLOAT64 == 5  STEIM1 == 10  STEIM2 == 11
GEO24 == 12  GEO163 == 13  GEO164 == 14  CDSN == 16  SRO == 30  DWWSSN == 32

Known(enc) == enc \in {TEXT, INT16, INT32, FLOAT32, FLOAT64, STEIM1, STEIM2, GEO24, GEO163, GEO164, CDSN, SRO, DWWSSN}
\* bytes per sample of the encodings that have a fixed number, else 0
EncBytes(enc) == CASE enc = TEXT -> 1
                   [] enc \in {INT16, GEO163, GEO164, CDSN, SRO, DWWSSN} -> 2
                   [] enc = GEO24 -> 3
                   [] enc \in {INT32, FLOAT32} -> 4
                   [] enc = FLOAT64 -> 8
                   [] OTHER -> 0
\* type and size of decoded samples
TypeOf(enc) == CASE enc = TEXT -> "t"
                 [] enc \in {INT16, INT32, STEIM1, STEIM2, CDSN, SRO, DWWSSN} -> "i"
                 [] enc \in {FLOAT32, GEO24, GEO163, GEO164} -> "f"
                 [] enc = FLOAT64 -> "d"
                 [] OTHER -> ""
SizeOf(enc) == CASE TypeOf(enc) = "t" -> 1 [] TypeOf(enc) = "d" -> 8 [] TypeOf(enc) = "" -> 0 [] OTHER -> 4

----------------------------------------------------------------------------
(* encodings with a fixed sample size *)
SroExp(x) == 10 - (x \div 4096)
Fixed(enc, big, b, o) ==
  CASE enc = TEXT -> <<At(b, o)>>
    [] enc \in {INT16, DWWSSN} -> Word(S16(U16(b, o, big)))
    [] enc \in {INT32, FLOAT32} -> W32(b, o, big)
    [] enc = FLOAT64 -> W64(b, o, big)
    [] enc = GEO24 -> LET v == IF big THEN U16(b, o, TRUE) * 256 + At(b, o + 2) ELSE U16(b, o, FALSE) + At(b, o + 2) * 65536
                      IN Word(SE(v, 24))
    [] enc = GEO163 -> LET x == U16(b, o, big) IN Word(((x % 4096) - 2048) * Pow2(15 - ((x \div 4096) % 8)))
    [] enc = GEO164 -> LET x == U16(b, o, big) IN Word(((x % 4096) - 2048) * Pow2(15 - (x \div 4096)))
    [] enc = CDSN -> LET x == U16(b, o, big) IN Word(((x % 16384) - 8191) * Pow2(<<0, 2, 4, 7>>[(x \div 16384) + 1]))
    [] enc = SRO -> LET x == U16(b, o, big) IN Word(SE(x % 4096, 12) * Pow2(SroExp(x)))

----------------------------------------------------------------------------
(* Steim frames: sixteen 32-bit words, the first holding a two-bit code for    *)
(* each word; the first frame's second and third words are the first and last  *)
(* samples; all other coded words hold differences.                            *)
Code(w0, k) == Bits(w0, 30 - 2 * k, 2)
Fields(w, n, bits) == [i \in 1..n |-> Word(SE(Bits(w, (n - i) * bits, bits), bits))]
Bytes4(b, o) == [i \in 1..4 |-> Word(S8(At(b, o + i - 1)))]
SE30(w) == <<IF w[1] % 16384 >= 8192 THEN (w[1] % 16384) + 49152 ELSE w[1] % 16384, w[2]>>
Undefined == <<<<-1>>>>
\* differences in the word at offset o with code c
Diffs1(b, o, c, big) ==
  CASE c = 0 -> <<>>
    [] c = 1 -> Bytes4(b, o)
    [] c = 2 -> <<Word(S16(U16(b, o, big))), Word(S16(U16(b, o + 2, big)))>>
    [] c = 3 -> <<W32(b, o, big)>>
Diffs2(b, o, c, big) ==
  LET w == W32(b, o, big)
      d == w[1] \div 16384
  IN CASE c = 0 -> <<>>
       [] c = 1 -> Bytes4(b, o)
       [] c = 2 /\ d = 0 -> Undefined
       [] c = 2 /\ d = 1 -> <<SE30(w)>>
       [] c = 2 /\ d = 2 -> Fields(w, 2, 15)
       [] c = 2 /\ d = 3 -> Fields(w, 3, 10)
       [] c = 3 /\ d = 0 -> Fields(w, 5, 6)
       [] c = 3 /\ d = 1 -> Fields(w, 6, 5)
       [] c = 3 /\ d = 2 -> Fields(w, 7, 4)
       [] c = 3 /\ d = 3 -> Undefined
WordDiffs(v, b, o, c, big) == IF v = 1 THEN Diffs1(b, o, c, big) ELSE Diffs2(b, o, c, big)

\* differences of one frame up to the first undefined word, if any
FrameDiffs(v, big, b, f) ==
  LET o == 64 * f
      w0 == W32(b, o, big)
      first == IF f = 0 THEN 3 ELSE 1
      ds == [k \in first..15 |-> WordDiffs(v, b, o + 4 * k, Code(w0, k), big)]
      badk == {k \in first..15 : ds[k] = Undefined}
      last == IF badk = {} THEN 15 ELSE (CHOOSE k \in badk : \A j \in badk : k <= j) - 1
  IN [d |-> FoldLeft(LAMBDA acc, k : acc \o ds[k], <<>>, [i \in 1..(last - first + 1) |-> first + i - 1]), bad |-> badk # {}]

\* sums of differences onto the last sample, at most m of them
RECURSIVE Sums(_, _, _, _)
Sums(x, d, i, m) == IF i > Len(d) \/ m = 0 THEN <<>> ELSE LET y == Add32(x, d[i]) IN <<y>> \o Sums(y, d, i + 1, m - 1)
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Frames(_, _, _, _, _, _, _)
Frames(v, big, b, n, f, out, alt) ==
  IF Len(out) >= n \/ f = Len(b) \div 64 THEN [ok |-> Len(out) >= n, s |-> out, alt |-> alt]
  ELSE LET fd == FrameDiffs(v, big, b, f)
           base == IF f = 0 THEN <<W32(b, 4, big)>> ELSE out
           d == IF f = 0 /\ fd.d # <<>> THEN Tail(fd.d) ELSE fd.d
           o2 == base \o Sums(base[Len(base)], d, 1, n - Len(base))
       IN \* an undefined code before the last sample needed is an error; behind it, it may be
          IF fd.bad /\ Len(o2) < n THEN [ok |-> FALSE, s |-> o2, alt |-> FALSE]
          ELSE Frames(v, big, b, n, f + 1, o2, alt \/ fd.bad)

----------------------------------------------------------------------------
(* ok: the n samples are s.  alt: refusing is allowed as well.                 *)
DecodePayload(enc, big, b, n) ==
  IF n = 0 THEN [ok |-> TRUE, s |-> <<>>, alt |-> TRUE]
  ELSE IF ~Known(enc) THEN [ok |-> FALSE, s |-> <<>>, alt |-> FALSE]
  ELSE IF EncBytes(enc) > 0 THEN
    LET k == EncBytes(enc) IN
    IF n > Len(b) \div k THEN [ok |-> FALSE, s |-> <<>>, alt |-> FALSE]
    ELSE IF enc = SRO /\ \E i \in 1..n : SroExp(U16(b, 2 * (i - 1), big)) < 0 THEN [ok |-> FALSE, s |-> <<>>, alt |-> FALSE]
    ELSE [ok |-> TRUE, s |-> [i \in 1..n |-> Fixed(enc, big, b, k * (i - 1))], alt |-> FALSE]
  ELSE IF Len(b) < 64 THEN [ok |-> FALSE, s |-> <<>>, alt |-> FALSE]
  ELSE Frames(IF enc = STEIM1 THEN 1 ELSE 2, big, b, n, 0, <<>>, FALSE)
=============================================================================
