-------------------------------- MODULE Steim ---------------------------------
(* Steim compression as a process: words of a frame are filled one after        *)
(* another, each with as many of the remaining differences as one of the        *)
(* layouts holds.  Samples are 32-bit words (pairs of 16-bit numbers), the      *)
(* difference before the first sample is 0.                                     *)
EXTENDS Decode

InBits(w, n) == IF n >= 32 THEN TRUE
                ELSE IF n = 30 THEN w[1] < 8192 \/ w[1] >= 57344
                ELSE (w[1] = 0 /\ w[2] < Pow2(n - 1)) \/ (w[1] = 65535 /\ w[2] >= 65536 - Pow2(n - 1))
\* <<how many, of how many bits>>, densest first
Layouts(v) == IF v = 1 THEN <<<<4, 8>>, <<2, 16>>, <<1, 32>>>>
              ELSE <<<<7, 4>>, <<6, 5>>, <<5, 6>>, <<4, 8>>, <<3, 10>>, <<2, 15>>, <<1, 30>>>>
MaxPerFrame(v) == IF v = 1 THEN 60 ELSE 105
DiffAt(s, i) == IF i = 1 THEN <<0, 0>> ELSE Sub32(s[i], s[i - 1])
\* index of the layout of the next word when samples from i on remain; 0: none can hold the difference
Choose(v, s, i) ==
  LET ls == Layouts(v)
      c == {k \in DOMAIN ls : i + ls[k][1] - 1 <= Len(s) /\ \A j \in i..(i + ls[k][1] - 1) : InBits(DiffAt(s, j), ls[k][2])}
  IN IF c = {} THEN 0 ELSE CHOOSE k \in c : \A j \in c : k <= j
WordsIn(frames) == IF frames = 0 THEN 0 ELSE 13 + 15 * (frames - 1)
FramesFor(words) == IF words <= 13 THEN 1 ELSE 1 + ((words - 13 + 14) \div 15)

\* filling words with the samples of s: how many samples and words are used, and whether it got stuck
Fill(v, s, words) ==
  FoldLeft(LAMBDA a, w : IF a.bad \/ a.n >= Len(s) THEN a
                         ELSE LET k == Choose(v, s, a.n + 1)
                              IN IF k = 0 THEN [a EXCEPT !.bad = TRUE]
                                 ELSE [a EXCEPT !.n = @ + Layouts(v)[k][1], !.w = @ + 1, !.l = Append(@, k)],
           [n |-> 0, w |-> 0, bad |-> FALSE, l |-> <<>>], [j \in 1..words |-> j])

----------------------------------------------------------------------------
(* the payload, for the models (big-endian bytes) *)
ByteOf(x) == x % 256
BytesOf(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
\* value of the low n bits of a word, n <= 15
Low(w, n) == w[2] % Pow2(n)
\* a 32-bit word from fields of n bits, most significant first, with a two-bit prefix d (0 for none)
RECURSIVE Shift(_, _)
Shift(w, n) == IF n = 0 THEN w ELSE Shift(<<((w[1] * 2) % 65536) + (w[2] \div 32768), (w[2] * 2) % 65536>>, n - 1)
FieldsWord(f, n) == FoldLeft(LAMBDA a, x : LET y == Shift(a, n) IN <<y[1], y[2] + Low(x, n)>>, <<0, 0>>, f)
Prefix(w, d) == <<(w[1] % 16384) + (d * 16384), w[2]>>
\* <<code, word>> of a layout and its differences
Coded(v, k, d) ==
  IF v = 1 THEN CASE k = 1 -> <<1, <<(Low(d[1], 8)) * 256 + Low(d[2], 8), Low(d[3], 8) * 256 + Low(d[4], 8)>>>>
                  [] k = 2 -> <<2, <<d[1][2], d[2][2]>>>>
                  [] k = 3 -> <<3, d[1]>>
  ELSE CASE k = 1 -> <<3, Prefix(FieldsWord(d, 4), 2)>>
         [] k = 2 -> <<3, Prefix(FieldsWord(d, 5), 1)>>
         [] k = 3 -> <<3, Prefix(FieldsWord(d, 6), 0)>>
         [] k = 4 -> <<1, <<(Low(d[1], 8)) * 256 + Low(d[2], 8), Low(d[3], 8) * 256 + Low(d[4], 8)>>>>
         [] k = 5 -> <<2, Prefix(FieldsWord(d, 10), 3)>>
         [] k = 6 -> <<2, Prefix(FieldsWord(d, 15), 2)>>
         [] k = 7 -> <<2, Prefix(d[1], 1)>>

\* the words of a payload holding the first samples of s, as sequences of <<code, word>>
Coding(v, s, frames) ==
  LET f == Fill(v, s, WordsIn(frames))
      start == FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + Layouts(v)[k][1]), <<1>>, f.l)
  IN [f EXCEPT !.l = [j \in DOMAIN f.l |-> Coded(v, f.l[j], [q \in 1..Layouts(v)[f.l[j]][1] |-> DiffAt(s, start[j] + q - 1)])]]
FrameWords(c, f, x0, xn) ==
  LET first == IF f = 0 THEN 3 ELSE 1
      base == IF f = 0 THEN 0 ELSE 13 + 15 * (f - 1)
      at(k) == base + (k - first) + 1
      has(k) == k >= first /\ at(k) <= Len(c)
      code(k) == IF has(k) THEN c[at(k)][1] ELSE 0
      hi == FoldLeft(LAMBDA a, k : a * 4 + code(k), 0, <<1, 2, 3, 4, 5, 6, 7>>)
      lo == FoldLeft(LAMBDA a, k : a * 4 + code(k), 0, <<8, 9, 10, 11, 12, 13, 14, 15>>)
  IN [k \in 1..16 |-> IF k = 1 THEN <<hi, lo>> ELSE IF f = 0 /\ k = 2 THEN x0 ELSE IF f = 0 /\ k = 3 THEN xn
                      ELSE IF has(k - 1) THEN c[at(k - 1)][2] ELSE <<0, 0>>]
Encode(v, s, frames) ==
  LET f == Coding(v, s, frames)
      nf == FramesFor(f.w)
      ws == FoldLeft(LAMBDA a, q : a \o FrameWords(f.l, q - 1, s[1], s[f.n]), <<>>, [q \in 1..nf |-> q])
  IN IF f.bad THEN [ok |-> FALSE, n |-> f.n, b |-> <<>>]
     ELSE [ok |-> TRUE, n |-> f.n, b |-> FoldLeft(LAMBDA a, w : a \o BytesOf(w), <<>>, ws)]

\* unused parts of a payload are zero
CleanFrame(b, f) ==
  LET o == 64 * f
      w0 == W32(b, o, TRUE)
      first == IF f = 0 THEN 3 ELSE 1
  IN w0[1] < 16384 /\ \A k \in 1..15 : IF k < first THEN Code(w0, k) = 0 ELSE Code(w0, k) # 0 \/ W32(b, o + 4 * k, TRUE) = <<0, 0>>
=============================================================================
