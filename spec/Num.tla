---------------------------------- MODULE Num -----------------------------------
(* Decimal text of numbers, as the C library's %g and %f give it.  Character    *)
(* codes; a value that lies exactly between two texts has both.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

LOCAL Rep(c, n) == [i \in 1..n |-> c]
PadR(s, w) == IF Len(s) >= w THEN s ELSE s \o Rep(32, w - Len(s))
PadL(s, w) == IF Len(s) >= w THEN s ELSE Rep(32, w - Len(s)) \o s
Chars(ds) == [i \in DOMAIN ds |-> 48 + ds[i]]

\* digits of a natural number, none for zero
RECURSIVE IntDigits(_)
IntDigits(n) == IF n = 0 THEN <<>> ELSE Append(IntDigits(n \div 10), n % 10)
IntText(n) == IF n = 0 THEN <<48>> ELSE IF n < 0 THEN <<45>> \o Chars(IntDigits(-n)) ELSE Chars(IntDigits(n))
\* the first k decimals of r/d, r < d
Decimals(r, d, k) == FoldLeft(LAMBDA a, i : [q |-> Append(a.q, (a.r * 10) \div d), r |-> (a.r * 10) % d], [q |-> <<>>, r |-> r], [i \in 1..k |-> i])

\* a digit sequence plus one in its last place; one digit longer when it overflows
Up(ds) == LET nines == {i \in DOMAIN ds : \A j \in i..Len(ds) : ds[j] = 9}
              k == IF nines = {} THEN Len(ds) + 1 ELSE Min(nines)
          IN IF k = 1 THEN <<1>> \o Rep(0, Len(ds))
             ELSE [i \in DOMAIN ds |-> IF i >= k THEN 0 ELSE IF i = k - 1 THEN ds[i] + 1 ELSE ds[i]]
\* roundings of ds to its first n digits; more: something nonzero follows ds
Roundings(ds, n, more) ==
  LET a == SubSeq(ds, 1, n)
      next == IF n < Len(ds) THEN ds[n + 1] ELSE 0
      rest == more \/ \E i \in (n + 2)..Len(ds) : ds[i] # 0
  IN IF next > 5 \/ (next = 5 /\ rest) THEN {Up(a)} ELSE IF next = 5 THEN {a, Up(a)} ELSE {a}

Stripped(ds) == LET nz == {i \in DOMAIN ds : ds[i] # 0} IN SubSeq(ds, 1, IF nz = {} THEN 0 ELSE Max(nz))
Point(ds) == IF ds = <<>> THEN <<>> ELSE <<46>> \o Chars(ds)
\* significant digits and the power of ten of the first
Layout(ds, x, sig) ==
  IF x < -4 \/ x >= sig
  THEN LET e == IF x < 0 THEN -x ELSE x
       IN Chars(SubSeq(ds, 1, 1)) \o Point(Stripped(SubSeq(ds, 2, Len(ds)))) \o <<101, IF x < 0 THEN 45 ELSE 43>>
          \o (IF e < 10 THEN <<48>> ELSE <<>>) \o Chars(IF e = 0 THEN <<0>> ELSE IntDigits(e))
  ELSE IF x >= 0 THEN Chars(SubSeq(ds, 1, x + 1)) \o Point(Stripped(SubSeq(ds, x + 2, Len(ds))))
  ELSE <<48>> \o Point(Stripped(Rep(0, -x - 1) \o ds))

\* "%.<sig>g" of n/d, n >= 0
GText(n, d, sig) ==
  IF n = 0 THEN {<<48>>}
  ELSE LET int == IntDigits(n \div d)
           f == Decimals(n % d, d, sig + 12)
           all == int \o f.q
           lead == Min({i \in DOMAIN all : all[i] # 0}) - 1
           x == Len(int) - 1 - lead
       IN {IF Len(a) > sig THEN Layout(SubSeq(a, 1, sig), x + 1, sig) ELSE Layout(a, x, sig)
             : a \in Roundings(SubSeq(all, lead + 1, Len(all)), sig, f.r # 0)}
\* with a sign
SignedG(neg, n, d, sig) == {(IF neg THEN <<45>> ELSE <<>>) \o t : t \in GText(n, d, sig)}
G(n, d, sig) == SignedG(n < 0, IF n < 0 THEN -n ELSE n, d, sig)

\* "%.1f" of n/d
F1(n, d) ==
  LET m == IF n < 0 THEN -n ELSE n
      int == IntDigits(m \div d)
      f == Decimals(m % d, d, 9)
  IN {(IF n < 0 THEN <<45>> ELSE <<>>) \o (IF Len(a) = 1 THEN <<48>> ELSE Chars(SubSeq(a, 1, Len(a) - 1))) \o <<46, 48 + a[Len(a)]>>
        : a \in Roundings(int \o f.q, Len(int) + 1, f.r # 0)}
=============================================================================
