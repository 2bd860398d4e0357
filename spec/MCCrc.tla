-------------------------------- MODULE MCCrc ---------------------------------
(* The table is that of the polynomial, and the checksum catches every change   *)
(* of one byte and every burst of up to 32 bits in short records.               *)
EXTENDS Crc, TLC
CONSTANTS N
VARIABLES b, c
Init == b = [i \in 1..N |-> (i * 37) % 256] /\ c = b
\* one burst: an xor pattern over up to four consecutive bytes
Next == c = b /\ \E i \in 1..(N - 1), x \in {1, 128, 255}, y \in {0, 1, 90, 255} : c' = [b EXCEPT ![i] = @ ^^ x, ![i + 1] = @ ^^ y] /\ b' = b
Spec == Init /\ [][Next]_<<b, c>>
Table == \A i \in 0..255 : CrcTab[i + 1] = Shift8(<<0, i>>, 8)
Detects == c # b => Crc32c(c) # Crc32c(b)
\* the check value of the algorithm: "123456789" gives E3069283
Vector == Crc32c([i \in 1..9 |-> 48 + i]) = <<58118, 37507>>
=============================================================================
