-------------------------------- MODULE Big --------------------------------
(* Unsigned numbers of up to 64 bits as tuples of four 16-bit limbs, most    *)
(* significant first (TLC's integers have 32 bits).                          *)
EXTENDS Integers, Sequences

Base == 65536
Big0 == <<0, 0, 0, 0>>
BigOf(i) == <<0, 0, i \div Base, i % Base>>

(* big-endian bytes (at most eight) to a number *)
BigOfBytes(bs) ==
  LET pad == [i \in 1..(8 - Len(bs)) |-> 0] \o bs
  IN  [i \in 1..4 |-> pad[2 * i - 1] * 256 + pad[2 * i]]

BigLess(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
BigLeq(a, b) == ~BigLess(b, a)

(* sum; the fifth component is the carry out of 64 bits *)
BigAdd(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + (s4 \div Base)
      s2 == a[2] + b[2] + (s3 \div Base)
      s1 == a[1] + b[1] + (s2 \div Base)
  IN  <<s1 % Base, s2 % Base, s3 % Base, s4 % Base, s1 \div Base>>

BigPred(a) ==   \* a - 1 for a > 0
  IF a[4] > 0 THEN <<a[1], a[2], a[3], a[4] - 1>>
  ELSE IF a[3] > 0 THEN <<a[1], a[2], a[3] - 1, 65535>>
  ELSE IF a[2] > 0 THEN <<a[1], a[2] - 1, 65535, 65535>>
  ELSE <<a[1] - 1, 65535, 65535, 65535>>

IsSmall(a) == a[1] = 0 /\ a[2] = 0 /\ a[3] < 16384     \* below 2^30
IntOf(a) == a[3] * Base + a[4]

(* bytes lba+1 .. of a number, big-endian *)
BytesOf(a, n) ==
  LET all == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256,
               a[3] \div 256, a[3] % 256, a[4] \div 256, a[4] % 256>>
  IN  SubSeq(all, 9 - n, 8)
=============================================================================
