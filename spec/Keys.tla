------------------------------- MODULE Keys -------------------------------
(* Space-filling-curve keys as sequences of digits, the most significant   *)
(* (coarsest) first.  The root cell is the empty sequence; a cell of depth *)
(* d has d digits in 0..2^Dim-1; an ancestor is a prefix.                  *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a

\* k is an ancestor of, or equal to, j
IsPrefix(k, j) == /\ Len(k) <= Len(j)
                  /\ \A i \in 1..Len(k) : k[i] = j[i]

\* lexicographic order; for keys of equal length this is the key order
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
  IF i > Len(a) THEN i <= Len(b)
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LexFrom(a, b, i + 1)
LexLess(a, b) == LexFrom(a, b, 1)
LexLeq(a, b)  == a = b \/ LexLess(a, b)

\* i-th binary digit (i = 1 the coarsest) of the position p in [lo, hi]:
\* exact long division of (p-lo)/(hi-lo); positions at hi clamp to all ones.
RECURSIVE BitsFrom(_, _, _, _)
BitsFrom(rem, width, left, acc) ==
  IF left = 0 THEN acc
  ELSE LET r2 == 2 * rem
           b  == IF r2 >= width THEN 1 ELSE 0
       IN  BitsFrom(r2 - b * width, width, left - 1, Append(acc, b))
Bits(p, lo, hi, depth) ==
  IF p - lo >= hi - lo THEN [i \in 1..depth |-> 1]
  ELSE BitsFrom(p - lo, hi - lo, depth, << >>)

\* Morton digit: bit j of the digit is the bit of coordinate j
RECURSIVE SumBits(_, _, _)
SumBits(bits, i, j) ==
  IF j = 0 THEN 0 ELSE SumBits(bits, i, j - 1) + bits[j][i] * Pow(2, j - 1)
MortonKey(x, lo, hi, depth) ==
  LET dim  == Len(x)
      bits == [j \in 1..dim |-> Bits(x[j], lo[j], hi[j], depth)]
  IN  [i \in 1..depth |-> SumBits(bits, i, dim)]
=============================================================================
