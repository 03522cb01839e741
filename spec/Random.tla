------------------------------- MODULE Random -------------------------------
(***************************************************************************)
(* Random draws (property C22).  The raw numbers of the engine are words;  *)
(* a draw among n values takes the remainder of the first raw number that  *)
(* is not in the incomplete last block of n words, so that no value is     *)
(* favoured.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
(* on words 0..M (M + 1 a power of two), n <= M + 1 values *)
Complete(M, n) == IF M % n = n - 1 THEN M + 1 ELSE M - (M % n)   \* end of the last complete block
Accepted1(M, n, r) == r < Complete(M, n)

(* 64-bit words as limbs <<20 bits, 22 bits, 22 bits>>, most significant first *)
B == 4194304
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Sub(a, b) == LET l == a[3] - b[3] m == a[2] - b[2] - (IF l < 0 THEN 1 ELSE 0)
                 h == a[1] - b[1] - (IF m < 0 THEN 1 ELSE 0) IN
             <<h, IF m < 0 THEN m + B ELSE m, IF l < 0 THEN l + B ELSE l>>
Add(a, b) == LET l == a[3] + b[3] m == a[2] + b[2] + (l \div B)
                 h == a[1] + b[1] + (m \div B) IN
             <<h, m % B, l % B>>
One == <<0, 0, 1>>
Zero == <<0, 0, 0>>
AllOnes == <<1048575, 4194303, 4194303>>
(* the remainder, bit by bit; the first limb may exceed 20 bits on the way *)
Twice(a, bit) == LET l == 2 * a[3] + bit m == 2 * a[2] + (l \div B) IN <<2 * a[1] + (m \div B), m % B, l % B>>
Pow2 == [i \in 0..22 |-> 2 ^ i]
RECURSIVE ModBits(_, _, _, _)
ModBits(limb, nb, n, acc) ==
  IF nb = 0 THEN acc
  ELSE LET t == Twice(acc, (limb \div Pow2[nb - 1]) % 2) IN
       ModBits(limb, nb - 1, n, IF Less(t, n) THEN t ELSE Sub(t, n))
Mod(r, n) == ModBits(r[3], 22, n, ModBits(r[2], 22, n, ModBits(r[1], 20, n, Zero)))
(* number of values in lo..hi; Zero stands for 2^64 *)
Width(lo, hi) == LET w == Add(Sub(hi, lo), One) IN IF w[1] = 1048576 THEN Zero ELSE w
Limit(n) == Sub(AllOnes, Mod(AllOnes, n))      \* beginning of the last block
Fits(n, r) == \/ n = Zero
              \/ Less(r, Limit(n))
              \/ Add(Mod(AllOnes, n), One) = n     \* the last block is complete
Value(lo, n, r) == IF n = Zero THEN r ELSE Add(lo, Mod(r, n))
(* index of the raw number used by a draw, from position p *)
RECURSIVE Used(_, _, _)
Used(raws, p, n) == IF p > Len(raws) THEN 0 ELSE IF Fits(n, raws[p]) THEN p ELSE Used(raws, p + 1, n)
=============================================================================
