------------------------------ MODULE MCRandom ------------------------------
(* The adaptation of an engine of BITS-bit words to a range of WBITS-bit      *)
(* integers, signed or not, one raw number at a time; every value has the     *)
(* same number of accepted raw words.  Also the limb arithmetic.              *)
EXTENDS Random, TLC
CONSTANTS BITS, WBITS
M == 2 ^ BITS - 1
WM == 2 ^ WBITS - 1
Half == 2 ^ (WBITS - 1)
VARIABLES sg, lo, hi, ret, mask, out, raw
vars == <<sg, lo, hi, ret, mask, out, raw>>
(* two's complement and its order-preserving translation *)
Bits(v) == IF v < 0 THEN v + WM + 1 ELSE v
Adjust(u) == IF ~sg THEN u ELSE IF u < Half THEN u + Half ELSE u - Half
Signed(u) == IF sg /\ u >= Half THEN u - WM - 1 ELSE u
N == Adjust(Bits(hi)) - Adjust(Bits(lo)) + 1
Init == /\ sg \in BOOLEAN
        /\ lo \in (IF sg THEN -Half..(Half - 1) ELSE 0..WM) /\ hi \in (IF sg THEN -Half..(Half - 1) ELSE 0..WM) /\ lo <= hi
        /\ ret = 0 /\ mask = 0 /\ out = -1000 /\ raw = <<>>
(* more raw words are gathered while they cannot represent the range *)
Gather == /\ out = -1000 /\ mask < N - 1
          /\ \E r \in 0..M : /\ ret' = ret * (M + 1) + r
                             /\ mask' = mask * (M + 1) + M
          /\ UNCHANGED <<sg, lo, hi, out, raw>>
Decide == /\ out = -1000 /\ mask >= N - 1
          /\ IF N = 1 \/ (ret \div N < mask \div N) \/ mask % N = N - 1
             THEN out' = Signed(Adjust(((ret % N) + Adjust(Bits(lo))) % (WM + 1))) /\ raw' = <<mask, ret>> /\ UNCHANGED <<ret, mask>>
             ELSE ret' = 0 /\ mask' = 0 /\ UNCHANGED <<out, raw>>
          /\ UNCHANGED <<sg, lo, hi>>
Next == Gather \/ Decide \/ (out # -1000 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
InBounds == out # -1000 => lo <= out /\ out <= hi
Right == out # -1000 => LET m == raw[1] r == raw[2] IN (N > 1 => Accepted1(m, N, r)) /\ out = lo + (r % N)
Rejected == out = -1000 /\ mask >= N - 1 /\ N > 1 /\ ~Accepted1(mask, N, ret) => ~(ret \div N < mask \div N \/ mask % N = N - 1)
(* no value is favoured, and at least half of the raw words are accepted *)
Fair == \A n \in 1..(M + 1) :
          LET C(v) == Cardinality({ r \in 0..M : Accepted1(M, n, r) /\ r % n = v }) IN
          /\ \A v \in 0..(n - 1) : C(v) = C(0) /\ C(v) >= 1
          /\ 2 * n * C(0) > M
ASSUME Fair
(* the limbs compute as integers do *)
L(x) == <<0, x \div B, x % B>>
I(a) == a[2] * B + a[3]
Xs == {0, 1, 2, 3, 7, 4194303, 4194304, 4194305, 8388607, 1000000007, 2147483646}
ASSUME \A x \in Xs, y \in Xs :
  /\ x < 2147483647 - y => Add(L(x), L(y)) = L(x + y)
  /\ y <= x => Sub(L(x), L(y)) = L(x - y)
  /\ Less(L(x), L(y)) <=> x < y
  /\ y > 0 => Mod(L(x), L(y)) = L(x % y)
ASSUME Mod(AllOnes, <<0, 0, 3>>) = Zero /\ Mod(AllOnes, <<0, 0, 10>>) = <<0, 0, 5>> /\ Mod(AllOnes, <<0, 0, 7>>) = One
ASSUME Width(Zero, AllOnes) = Zero /\ Width(One, AllOnes) = AllOnes
=============================================================================
