-------------------------------- MODULE Logs --------------------------------
(***************************************************************************)
(* What loggers are told of a training (property C21).  A generation is a  *)
(* sequence of steps; every logger is told of a step before the next one.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Steps(val) == <<"new", "pop", "eval", "decim">> \o (IF val THEN <<"valid">> ELSE <<>>) \o <<"end">>
(* generations made by train() out of n, the stop flag being raised during  *)
(* generation g (-1: before the first one, n: never)                        *)
Made(n, g) == IF g < n THEN g + 1 ELSE n

(* A row of the table: generation, number of vertices and results, then      *)
(* durations.  Printed numbers x are in hundredths, results r in millionths. *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
IsMin(m, s) == (\E i \in 1..Len(s) : s[i] = m) /\ \A i \in 1..Len(s) : s[i] >= m
IsMax(m, s) == (\E i \in 1..Len(s) : s[i] = m) /\ \A i \in 1..Len(s) : s[i] <= m
MinOf(s) == CHOOSE m \in { s[i] : i \in 1..Len(s) } : IsMin(m, s)
MaxOf(s) == CHOOSE m \in { s[i] : i \in 1..Len(s) } : IsMax(m, s)
Printed(x, r) == Abs(x * 10000 - r) <= 5001
PrintedAvg(x, s) == Abs(x * 10000 * Len(s) - SumS(s)) <= 5001 * Len(s)
Summary(mn, av, mx, s) == Printed(mn, MinOf(s)) /\ PrintedAvg(av, s) /\ Printed(mx, MaxOf(s))
(* A duration measured between two moments that lie in [a1, a2] and [b1, b2] *)
(* (ten-thousandths; half a hundredth for the rounding, one for the units)   *)
Duration(x, a1, a2, b1, b2, unit) == x * unit >= b1 - a2 - unit \div 2 - 2 /\ x * unit <= b2 - a1 + unit \div 2 + 2

(* The policy logger describes the best root (0: none) when it is another    *)
(* one than when it was told last.                                           *)
Describes(before, now) == now # 0 /\ now # before
=============================================================================
