-------------------------------- MODULE Cycle --------------------------------
(* Directed cycles (property C19).  A graph here is [n, succ]: vertices 1..n, *)
(* succ[v] the sequence of the destinations of its edges.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Succs(d, v) == ToSet(d.succ[v])
RECURSIVE Closure(_, _)
Closure(d, S) == LET T == S \cup UNION { Succs(d, v) : v \in S } IN IF T = S THEN S ELSE Closure(d, T)
(* some vertex leads back to itself *)
HasCycle(d) == \E v \in 1..d.n : v \in Closure(d, Succs(d, v))
(* what is left once vertices that lead nowhere are taken off again and again *)
RECURSIVE Core(_, _)
Core(d, S) == LET T == { v \in S : Succs(d, v) \cap S # {} } IN IF T = S THEN S ELSE Core(d, T)
RootsOf(d) == { v \in 1..d.n : \A u \in 1..d.n : v \notin Succs(d, u) }
Reached(d) == Closure(d, RootsOf(d))
(* the report: nothing is said of success unless asked *)
Verdict(d, success) == IF HasCycle(d) THEN "cycle" ELSE IF success THEN "none" ELSE "silent"
=============================================================================
