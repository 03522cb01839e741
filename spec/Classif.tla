------------------------------ MODULE Classif ------------------------------
(***************************************************************************)
(* Classification (property C14): confusion tables, F1 scores in fixed      *)
(* point, and the selection that keeps experts of every class.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

FX == 1000000
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Zero(n) == [c \in 1..n |-> [g \in 1..n |-> 0]]
Guess(t, c, g) == [t EXCEPT ![c][g] = @ + 1]
(* table of a sequence of guesses <<class, guess>>                          *)
TableOf(n, gs) == FoldSeq(LAMBDA x, t : Guess(t, x[1], x[2]), Zero(n), gs)

TruePos(t, c) == t[c][c]
FalseNeg(t, c) == SumSeq(t[c]) - t[c][c]
FalsePos(t, c) == SumSeq([k \in 1..Len(t) |-> t[k][c]]) - t[c][c]
F1(t, c) == IF t[c][c] = 0 THEN 0
            ELSE (2 * t[c][c] * FX) \div (2 * t[c][c] + FalsePos(t, c) + FalseNeg(t, c))
Score(t) == SumSeq([c \in 1..Len(t) |-> F1(t, c)]) \div Len(t)
Seen(t, c) == SumSeq(t[c])
Near(a, b, d) == a - b \in (-d)..d

(* ---- selection ---------------------------------------------------------- *)
(* roots: the roots of the graph; G: root -> general score; C: root ->       *)
(* sequence of scores per class; keep: number of roots to keep               *)
PerClass(keep, n) == (keep \div n) \div 2
(* those who are among the k best of class c whatever the order of ties,     *)
(* and those who are for some order                                          *)
Sure(roots, C, c, k) == { x \in roots : Cardinality({ y \in roots : C[y][c] >= C[x][c] }) <= k }
Maybe(roots, C, c, k) == { x \in roots : Cardinality({ y \in roots : C[y][c] > C[x][c] }) < k }
                         \ Sure(roots, C, c, k)
(* K is a possible set of kept roots: it has the experts of every class, and *)
(* those of its members that are no experts are the best in general          *)
KeptOK(roots, G, C, n, keep, K) ==
  LET k == PerClass(keep, n)
      sure == [c \in 1..n |-> Sure(roots, C, c, k)]
      room == [c \in 1..n |-> k - Cardinality(sure[c])]
      open == [c \in 1..n |-> Maybe(roots, C, c, k) \cap K]
      (* members that must be experts of some class, an outsider being better *)
      poor == { x \in K : \E y \in roots \ K : G[y] > G[x] } \ UNION { sure[c] : c \in 1..n }
  IN
  /\ K \subseteq roots /\ Cardinality(K) = keep
  /\ \A c \in 1..n : sure[c] \subseteq K /\ Cardinality(open[c]) >= room[c]
  (* every poor member finds a place as expert (Hall's condition)             *)
  /\ \A D \in SUBSET (1..n) :
       Cardinality({ x \in poor : \A c \in 1..n : x \in open[c] => c \in D }) <=
         SumSeq([c \in 1..n |-> IF c \in D THEN room[c] ELSE 0])
(* S survives: actions always do                                             *)
SelectOK(roots, acts, G, C, n, del, S) ==
  LET keep == Cardinality(roots) - del IN
  /\ acts \subseteq S /\ S \subseteq roots
  /\ \E A \in SUBSET acts : KeptOK(roots, G, C, n, keep, (S \ acts) \cup A)
=============================================================================
