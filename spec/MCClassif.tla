------------------------------ MODULE MCClassif ------------------------------
(* Two small machines: (t) histories of guesses and resets, where the score   *)
(* computed from precision and recall must be the one of the confusion table; *)
(* (s) the library's selection with every order of ties, which must give      *)
(* exactly the sets the specification allows.                                 *)
EXTENDS Classif
CONSTANTS NC, MAXG, ROOTS, CLASSES, SCORES, RATIOS
VARIABLES kind, t, hist, sel
vars == <<kind, t, hist, sel>>

TopSets(roots, f, k) == { T \in SUBSET roots : Cardinality(T) = k /\ \A x \in T, y \in roots \ T : f[y] <= f[x] }
(* kept sets of the algorithm: experts class by class, then the best others   *)
RECURSIVE Experts(_, _, _, _)
Experts(roots, C, c, k) ==
  IF c = 0 THEN { {} }
  ELSE { U \cup T : U \in Experts(roots, C, c - 1, k), T \in TopSets(roots, [x \in roots |-> C[x][c]], k) }
Algo(roots, G, C, n, keep) ==
  LET k == PerClass(keep, n) IN
  UNION { { U \cup B : B \in TopSets(roots \ U, [x \in roots \ U |-> G[x]], keep - Cardinality(U)) } :
          U \in Experts(roots, C, n, k) }

RS == 1..ROOTS
Init ==
  \/ /\ kind = "t" /\ t = Zero(NC) /\ hist = <<>> /\ sel = <<>>
  \/ /\ kind = "s" /\ t = <<>> /\ hist = <<>>
     /\ sel \in [G : [RS -> SCORES], r : RATIOS]
MGuess == /\ kind = "t" /\ Len(hist) < MAXG
          /\ \E c, g \in 1..NC : t' = Guess(t, c, g) /\ hist' = Append(hist, <<c, g>>)
          /\ UNCHANGED <<kind, sel>>
MReset == kind = "t" /\ hist # <<>> /\ t' = Zero(NC) /\ hist' = <<>> /\ UNCHANGED <<kind, sel>>
MScores == kind = "s" /\ "C" \notin DOMAIN sel
           /\ \E C \in [RS -> [1..CLASSES -> SCORES]] : sel' = [G |-> sel.G, r |-> sel.r, C |-> C]
           /\ UNCHANGED <<kind, t, hist>>
Next == MGuess \/ MReset \/ MScores
Spec == Init /\ [][Next]_vars

TableOK == kind = "t" => t = TableOf(NC, hist)
(* F1 = 2pr/(p+r) with p = tp/(tp+fp), r = tp/(tp+fn), in exact fractions      *)
F1OK == kind = "t" => \A c \in 1..NC :
  LET tp == TruePos(t, c)   fp == FalsePos(t, c)   fn == FalseNeg(t, c) IN
  /\ fp >= 0 /\ fn >= 0
  /\ tp # 0 =>
       LET num == 2 * tp * tp                         \* 2 p r * (tp+fp)(tp+fn)
           den == tp * (tp + fn) + tp * (tp + fp) IN  \* (p + r) * (tp+fp)(tp+fn)
       num * (2 * tp + fp + fn) = 2 * tp * den
  /\ F1(t, c) \in 0..FX
ScoreOK == kind = "t" =>
  /\ Score(t) \in 0..FX
  /\ (Score(t) = FX) = (\A c \in 1..NC : Seen(t, c) > 0 /\ FalseNeg(t, c) = 0)
  /\ (Score(t) = 0) = (\A c \in 1..NC : TruePos(t, c) = 0)
SelOK == kind = "s" /\ "C" \in DOMAIN sel =>
  LET del == (sel.r * ROOTS) \div 8
      keep == ROOTS - del IN
  Algo(RS, sel.G, sel.C, CLASSES, keep) = { K \in SUBSET RS : KeptOK(RS, sel.G, sel.C, CLASSES, keep, K) }
=============================================================================
