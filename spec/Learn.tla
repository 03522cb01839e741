-------------------------------- MODULE Learn --------------------------------
(***************************************************************************)
(* The training process of one agent (properties C11, C12): records of past *)
(* evaluations, budgets, selection, best policy.  A score is <<s, n>>: the  *)
(* mean s/n of n evaluations.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES P,        \* parameters: roots, ratio (eighths), iters, maxacts, maxeval, val
          V,        \* vertices of the graph
          teams,    \* those that are teams
          E,        \* edges <<source, destination>>
          recs,     \* vertex -> recorded score
          best      \* <<>> or <<vertex, score>>
lvars == <<P, V, teams, E, recs, best>>
gvars == <<V, teams, E>>

(* ---- scores ---------------------------------------------------------- *)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Leq(a, b)  == ~Less(b, a)
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Best(S) == CHOOSE a \in S : \A b \in S : Leq(b, a)

Roots == V \ { e[2] : e \in E }
RootTeams == Roots \cap teams

(* ---- evaluation of one policy ----------------------------------------- *)
TRAINING == 0
Exhausted(v) == v \in DOMAIN recs /\ recs[v][2] >= P.maxeval
(* Score obtained by evaluating v, given the scores of the new iterations   *)
Scored(v, mode, new) ==
  LET s == <<FoldSeq(LAMBDA a, b : a + b, 0, new), P.iters>> IN
  IF mode = TRAINING /\ v \in DOMAIN recs THEN Plus(s, recs[v]) ELSE s
(* Number of actions an episode of the given length gets                    *)
Played(limit) == Min({limit, P.maxacts})

(* ---- selection ---------------------------------------------------------- *)
ToDelete == (P.ratio * P.roots) \div 8
(* X are the removed roots, R the scores of the generation                   *)
Selects(R, X) ==
  LET c == DOMAIN R \cap teams IN
  /\ X \subseteq c
  /\ Cardinality(X) = Min({ToDelete, Cardinality(c)})
  /\ \A x \in X, y \in c \ X : Leq(R[x], R[y])

(* Records and best policy after a generation with scores R, removed X.      *)
Updated(R, X) == [v \in (DOMAIN recs \ X) \cup (DOMAIN R \ X) |-> IF v \in DOMAIN R THEN R[v] ELSE recs[v]]
NextBest(R, X, new) ==
  LET S == DOMAIN R \ X
      alive == best # <<>> /\ best[1] \notin X /\ best[1] \in V
      cur == IF ~alive THEN <<>>
             ELSE IF best[1] \in S THEN <<best[1], R[best[1]]>> ELSE best
      tops == { v \in S : \A w \in S : Leq(R[w], R[v]) }
      cand == { <<v, R[v]>> : v \in tops } IN
  IF S = {} THEN new = cur
  ELSE IF cur = <<>> \/ \E c \in cand : Less(cur[2], c[2]) THEN new \in cand
  ELSE IF \E c \in cand : Leq(cur[2], c[2]) THEN new = cur \/ new \in cand   \* ties
  ELSE new = cur

(* ---- steps ---------------------------------------------------------------- *)
Forget == recs' = <<>> /\ best' = <<>> /\ UNCHANGED <<P, V, teams, E>>
(* A population step keeps every vertex; without root team it starts over.    *)
Populate(V2, T2, E2) ==
  /\ V' = V2 /\ teams' = T2 /\ E' = E2 /\ UNCHANGED P
  /\ Cardinality(Roots') >= P.roots
  /\ IF RootTeams = {} THEN recs' = <<>> /\ best' = <<>>
     ELSE V \subseteq V2 /\ V \cap T2 = teams /\ UNCHANGED <<recs, best>>
Decimate(R, X) ==
  /\ Selects(R, X)
  /\ V' = V \ X /\ teams' = teams \ X
  /\ E' = { e \in E : e[1] \notin X }
  /\ recs' = Updated(R, X)
  /\ NextBest(R, X, best')
  /\ UNCHANGED P
RECURSIVE Below(_, _)
Below(S, n) == IF n = 0 THEN S ELSE Below(S \cup { e[2] : e \in { x \in E : x[1] \in S } }, n - 1)
KeepBest ==
  LET K == Below({best[1]}, Cardinality(V)) IN
  /\ best # <<>> /\ best[1] \in V
  /\ V' = K /\ teams' = teams \cap K /\ E' = { e \in E : e[1] \in K }
  /\ recs' = [v \in DOMAIN recs \cap K |-> recs[v]]
  /\ UNCHANGED <<P, best>>

(* ---- invariants ------------------------------------------------------------ *)
RecsLive == DOMAIN recs \subseteq V
BestLive == best # <<>> => best[1] \in V
BestRecorded == best # <<>> => best[1] \in DOMAIN recs /\ recs[best[1]] = best[2]
==============================================================================
