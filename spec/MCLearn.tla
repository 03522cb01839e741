------------------------------- MODULE MCLearn -------------------------------
(* The training loop as the library computes it (sorted results, removal loop *)
(* that puts actions aside, update of the records and of the best policy,     *)
(* repeated root removal) refines the relations of Learn, on every small      *)
(* graph, score assignment and history.  Vertex names are reused like         *)
(* addresses.                                                                 *)
EXTENDS Learn
CONSTANTS NV, NA, ROOTS, GENS, RATIOS, SCORES, MAXEVAL
VARIABLES ph, gen, step
mvars == <<lvars, ph, gen, step>>

Min2(a, b) == IF a < b THEN a ELSE b
MInit ==
  /\ P \in { [roots |-> ROOTS, ratio |-> r, iters |-> 1, maxacts |-> 1, maxeval |-> MAXEVAL, val |-> FALSE] : r \in RATIOS }
  /\ V = 1..(NA + 1) /\ teams = {NA + 1} /\ E = { <<NA + 1, a>> : a \in 1..NA }
  /\ recs = <<>> /\ best = <<>> /\ ph = "idle" /\ gen = 0 /\ step = <<"init">>

(* population: new root teams, each over an action and any older vertex       *)
RECURSIVE Grow(_, _, _, _)
Grow(v, t, e, n) == \* set of <<V, teams, E>> reachable by adding teams until n roots
  LET roots == v \ { x[2] : x \in e } IN
  IF Cardinality(roots) >= n THEN { <<v, t, e>> }
  ELSE LET free == 1..NV \ v IN
       IF free = {} THEN {}
       ELSE LET x == Min(free) IN
            UNION { Grow(v \cup {x}, t \cup {x}, e \cup {<<x, 1>>, <<x, y>>}, n) : y \in V }
MPopulate ==
  /\ ph = "idle" /\ gen < GENS /\ gen' = gen + 1 /\ ph' = "eval" /\ step' = <<"populate">>
  /\ IF RootTeams = {}
     THEN /\ \E g \in Grow(1..(NA + 1), {NA + 1}, { <<NA + 1, a>> : a \in 1..NA }, P.roots) :
                 V' = g[1] /\ teams' = g[2] /\ E' = g[3]
          /\ recs' = <<>> /\ best' = <<>> /\ UNCHANGED P
     ELSE /\ \E g \in Grow(V, teams, E, P.roots) : V' = g[1] /\ teams' = g[2] /\ E' = g[3]
          /\ UNCHANGED <<P, recs, best>>

(* evaluation, then the library's own bookkeeping on the sorted results         *)
New == [Roots -> SCORES]
ScoreOf(v, f) == IF Exhausted(v) THEN recs[v] ELSE Scored(v, TRAINING, <<f[v]>>)
Sorted(R) == \* one insertion order among ties: by name
  SetToSortSeq(DOMAIN R, LAMBDA a, b : Less(R[a], R[b]) \/ (Leq(R[a], R[b]) /\ a < b))
RECURSIVE Loop(_, _, _, _)
Loop(seq, i, gone, kept) == \* while (i < ToDelete && !results.empty())
  IF i >= ToDelete \/ seq = <<>> THEN <<gone, kept \o seq>>
  ELSE IF Head(seq) \in teams THEN Loop(Tail(seq), i + 1, gone \cup {Head(seq)}, kept)
  ELSE Loop(Tail(seq), i, gone, Append(kept, Head(seq)))
MEvaluate ==
  /\ ph = "eval" /\ ph' = "idle" /\ UNCHANGED <<P, gen>>
  /\ \E f \in New :
       LET R == [v \in Roots |-> ScoreOf(v, f)]
           out == Loop(Sorted(R), 0, {}, <<>>)
           X == out[1]
           left == Sorted([v \in DOMAIN R \ X |-> R[v]])
           r1 == [v \in DOMAIN recs \ X |-> recs[v]]
           r2 == [v \in DOMAIN r1 \cup Range(left) |-> IF v \in Range(left) THEN R[v] ELSE r1[v]]
           b1 == IF best # <<>> /\ best[1] \in Range(left) THEN <<best[1], R[best[1]]>> ELSE best
           b2 == IF left = <<>> THEN (IF b1 # <<>> /\ b1[1] \in X THEN <<>> ELSE b1)
                 ELSE LET c == left[Len(left)] IN
                      IF b1 = <<>> \/ Less(b1[2], R[c]) \/ b1[1] \in X THEN <<c, R[c]>> ELSE b1
       IN /\ V' = V \ X /\ teams' = teams \ X /\ E' = { e \in E : e[1] \notin X }
          /\ recs' = r2 /\ best' = b2 /\ step' = <<"evaluate", R, X>>
RECURSIVE Strip(_, _)
Strip(v, e) == \* remove all roots but the best one until it is the only one
  LET roots == v \ { x[2] : x \in e } IN
  IF roots = {best[1]} THEN v
  ELSE LET gone == roots \ {best[1]} IN Strip(v \ gone, { x \in e : x[1] \notin gone })
MKeep ==
  /\ ph = "idle" /\ best # <<>> /\ ph' = "idle" /\ UNCHANGED <<P, gen, best>> /\ step' = <<"keep">>
  /\ LET K == Strip(V, E) IN
       /\ V' = K /\ teams' = teams \cap K /\ E' = { e \in E : e[1] \in K }
       /\ recs' = [v \in DOMAIN recs \cap K |-> recs[v]]
MForget == ph = "idle" /\ recs # <<>> /\ Forget /\ UNCHANGED <<ph, gen>> /\ step' = <<"forget">>
MNext == MPopulate \/ MEvaluate \/ MKeep \/ MForget
MSpec == MInit /\ [][MNext]_mvars

Refines ==
  [][ /\ (step'[1] = "populate" => Populate(V', teams', E'))
      /\ (step'[1] = "evaluate" => Decimate(step'[2], step'[3]))
      /\ (step'[1] = "keep" => KeepBest) ]_mvars
Live == RecsLive /\ BestLive
Recorded == BestRecorded
(* right after a generation the best policy is at least as good as every survivor *)
BestIsBest == step[1] = "evaluate" => (best # <<>> =>
   \A v \in DOMAIN step[2] \ step[3] : Leq(step[2][v], best[2]))
NeverTooMany == step[1] = "evaluate" => Cardinality(step[3]) <= ToDelete
==============================================================================
