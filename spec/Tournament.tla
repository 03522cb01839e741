----------------------------- MODULE Tournament ------------------------------
(***************************************************************************)
(* Adversarial trainings (property C13): every root meets the same teams of *)
(* champions at every position; champions are live policies among the best  *)
(* of the last evaluation round.                                            *)
(* P: [agents, iters (per evaluation), perjob, maxacts, keepnum, keepden]   *)
(* a share keepnum/keepden of the roots become champions.                   *)
(* A match: [players: sequence of vertices, pos: studied position or -1,    *)
(*           sc: sequence of <<sum of weighted scores, weight>>]            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CeilDiv(a, b) == (a + b - 1) \div b
NbTeams(P) == CeilDiv(P.iters, P.agents * P.perjob)
NbChampions(P, n) == (P.keepnum * n) \div P.keepden
(* a <= b for <<numerator, denominator>>, also those of the code: weights > 0 *)
QLess(a, b) == a[1] * b[2] < b[1] * a[2]
Better(last, v) == { w \in DOMAIN last : QLess(last[v], last[w]) }
AsGood(last, v) == { w \in DOMAIN last : ~QLess(last[w], last[v]) }
(* champions after a round that gave the scores `last`: the k best, ties open *)
Pool(P, last) == { v \in DOMAIN last : Cardinality(Better(last, v)) < NbChampions(P, Cardinality(DOMAIN last)) }
Sure(P, last) == { v \in DOMAIN last : Cardinality(AsGood(last, v)) <= NbChampions(P, Cardinality(DOMAIN last)) }
(* may every champion have left the graph since?                              *)
AllGone(P, last, V) ==
  LET k == NbChampions(P, Cardinality(DOMAIN last)) IN
  /\ Sure(P, last) \cap V = {}
  /\ Cardinality((Pool(P, last) \ Sure(P, last)) \ V) >= k - Cardinality(Sure(P, last))
(* who may be met                                                              *)
OpponentsOK(P, last, V, roots, opp) ==
  \/ last # <<>> /\ opp \subseteq (Pool(P, last) \cap V)
     /\ Cardinality(opp) <= NbChampions(P, Cardinality(DOMAIN last))
  \/ (last = <<>> \/ AllGone(P, last, V)) /\ opp \subseteq roots

Others(m) == [k \in 1..(Len(m.players) - 1) |-> m.players[IF k <= m.pos THEN k ELSE k + 1]]
OppOf(ms) == UNION { Range(Others(ms[i])) : i \in DOMAIN ms }
(* the teams met by root r at position i, with multiplicities                  *)
Met(ms, r, i) == LET I == { k \in DOMAIN ms : ms[k].pos = i /\ ms[k].players[i + 1] = r }
                     Ts == { Others(ms[k]) : k \in I }
                 IN [t \in Ts |-> Cardinality({ k \in I : Others(ms[k]) = t })]
(* a complete and fair tournament                                              *)
Complete(P, ms, V, roots) ==
  /\ \A k \in DOMAIN ms : /\ Len(ms[k].players) = P.agents /\ Range(ms[k].players) \subseteq V
                          /\ ms[k].pos \in 0..(P.agents - 1) /\ ms[k].players[ms[k].pos + 1] \in roots
  /\ Len(ms) = Cardinality(roots) * P.agents * NbTeams(P)
  /\ LET r0 == CHOOSE r \in roots : TRUE
         b == Met(ms, r0, 0)
     IN \A r \in roots, i \in 0..(P.agents - 1) : Met(ms, r, i) = b
        /\ (\A t \in DOMAIN b : b[t] > 0)

(* result of a vertex: weighted mean over the positions that count             *)
Counts(m) == IF m.pos = -1 THEN DOMAIN m.players ELSE {m.pos + 1}
Held(ms, r) == { <<k, i>> \in UNION { {k} \X Counts(ms[k]) : k \in DOMAIN ms } : ms[k].players[i] = r }
RECURSIVE Sum2(_, _)
Sum2(ms, S) == IF S = {} THEN <<0, 0>>
               ELSE LET x == CHOOSE y \in S : TRUE
                        q == Sum2(ms, S \ {x})
                    IN <<q[1] + ms[x[1]].sc[x[2]][1], q[2] + ms[x[1]].sc[x[2]][2]>>
ResultOf(ms, r) == Sum2(ms, Held(ms, r))
==============================================================================
