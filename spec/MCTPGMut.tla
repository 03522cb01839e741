------------------------------ MODULE MCTPGMut ------------------------------
(* The evolution design: initial teams over actions, then any mixture of     *)
(* adding a mutated clone of a root (its edges: any selection of old edges,  *)
(* some given a new program and possibly a new destination among the vertices*)
(* existing when the population step began) and of removing roots.           *)
EXTENDS TPGMut
CONSTANTS MaxV, Adds
VARIABLES left, g, base      \* base: the graph when the population step began
vars == <<g, base, left>>
N == 2
CONSTANT Arr
Ids0 == 1..100
NextV == 1 + CHOOSE m \in 0..100 : (V(g) = {} /\ m = 0) \/ (m \in V(g) /\ \A v \in V(g) : v <= m)
FreeE(k) == LET used == E(g) IN [j \in 1..k |-> CHOOSE x \in 1..60 : x \notin used /\ Cardinality({ y \in 1..x : y \notin used }) = j]
FreeP(k) == LET used == Progs(g) IN [j \in 1..k |-> CHOOSE x \in 1..60 : x \notin used /\ Cardinality({ y \in 1..x : y \notin used }) = j]
G0 == LET a == AddVertex(AddVertex(NoGraph, 1, "A", 0), 2, "T", -1)
          b == AddVertex(AddVertex(a, 3, "A", 1), 4, "T", -1)
      IN AddEdge(AddEdge(AddEdge(AddEdge(b, 1, 2, 1, 1), 2, 2, 3, 2), 3, 4, 3, 3), 4, 4, 1, 4)
Par == [n |-> 2, init |-> 2, max |-> Arr, roots |-> 3, del |-> 50, add |-> 50, chg |-> 50, act |-> 50, mut |-> 50]
Init == g = G0 /\ base = G0 /\ left = Adds
(* signatures of a new team: 2..Arr edges, each an old edge of base, kept or mutated *)
Choice == { <<e, m, d>> : e \in E(base), m \in {0, 1}, d \in V(base) \cup {0} }
OkChoice == { c \in Choice : c[2] = 0 => c[3] = 0 }
AddTeam ==
  /\ Len(g.verts) < MaxV /\ left > 0 /\ left' = left - 1
  /\ \E k \in 2..Arr : \E s \in [1..k -> OkChoice] :
       /\ \E j \in 1..k : s[j][2] = 1
       /\ \A i, j \in 1..k : i < j => s[i][1] <= s[j][1]     \* up to order
       /\ LET v == NextV
              fe == FreeE(k)
              fp == FreeP(k)
              put(acc, j) ==
                LET old == base.edges[s[j][1]] IN
                AddEdge(acc, fe[j], v, IF s[j][3] = 0 THEN old.dst ELSE s[j][3],
                        IF s[j][2] = 1 THEN fp[j] ELSE old.prog)
          IN g' = FoldLeft(put, AddVertex(g, v, "T", -1), [j \in 1..k |-> j])
  /\ UNCHANGED base
(* selection between two population steps *)
Cull == /\ UNCHANGED left /\ \E v \in RootTeams(g) : g' = RemVertex(g, v) /\ base' = g'
Commit == g # base /\ base' = g /\ g' = g /\ UNCHANGED left
Next == AddTeam \/ Cull \/ Commit
Spec == Init /\ [][Next]_vars
WellFormed == /\ Consistent(g) /\ Acyclic(g) /\ SharedLead(g)
              /\ \A t \in Teams(g) : Arity(g, t) >= 2 /\ Arity(g, t) <= Arr
(* everything before the step is intact, new teams are roots *)
OldIntact == V(base) \subseteq V(g) /\ SameAt(base, g, V(base))
             /\ \A v \in V(g) \ V(base) : Ins(g, v) = {}
(* each growth is what the recorded population steps are held to *)
Growth == [][ Len(g'.verts) > Len(g.verts) => LET n == Len(g'.verts) IN NewTeamOK(base, g', g'.verts[n], Par) ]_vars
=============================================================================
