------------------------------ MODULE MCTPGEdit ------------------------------
EXTENDS TPGEdit
CONSTANTS NV, NE, NP, TWO
Vids == 1..NV
Eids == 101..(100 + NE)
Free(S) == { x \in S : Fresh(x) }
First(S) == IF S = {} THEN {} ELSE { CHOOSE x \in S : \A y \in S : x <= y }
GG == IF TWO THEN G ELSE {1}
Next ==
  \E i \in GG :
   \/ \E v \in First(Free(Vids)) : AAddTeam(i, v) \/ AAddAction(i, v, 0)
   \/ \E e \in First(Free(Eids)), s, d \in Vids, p \in 1..NP, ok \in BOOLEAN : AAddEdge(i, e, s, d, p, ok)
   \/ \E v \in Vids : ARemVertex(i, v)
   \/ \E e \in Eids, ok \in BOOLEAN : ARemEdge(i, e, ok)
   \/ \E v \in Vids, n \in First(Free(Vids)), ok \in BOOLEAN :
        \E es \in { SubSeq(SetToSortSeq(Free(Eids), <), 1, k) : k \in 0..Cardinality(Free(Eids)) } :
           ACloneVertex(i, v, n, es, ok)
   \/ \E e \in Eids, n \in First(Free(Eids)), ok \in BOOLEAN : ACloneEdge(i, e, n, ok)
   \/ \E e \in Eids, d \in Vids, ok \in BOOLEAN : ASetDst(i, e, d, ok) \/ ASetSrc(i, e, d, ok)
   \/ AClear(i)
   \/ TWO /\ \E j \in GG : AMove(i, j)
Spec == EInit /\ [][Next]_gvars
(* action property: only the addressed graph changes, except for moves *)
CascadeExact ==   \* removing a vertex loses exactly its own edges
  [][\A i \in G : \A v \in V(gs[i]) :
        (V(gs'[i]) = V(gs[i]) \ {v}) =>
           E(gs'[i]) = { e \in E(gs[i]) : v \notin {gs[i].edges[e].src, gs[i].edges[e].dst} }]_gvars
=============================================================================
