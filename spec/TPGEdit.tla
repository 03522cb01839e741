------------------------------- MODULE TPGEdit -------------------------------
(***************************************************************************)
(* Edit sequences as a state machine: two graphs (a second one provides    *)
(* foreign vertices and edges, and is the other side of moves).            *)
(***************************************************************************)
EXTENDS TPG
VARIABLE gs       \* graph name -> graph
gvars == <<gs>>
G == {1, 2}

EInit == gs = [i \in G |-> NoGraph]

Upd(i, g) == gs' = [gs EXCEPT ![i] = g]
Fresh(x) == \A i \in G : x \notin V(gs[i]) /\ x \notin E(gs[i])

AAddTeam(i, v)      == Fresh(v) /\ Upd(i, AddVertex(gs[i], v, "T", -1))
AAddAction(i, v, a) == Fresh(v) /\ Upd(i, AddVertex(gs[i], v, "A", a))
AAddEdge(i, e, s, d, p, ok) ==
  IF CanBeSource(gs[i], s) /\ d \in V(gs[i])
  THEN ok /\ Fresh(e) /\ Upd(i, AddEdge(gs[i], e, s, d, p))
  ELSE ~ok /\ UNCHANGED gvars
ARemVertex(i, v)  == IF v \in V(gs[i]) THEN Upd(i, RemVertex(gs[i], v))
                     ELSE UNCHANGED gvars
ARemEdge(i, e, ok) == IF e \in E(gs[i]) THEN ok /\ Upd(i, RemEdges(gs[i], {e}))
                      ELSE ~ok /\ UNCHANGED gvars
ACloneVertex(i, v, n, es, ok) ==
  IF v \in V(gs[i])
  THEN /\ ok /\ Fresh(n) /\ \A k \in 1..Len(es) : Fresh(es[k])
       /\ Injective(es) /\ Len(es) = Len(gs[i].outs[v])
       /\ Upd(i, CloneVertex(gs[i], v, n, es))
  ELSE ~ok /\ UNCHANGED gvars
ACloneEdge(i, e, n, ok) ==
  IF e \in E(gs[i]) THEN ok /\ Fresh(n) /\ Upd(i, CloneEdge(gs[i], e, n))
  ELSE ~ok /\ UNCHANGED gvars
ASetDst(i, e, d, ok) ==
  IF e \in E(gs[i]) /\ d \in V(gs[i]) THEN ok /\ Upd(i, MoveDst(gs[i], e, d))
  ELSE ~ok /\ UNCHANGED gvars
ASetSrc(i, e, s, ok) ==
  IF e \in E(gs[i]) /\ CanBeSource(gs[i], s) THEN ok /\ Upd(i, MoveSrc(gs[i], e, s))
  ELSE ~ok /\ UNCHANGED gvars
ASetProg(i, e, p) == e \in E(gs[i]) /\ Upd(i, SetProg(gs[i], e, p))
AClear(i) == Upd(i, NoGraph)
(* graph j is move-assigned to graph i; what i held disappears *)
AMove(i, j) == i # j /\ gs' = [gs EXCEPT ![i] = gs[j], ![j] = NoGraph]

(* ------------------------------ properties ------------------------------ *)
AllConsistent == \A i \in G : Consistent(gs[i])
NoSharing == V(gs[1]) \cap V(gs[2]) = {} /\ E(gs[1]) \cap E(gs[2]) = {}
(* an edit of one graph leaves the other alone (action property) *)
RootsAre == \A i \in G : \A v \in V(gs[i]) :
   (v \in ToSet(Roots(gs[i]))) <=> (\A w \in V(gs[i]) : v \notin Succ(gs[i], w))
=============================================================================
