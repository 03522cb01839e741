------------------------------ MODULE TPGTrace ------------------------------
EXTENDS TPGEdit, GraphView, TraceLib
tvars == <<gvars, l>>
TInit == EInit /\ l = 1
Look == /\ \A i \in G : ViewOK(Ev.graphs[i]) /\ GraphOf(Ev.graphs[i]) = gs'[i]
        /\ \A i \in G : Consistent(gs'[i])
        (* programs live exactly as long as edges use them *)
        /\ \A k \in 1..Len(Ev.uses) :
             Uses(gs'[1], Ev.uses[k][1]) + Uses(gs'[2], Ev.uses[k][1]) = Ev.uses[k][2]
TReset == IsEvent("Reset") /\ gs' = [i \in G |-> NoGraph]
TNext ==
  \/ TReset
  \/ IsEvent("Team")   /\ AAddTeam(Ev.g, Ev.v) /\ Look
  \/ IsEvent("Action") /\ AAddAction(Ev.g, Ev.v, Ev.a) /\ Look
  \/ IsEvent("Edge")   /\ AAddEdge(Ev.g, Ev.n, Ev.s, Ev.d, Ev.p, Ev.ok) /\ Look
  \/ IsEvent("RemV")   /\ ARemVertex(Ev.g, Ev.v) /\ Look
  \/ IsEvent("RemE")   /\ ARemEdge(Ev.g, Ev.x, Ev.ok) /\ Look
  \/ IsEvent("CloneV") /\ ACloneVertex(Ev.g, Ev.v, Ev.n, Ev.es, Ev.ok) /\ Look
  \/ IsEvent("CloneE") /\ ACloneEdge(Ev.g, Ev.x, Ev.n, Ev.ok) /\ Look
  \/ IsEvent("SetDst") /\ ASetDst(Ev.g, Ev.x, Ev.d, Ev.ok) /\ Look
  \/ IsEvent("SetSrc") /\ ASetSrc(Ev.g, Ev.x, Ev.s, Ev.ok) /\ Look
  \/ IsEvent("SetProg") /\ ASetProg(Ev.g, Ev.x, Ev.p) /\ Look
  \/ IsEvent("Clear")  /\ AClear(Ev.g) /\ Look
  \/ IsEvent("Move")   /\ AMove(Ev.g, Ev.j) /\ Look
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
