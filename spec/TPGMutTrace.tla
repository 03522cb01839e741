---------------------------- MODULE TPGMutTrace ----------------------------
EXTENDS TPGMut, GraphView, TraceLib
VARIABLES g, dig
tvars == <<g, dig, l>>
GrantedNow == { k \in {"KF_C02_dest"} : k \in DOMAIN IOEnv }
Digs(x) == [p \in { x[k][1] : k \in 1..Len(x) } |-> LET k == CHOOSE k \in 1..Len(x) : x[k][1] = p IN x[k][2]]
TInit == g = NoGraph /\ dig = <<>> /\ l = 1
(* every event: well-formed projection; programs keep their content *)
Look == /\ ViewOK(Ev.graph) /\ g' = GraphOf(Ev.graph) /\ Consistent(g')
        /\ dig' = Digs(Ev.dig)
KeepDig == \A p \in DOMAIN dig \cap DOMAIN Digs(Ev.dig) : dig[p] = Digs(Ev.dig)[p]
TNext ==
  \/ IsEvent("Reset") /\ g' = NoGraph /\ dig' = <<>>
  \/ /\ IsEvent("Init") /\ Look
     /\ Ev.ok = Accepts(Ev.params)
     /\ IF Ev.ok THEN InitOK(g', Ev.params) /\ Acyclic(g') ELSE g' = g /\ dig' = dig
  \/ /\ IsEvent("Populate") /\ Look /\ (RootTeams(g) # {} => KeepDig)
     /\ IF Ev.ok THEN PopulateOK(g, g', Ev.params)
        ELSE DestMayThrow(TeamSeq(g), ActionSeq(g), Ev.params) /\ May(Ev.params.chg)
  \/ IsEvent("Look") /\ Look /\ KeepDig
  \/ IsEvent("RemEdge") /\ Look /\ KeepDig /\ RemovedEdge(g, g', Ev.v)
  \/ IsEvent("AddEdge") /\ Look /\ KeepDig /\ AddedEdge(g, g', Ev.v, Ev.pre)
  \/ IsEvent("Clone") /\ Look /\ KeepDig /\ ClonedRoot(g, g', Ev.from, Ev.v)
  \/ IsEvent("MutDest") /\ Look /\ KeepDig /\ MutatedDest(g, g', Ev.x, Ev.T, Ev.A, Ev.params, Ev.ok)
     /\ IF Ev.params.act = 100 /\ (Ev.ok => g'.edges[Ev.x].dst \notin ToSet(Ev.A))
        THEN PrintT(<<"KNOWN_FINDING", "KF_C02_dest">>) ELSE TRUE
  \/ IsEvent("MutOut") /\ Look /\ KeepDig
     /\ MutatedOut(g, g', dig, dig', Ev.x, Ev.T, Ev.A, Ev.new, Ev.params, Ev.ok)
  \/ IsEvent("MutTeam") /\ Look /\ KeepDig
     /\ MutatedTeam(g, g', dig, dig', Ev.v, Ev.T, Ev.A, Ev.E, Ev.new, Ev.params, Ev.ok)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
