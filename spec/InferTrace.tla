----------------------------- MODULE InferTrace -----------------------------
EXTENDS Infer, GraphView, TraceLib
VARIABLES env, g, bid, progs, data
tvars == <<env, g, bid, progs, data, l>>
TInit == env = <<>> /\ g = NoGraph /\ bid = <<>> /\ progs = <<>> /\ data = <<>> /\ l = 1
ProgsOf(x) == [p \in { x[k].id : k \in 1..Len(x) } |->
                 LET k == CHOOSE k \in 1..Len(x) : x[k].id = p IN [lines |-> x[k].lines, cst |-> x[k].cst]]
TNext ==
  \/ /\ IsEvent("Env")
     /\ env' = [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> Ev.ops]
     /\ g' = NoGraph /\ bid' = <<>> /\ progs' = <<>> /\ data' = <<>>
  \/ /\ IsEvent("Data") /\ data' = Ev.data /\ bid' = BidsOf(env, g, progs, data') /\ UNCHANGED <<env, g, progs>>
  \/ /\ IsEvent("Graph") /\ ViewOK(Ev.graph) /\ g' = GraphOf(Ev.graph) /\ progs' = ProgsOf(Ev.progs)
     /\ bid' = IF data = <<>> THEN <<>> ELSE BidsOf(env, g', progs', data)
     /\ UNCHANGED <<env, data>>
  \/ (* inference: exact path, and every edge's bid recorded on the way *)
     /\ IsEvent("Run") /\ UNCHANGED <<env, g, bid, progs, data>>
     /\ LET p == PathFrom(g, bid, Ev.root)
            ev == Evaluated(g, p)
        IN /\ Ev.path = p
           /\ "recs" \in DOMAIN Ev =>
                Ev.recs = [k \in 1..Len(ev) |-> <<g.edges[ev[k]].prog, Clean(bid[ev[k]])>>]
  \/ /\ IsEvent("Edge") /\ UNCHANGED <<env, g, bid, progs, data>> /\ Ev.bid = Clean(bid[Ev.x])
  \/ /\ IsEvent("Team") /\ UNCHANGED <<env, g, bid, progs, data>> /\ Ev.x = Follow(g, bid, Ev.v)
  \/ /\ IsEvent("Same") /\ UNCHANGED <<env, g, bid, progs, data>>   \* nothing was modified
     /\ ViewOK(Ev.graph) /\ GraphOf(Ev.graph) = g /\ ProgsOf(Ev.progs) = progs
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
