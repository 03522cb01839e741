---------------------------- MODULE DotFileTrace ----------------------------
(* g, progs: the graph of the driver; files: what was saved; h, hprogs: the   *)
(* graph that was last loaded.  Inferences are made on both.                  *)
EXTENDS DotFile, Infer, GraphView, TraceLib
VARIABLES env, g, progs, files, h, hprogs, data, bid, hbid
tvars == <<env, g, progs, files, h, hprogs, data, bid, hbid, l>>
TInit == /\ env = <<>> /\ g = NoGraph /\ progs = <<>> /\ files = <<>> /\ h = NoGraph /\ hprogs = <<>>
         /\ data = <<>> /\ bid = <<>> /\ hbid = <<>> /\ l = 1
ProgsOf(x) == [p \in { x[k].id : k \in 1..Len(x) } |->
                 LET k == CHOOSE k \in 1..Len(x) : x[k].id = p IN [lines |-> x[k].lines, cst |-> x[k].cst]]
(* what a file must preserve of a program: intron marks are recomputed *)
Content(ps) == [p \in DOMAIN ps |->
   [cst |-> ps[p].cst,
    lines |-> [k \in 1..Len(ps[p].lines) |-> LET x == ps[p].lines[k] IN <<<<x.i, x.d>>, x.o>>]]]
TNext ==
  \/ /\ IsEvent("Env")
     /\ env' = [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> Ev.ops]
     /\ g' = NoGraph /\ progs' = <<>> /\ files' = <<>> /\ h' = NoGraph /\ hprogs' = <<>>
     /\ data' = <<>> /\ bid' = <<>> /\ hbid' = <<>>
  \/ /\ IsEvent("Graph") /\ ViewOK(Ev.graph) /\ g' = GraphOf(Ev.graph) /\ progs' = ProgsOf(Ev.progs)
     /\ data' = <<>> /\ bid' = <<>> /\ hbid' = <<>> /\ UNCHANGED <<env, files, h, hprogs>>
  \/ (* saving succeeds and leaves the graph as it was *)
     /\ IsEvent("Export") /\ Ev.error = ""
     /\ ViewOK(Ev.graph) /\ GraphOf(Ev.graph) = g /\ ProgsOf(Ev.progs) = progs
     /\ files' = With(files, Ev.f,
          LET s == IF Ev.root = 0 THEN g ELSE Sub(g, Ev.root)
          IN [g |-> s, ps |-> Content([p \in Progs(s) |-> progs[p]])])
     /\ UNCHANGED <<env, g, progs, h, hprogs, data, bid, hbid>>
  \/ (* loading gives the saved graph *)
     /\ IsEvent("Import") /\ Ev.error = "" /\ Ev.f \in DOMAIN files
     /\ ViewOK(Ev.graph) /\ h' = GraphOf(Ev.graph) /\ hprogs' = ProgsOf(Ev.progs)
     /\ SameGraph(files[Ev.f].g, files[Ev.f].ps, h', Content(hprogs'))
     /\ data' = <<>> /\ bid' = <<>> /\ hbid' = <<>> /\ UNCHANGED <<env, g, progs, files>>
  \/ (* the loaded graph becomes the graph of the driver *)
     /\ IsEvent("Swap") /\ ViewOK(Ev.graph) /\ GraphOf(Ev.graph) = h /\ ProgsOf(Ev.progs) = hprogs
     /\ g' = h /\ progs' = hprogs /\ h' = NoGraph /\ hprogs' = <<>>
     /\ data' = <<>> /\ bid' = <<>> /\ hbid' = <<>> /\ UNCHANGED <<env, files>>
  \/ /\ IsEvent("Data") /\ data' = Ev.data
     /\ bid' = BidsOf(env, g, progs, data') /\ hbid' = BidsOf(env, h, hprogs, data')
     /\ UNCHANGED <<env, g, progs, files, h, hprogs>>
  \/ (* both graphs are followed to the same action *)
     /\ IsEvent("Run") /\ UNCHANGED <<env, g, progs, files, h, hprogs, data, bid, hbid>>
     /\ Ev.path = PathFrom(g, bid, Ev.root) /\ Ev.hpath = PathFrom(h, hbid, Ev.hroot)
     /\ Ev.follows => [k \in 1..Len(Ev.path) |-> Sig(g, Content(progs), Ev.path[k])]
                    = [k \in 1..Len(Ev.hpath) |-> Sig(h, Content(hprogs), Ev.hpath[k])]
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
