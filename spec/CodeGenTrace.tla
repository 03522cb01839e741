---------------------------- MODULE CodeGenTrace ----------------------------
(* The generated programs of a graph against the specified decisions.       *)
EXTENDS Infer, GraphView, TraceLib
VARIABLES env, g, bid, progs, data, built
tvars == <<env, g, bid, progs, data, built, l>>
TInit == env = <<>> /\ g = NoGraph /\ bid = <<>> /\ progs = <<>> /\ data = <<>> /\ built = {} /\ l = 1
ProgsOf(x) == [p \in { x[k].id : k \in 1..Len(x) } |->
                 LET k == CHOOSE k \in 1..Len(x) : x[k].id = p IN [lines |-> x[k].lines, cst |-> x[k].cst]]
Decision(v) == LET p == PathFrom(g, bid, v) IN g.act[p[Len(p)]]
TNext ==
  \/ /\ IsEvent("Env")
     /\ env' = [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> Ev.ops]
     /\ g' = NoGraph /\ bid' = <<>> /\ progs' = <<>> /\ data' = <<>> /\ built' = {}
  \/ /\ IsEvent("Data") /\ data' = Ev.data /\ bid' = BidsOf(env, g, progs, data') /\ UNCHANGED <<env, g, progs, built>>
  \/ /\ IsEvent("Graph") /\ ViewOK(Ev.graph) /\ g' = GraphOf(Ev.graph) /\ progs' = ProgsOf(Ev.progs)
     /\ bid' = BidsOf(env, g', progs', data) /\ built' = {}
     /\ UNCHANGED <<env, data>>
  \/ (* the generated sources compile and link *)
     /\ IsEvent("Gen") /\ Ev.ok /\ built' = built \cup {Ev.mode} /\ UNCHANGED <<env, g, bid, progs, data>>
  \/ /\ IsEvent("Same") /\ UNCHANGED <<env, g, bid, progs, data, built>>
     /\ ViewOK(Ev.graph) /\ GraphOf(Ev.graph) = g /\ ProgsOf(Ev.progs) = progs
  \/ (* one call of each *)
     /\ IsEvent("Call") /\ built = {"switch", "stack"} /\ UNCHANGED <<env, g, bid, progs, data, built>>
     /\ Ev.root = Roots(g)[1]
     /\ LET d == Decision(Ev.root) IN Ev.sw = d /\ Ev.st = d /\ Ev.lib = d
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
