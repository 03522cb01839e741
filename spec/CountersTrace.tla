---------------------------- MODULE CountersTrace ----------------------------
(* Recorded uses of instrumented graphs and engines (C17).                   *)
EXTENDS Counters, GraphView, TraceLib
VARIABLES env, g, bid, progs, data, c, hist
tvars == <<env, g, bid, progs, data, c, hist, l>>
TInit == /\ env = <<>> /\ g = NoGraph /\ bid = <<>> /\ progs = <<>> /\ data = <<>>
         /\ c = ZeroCount(NoGraph) /\ hist = <<>> /\ l = 1
ProgsOf(x) == [p \in { x[k].id : k \in 1..Len(x) } |->
                 LET k == CHOOSE k \in 1..Len(x) : x[k].id = p IN [lines |-> x[k].lines, cst |-> x[k].cst]]
Known(o, k) == IF o \in DOMAIN hist THEN hist[o] ELSE k
(* the counters read from every vertex and edge *)
Counted(x, y) ==
  /\ { x[k][1] : k \in 1..Len(x) } = V(g) /\ \A k \in 1..Len(x) : c.v[x[k][1]] = x[k][2]
  /\ { y[k][1] : k \in 1..Len(y) } = E(g) /\ \A k \in 1..Len(y) : c.e[y[k][1]] = y[k][2] /\ c.t[y[k][1]] = y[k][3]
TNext ==
  \/ /\ IsEvent("Env")
     /\ env' = [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> Ev.ops]
     /\ g' = NoGraph /\ bid' = <<>> /\ progs' = <<>> /\ data' = <<>> /\ c' = ZeroCount(NoGraph) /\ hist' = <<>>
  \/ /\ IsEvent("Data") /\ data' = Ev.data /\ bid' = BidsOf(env, g, progs, data')
     /\ UNCHANGED <<env, g, progs, c, hist>>
  \/ /\ IsEvent("Graph") /\ ViewOK(Ev.graph) /\ g' = GraphOf(Ev.graph) /\ progs' = ProgsOf(Ev.progs)
     /\ bid' = (IF data = <<>> THEN <<>> ELSE BidsOf(env, g', progs', data))
     /\ c' = Carry(c, g') /\ UNCHANGED <<env, data, hist>>
  \/ (* an inference of engine Ev.eng; 0 is an engine that does not count *)
     /\ IsEvent("Run") /\ UNCHANGED <<env, g, bid, progs, data>>
     /\ Ev.path = PathFrom(g, bid, Ev.root)
     /\ "was" \in DOMAIN Ev => Ev.path = Ev.was
     /\ c' = (IF Ev.eng = 0 THEN c ELSE Add(g, bid, c, Ev.path, 1))
     /\ hist' = (IF Ev.eng = 0 THEN hist ELSE (Ev.eng :> Append(Known(Ev.eng, <<>>), Ev.path)) @@ hist)
  \/ (* single evaluations *)
     /\ IsEvent("Edge") /\ UNCHANGED <<env, g, bid, progs, data, hist>> /\ Ev.bid = Clean(bid[Ev.x])
     /\ c' = [c EXCEPT !.e[Ev.x] = @ + 1]
  \/ /\ IsEvent("Team") /\ UNCHANGED <<env, g, bid, progs, data, hist>> /\ Ev.x = Follow(g, bid, Ev.v)
     /\ c' = [v |-> [c.v EXCEPT ![Ev.v] = @ + 1], t |-> [c.t EXCEPT ![Ev.x] = @ + 1],
              e |-> [x \in E(g) |-> c.e[x] + (IF g.edges[x].src = Ev.v THEN 1 ELSE 0)]]
  \/ (* several threads, each with its own engine: n inferences from a root each *)
     /\ IsEvent("Threads") /\ UNCHANGED <<env, g, bid, progs, data, hist>>
     /\ \A k \in 1..Len(Ev.runs) : Ev.runs[k].same /\ Ev.runs[k].path = PathFrom(g, bid, Ev.runs[k].root)
     /\ c' = FoldLeft(LAMBDA a, r : Add(g, bid, a, r.path, r.n), c, Ev.runs)
  \/ /\ IsEvent("Count") /\ Counted(Ev.v, Ev.ed) /\ UNCHANGED <<env, g, bid, progs, data, c, hist>>
  \/ /\ IsEvent("Reset") /\ c' = ZeroCount(g) /\ UNCHANGED <<env, g, bid, progs, data, hist>>
  \/ (* the traces an engine keeps *)
     /\ IsEvent("Hist") /\ Ev.hist = Known(Ev.eng, <<>>) /\ UNCHANGED <<env, g, bid, progs, data, c, hist>>
  \/ /\ IsEvent("ClearHist") /\ hist' = (Ev.eng :> <<>>) @@ hist /\ UNCHANGED <<env, g, bid, progs, data, c>>
  \/ (* removal of the unused parts *)
     /\ IsEvent("Prune") /\ ViewOK(Ev.graph) /\ g' = GraphOf(Ev.graph) /\ g' = Pruned(g, c)
     /\ progs' = ProgsOf(Ev.progs) /\ \A p \in DOMAIN progs' : progs'[p] = progs[p]
     /\ bid' = BidsOf(env, g', progs', data) /\ c' = Carry(c, g') /\ UNCHANGED <<env, data, hist>>
  \/ (* a training on an instrumented graph evaluated its roots: n inferences started at each vertex *)
     /\ IsEvent("Train")
     /\ LET w == GraphOf(Ev.graph)
            f == [v |-> [x \in V(w) |-> Ev.v[CHOOSE k \in 1..Len(Ev.v) : Ev.v[k][1] = x][2]],
                  e |-> [x \in E(w) |-> Ev.ed[CHOOSE k \in 1..Len(Ev.ed) : Ev.ed[k][1] = x][2]],
                  t |-> [x \in E(w) |-> Ev.ed[CHOOSE k \in 1..Len(Ev.ed) : Ev.ed[k][1] = x][3]]]
            n == [x \in { Ev.n[k][1] : k \in 1..Len(Ev.n) } |-> Ev.n[CHOOSE k \in 1..Len(Ev.n) : Ev.n[k][1] = x][2]]
        IN ViewOK(Ev.graph) /\ Flow(w, f, n)
     /\ UNCHANGED <<env, g, bid, progs, data, c, hist>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
