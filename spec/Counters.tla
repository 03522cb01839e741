------------------------------- MODULE Counters -------------------------------
(***************************************************************************)
(* What an instrumented graph counts (property C17).                       *)
(* A count c is [v : vertex -> visits, e : edge -> evaluations,            *)
(*               t : edge -> times followed].                              *)
(***************************************************************************)
EXTENDS Infer, FiniteSetsExt
ZeroCount(g) == [v |-> [x \in V(g) |-> 0], e |-> [x \in E(g) |-> 0], t |-> [x \in E(g) |-> 0]]
(* n inferences that took path p under the bids bid *)
Add(g, bid, c, p, n) ==
  LET fol == ToSet(Followed(g, bid, p))
      on == ToSet(p)
  IN [v |-> [x \in V(g) |-> c.v[x] + (IF x \in on THEN n ELSE 0)],
      e |-> [x \in E(g) |-> c.e[x] + (IF g.edges[x].src \in on THEN n ELSE 0)],
      t |-> [x \in E(g) |-> c.t[x] + (IF x \in fol THEN n ELSE 0)]]
(* the counts of a graph that replaces g: what stays keeps its count *)
Carry(c, g2) ==
  [v |-> [x \in V(g2) |-> IF x \in DOMAIN c.v THEN c.v[x] ELSE 0],
   e |-> [x \in E(g2) |-> IF x \in DOMAIN c.e THEN c.e[x] ELSE 0],
   t |-> [x \in E(g2) |-> IF x \in DOMAIN c.t THEN c.t[x] ELSE 0]]
(* the graph without its unused parts *)
Pruned(g, c) ==
  LET vs == { x \in V(g) : c.v[x] > 0 }
      es == { x \in E(g) : c.t[x] > 0 /\ g.edges[x].src \in vs /\ g.edges[x].dst \in vs }
  IN [verts |-> SelectSeq(g.verts, LAMBDA x : x \in vs),
      kind |-> [x \in vs |-> g.kind[x]], act |-> [x \in vs |-> g.act[x]],
      edges |-> [x \in es |-> g.edges[x]],
      outs |-> [x \in vs |-> SelectSeq(g.outs[x], LAMBDA y : y \in es)]]
Total(f) == FoldSet(LAMBDA x, a : f[x] + a, 0, DOMAIN f)
Sum(f, S) == FoldSet(LAMBDA x, a : f[x] + a, 0, S)
(* what goes in comes out: holds of the counts of complete inferences, n of *)
(* which (a function) started at each vertex                                *)
Flow(g, c, n) ==
  \A x \in V(g) :
    /\ c.v[x] = (IF x \in DOMAIN n THEN n[x] ELSE 0) + Sum(c.t, Ins(g, x))
    /\ g.kind[x] = "T" => c.v[x] = Sum(c.t, ToSet(g.outs[x]))
    /\ \A y \in ToSet(g.outs[x]) : c.e[y] = c.v[x]
=============================================================================
