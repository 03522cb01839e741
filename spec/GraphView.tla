------------------------------ MODULE GraphView ------------------------------
(* Reading the drivers' projection of a graph.                               *)
(*   w = [verts, kind, act, outs, ins, edges, roots, nroots, nverts]          *)
(* verts: ids; kind, act, outs, ins: aligned with verts; edges: sequence of   *)
(* <<id, src, dst, prog>>.  An id of -1 stands for a pointer that is not a    *)
(* live element of the graph.                                                 *)
EXTENDS TPG
IdxOf(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
GraphOf(w) ==
  LET vs == w.verts
      es == w.edges
  IN [ verts |-> vs,
       kind  |-> [v \in ToSet(vs) |-> w.kind[IdxOf(vs, v)]],
       act   |-> [v \in ToSet(vs) |-> w.act[IdxOf(vs, v)]],
       outs  |-> [v \in ToSet(vs) |-> w.outs[IdxOf(vs, v)]],
       edges |-> [e \in { es[k][1] : k \in 1..Len(es) } |->
                    LET k == CHOOSE k \in 1..Len(es) : es[k][1] = e
                    IN [src |-> es[k][2], dst |-> es[k][3], prog |-> es[k][4]]] ]
(* the parts of the view a graph of the specification does not carry *)
ViewOK(w) ==
  LET g == GraphOf(w) IN
  /\ Injective(w.verts)
  /\ \A j, k \in 1..Len(w.edges) : w.edges[j][1] = w.edges[k][1] => j = k
  /\ -1 \notin ToSet(w.verts) /\ -1 \notin E(g)
  /\ \A k \in 1..Len(w.verts) :
       /\ Injective(w.ins[k])
       /\ ToSet(w.ins[k]) = Ins(g, w.verts[k])
  /\ w.roots = Roots(g)
  /\ w.nroots = Len(Roots(g))
  /\ w.nverts = Len(g.verts)
=============================================================================
