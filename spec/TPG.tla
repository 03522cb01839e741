--------------------------------- MODULE TPG ---------------------------------
(***************************************************************************)
(* The tangled program graph and its edits (property C01).                 *)
(* A graph is [verts, kind, act, edges, outs]:                             *)
(*   verts : sequence of vertex ids, in order of creation;                 *)
(*   kind  : vertex id -> "T" (team) or "A" (action);                      *)
(*   act   : vertex id -> action number (-1 for teams);                    *)
(*   edges : edge id -> [src, dst, prog];                                  *)
(*   outs  : vertex id -> sequence of edge ids (evaluation order).         *)
(* Incoming edges are derived.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoGraph == [verts |-> <<>>, kind |-> <<>>, act |-> <<>>, edges |-> <<>>, outs |-> <<>>]

V(g) == ToSet(g.verts)
E(g) == DOMAIN g.edges
Ins(g, v) == { e \in E(g) : g.edges[e].dst = v }
Roots(g) == SelectSeq(g.verts, LAMBDA v : Ins(g, v) = {})
Teams(g) == { v \in V(g) : g.kind[v] = "T" }
Actions(g) == { v \in V(g) : g.kind[v] = "A" }
Progs(g) == { g.edges[e].prog : e \in E(g) }
Uses(g, p) == Cardinality({ e \in E(g) : g.edges[e].prog = p })

With(f, k, x) == [j \in (DOMAIN f) \cup {k} |-> IF j = k THEN x ELSE f[j]]
Without(f, S) == [j \in (DOMAIN f) \ S |-> f[j]]
Drop(s, S) == SelectSeq(s, LAMBDA e : e \notin S)

(* ------------------------------- edits ---------------------------------- *)
AddVertex(g, v, k, a) ==
  [g EXCEPT !.verts = Append(@, v), !.kind = With(@, v, k), !.act = With(@, v, a),
            !.outs = With(@, v, <<>>)]
AddEdge(g, e, s, d, p) ==
  [g EXCEPT !.edges = With(@, e, [src |-> s, dst |-> d, prog |-> p]),
            !.outs[s] = Append(@, e)]
RemEdges(g, S) ==
  [g EXCEPT !.edges = Without(@, S),
            !.outs = [v \in DOMAIN @ |-> Drop(@[v], S)]]
RemVertex(g, v) ==
  LET S == { e \in E(g) : g.edges[e].src = v \/ g.edges[e].dst = v }
      h == RemEdges(g, S)
  IN [h EXCEPT !.verts = Drop(@, {v}), !.kind = Without(@, {v}), !.act = Without(@, {v}),
               !.outs = Without(@, {v})]
(* new edge ids es, in the order of the cloned outgoing list *)
CloneVertex(g, v, n, es) ==
  LET h == AddVertex(g, n, g.kind[v], g.act[v])
  IN [h EXCEPT !.edges = [e \in E(g) \cup ToSet(es) |->
                            IF e \in ToSet(es)
                            THEN LET k == CHOOSE k \in 1..Len(es) : es[k] = e
                                     o == g.edges[g.outs[v][k]]
                                 IN [src |-> n, dst |-> o.dst, prog |-> o.prog]
                            ELSE g.edges[e]],
              !.outs[n] = es]
CloneEdge(g, e, n) == AddEdge(g, n, g.edges[e].src, g.edges[e].dst, g.edges[e].prog)
MoveDst(g, e, d) == [g EXCEPT !.edges[e].dst = d]
(* the moved edge becomes the last evaluated edge of its new source *)
MoveSrc(g, e, s) ==
  LET o == g.edges[e].src
      h == [g EXCEPT !.outs[o] = Drop(@, {e})]
  IN [h EXCEPT !.outs[s] = Append(@, e), !.edges[e].src = s]
SetProg(g, e, p) == [g EXCEPT !.edges[e].prog = p]

CanBeSource(g, v) == v \in V(g) /\ g.kind[v] = "T"

(* ----------------------------- consistency ------------------------------ *)
Injective(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

Consistent(g) ==
  /\ Injective(g.verts)
  /\ DOMAIN g.outs = V(g) /\ DOMAIN g.kind = V(g)
  /\ \A e \in E(g) : /\ g.edges[e].src \in V(g) /\ g.edges[e].dst \in V(g)
                     /\ g.kind[g.edges[e].src] = "T"
                     /\ e \in ToSet(g.outs[g.edges[e].src])
  /\ \A v \in V(g) : /\ Injective(g.outs[v])
                     /\ \A e \in ToSet(g.outs[v]) : e \in E(g) /\ g.edges[e].src = v
                     /\ g.kind[v] = "A" => g.outs[v] = <<>>

(* ------------------------------- paths ---------------------------------- *)
Succ(g, v) == { g.edges[e].dst : e \in ToSet(g.outs[v]) }
RECURSIVE ReachFrom(_, _, _)
ReachFrom(g, done, todo) ==
  IF todo = {} THEN done
  ELSE LET nxt == UNION { Succ(g, v) : v \in todo } IN
       ReachFrom(g, done \cup todo, nxt \ (done \cup todo))
Reach(g, v) == ReachFrom(g, {}, {v})         \* includes v
(* no vertex is left when vertices without successor are repeatedly removed *)
RECURSIVE Peel(_, _)
Peel(g, S) == LET leaf == { v \in S : Succ(g, v) \cap S = {} } IN
              IF leaf = {} THEN S ELSE Peel(g, S \ leaf)
Acyclic(g) == Peel(g, V(g)) = {}

(* the part of the graph an edit must not touch *)
SameAt(g, h, W) ==   \* vertices W with their outgoing edges are identical
  \A v \in W : /\ v \in V(h) /\ g.kind[v] = h.kind[v] /\ g.act[v] = h.act[v]
               /\ g.outs[v] = h.outs[v]
               /\ \A e \in ToSet(g.outs[v]) : g.edges[e] = h.edges[e]
=============================================================================
