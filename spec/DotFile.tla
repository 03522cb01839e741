------------------------------- MODULE DotFile -------------------------------
(***************************************************************************)
(* Saving and loading graphs (property C15).                               *)
(* A file is a sequence of records: teams, programs, links between a team, *)
(* a program and its destination, and actions.  Write and Read are the     *)
(* design; Same(g, gp, h, hp) is what a user relies on: h is g up to the   *)
(* names of its elements, evaluation order and sharing included.           *)
(* gp, hp : program id -> content.                                         *)
(***************************************************************************)
EXTENDS TPG

(* the part of g reachable from v *)
Sub(g, v) ==
  LET R == Reach(g, v)
      S == { e \in E(g) : g.edges[e].src \in R }
  IN [verts |-> SelectSeq(g.verts, LAMBDA x : x \in R),
      kind |-> [x \in R |-> g.kind[x]], act |-> [x \in R |-> g.act[x]],
      outs |-> [x \in R |-> g.outs[x]], edges |-> [e \in S |-> g.edges[e]]]

(* ----------------------------- isomorphism ------------------------------ *)
Sig(g, gp, v) ==
  [kind |-> g.kind[v], act |-> g.act[v],
   out |-> [k \in 1..Len(g.outs[v]) |->
              LET e == g.edges[g.outs[v][k]]
              IN [prog |-> gp[e.prog], kind |-> g.kind[e.dst], act |-> g.act[e.dst]]]]

(* follow pairs of vertices along their outgoing edges, in order *)
RECURSIVE Walk(_, _, _, _, _)
Walk(g, h, same, f, todo) ==
  IF todo = <<>> THEN [ok |-> TRUE, f |-> f]
  ELSE LET v == todo[1][1]
           w == todo[1][2]
       IN IF v \in DOMAIN f
          THEN IF f[v] = w THEN Walk(g, h, same, f, Tail(todo)) ELSE [ok |-> FALSE, f |-> f]
          ELSE IF (\E x \in DOMAIN f : f[x] = w) \/ <<v, w>> \notin same
               THEN [ok |-> FALSE, f |-> f]
               ELSE Walk(g, h, same, With(f, v, w),
                         Tail(todo) \o [k \in 1..Len(g.outs[v]) |->
                            <<g.edges[g.outs[v][k]].dst, h.edges[h.outs[w][k]].dst>>])

Shared(g, h, f) ==   \* programs are shared alike
  LET ps == UNION { { <<g.edges[g.outs[v][k]].prog, h.edges[h.outs[f[v]][k]].prog>> :
                        k \in 1..Len(g.outs[v]) } : v \in V(g) }
  IN \A a, b \in ps : a[1] = b[1] <=> a[2] = b[2]

RECURSIVE Match(_, _, _, _)
Match(g, h, same, f) ==
  LET left == V(g) \ DOMAIN f
      roots == { v \in left : Ins(g, v) = {} }
  IN IF left = {} THEN Shared(g, h, f)
     ELSE LET v == CHOOSE v \in (IF roots = {} THEN left ELSE roots) : TRUE
          IN \E w \in V(h) \ { f[x] : x \in DOMAIN f } :
               /\ <<v, w>> \in same
               /\ LET r == Walk(g, h, same, f, <<<<v, w>>>>)
                  IN r.ok /\ Match(g, h, same, r.f)

SameGraph(g, gp, h, hp) ==
  /\ Cardinality(V(g)) = Cardinality(V(h)) /\ Cardinality(E(g)) = Cardinality(E(h))
  /\ LET sg == [v \in V(g) |-> Sig(g, gp, v)]
         sh == [w \in V(h) |-> Sig(h, hp, w)]
     IN Match(g, h, { p \in V(g) \X V(h) : sg[p[1]] = sh[p[2]] }, <<>>)

(* ------------------------------- writing -------------------------------- *)
(* edges team by team in evaluation order, teams as they come in glob *)
NthOf(glob, g, k) ==   \* rank of edge glob[k] among those of its source
  Cardinality({ j \in 1..k : g.edges[glob[j]].src = g.edges[glob[k]].src })
EdgeOrder(g, glob) ==
  [k \in 1..Len(glob) |-> g.outs[g.edges[glob[k]].src][NthOf(glob, g, k)]]

(* acc : [recs, first (program -> destination of its first edge), n (actions)] *)
Link(g, acc, e) ==
  LET x == g.edges[e] IN
  IF g.kind[x.dst] = "A"
  THEN [acc EXCEPT !.recs = @ \o << [k |-> "A", n |-> acc.n, label |-> g.act[x.dst]],
                                    [k |-> "TPA", t |-> x.src, p |-> x.prog, d |-> acc.n] >>,
                   !.n = @ + 1]
  ELSE [acc EXCEPT !.recs = Append(@, [k |-> "TPT", t |-> x.src, p |-> x.prog, d |-> x.dst])]
WEdge(g, gp, acc, e) ==
  LET x == g.edges[e] IN
  IF x.prog \notin DOMAIN acc.first
  THEN Link(g, [acc EXCEPT !.recs = Append(@, [k |-> "P", p |-> x.prog, body |-> gp[x.prog]]),
                           !.first = With(@, x.prog, x.dst)], e)
  ELSE IF acc.first[x.prog] # x.dst THEN Link(g, acc, e)
  ELSE [acc EXCEPT !.recs = Append(@, [k |-> "TP", t |-> x.src, p |-> x.prog])]
WTeams(g, vs) == LET ts == SelectSeq(vs, LAMBDA v : g.kind[v] = "T")
                 IN [k \in 1..Len(ts) |-> [k |-> "T", t |-> ts[k]]]
WActions(g, acc, vs) ==
  LET as == SelectSeq(vs, LAMBDA v : g.kind[v] = "A")
  IN acc.recs \o [k \in 1..Len(as) |-> [k |-> "A", n |-> acc.n + k - 1, label |-> g.act[as[k]]]]
WAll(g, gp, vs, es, alone) ==
  WActions(g, FoldLeft(LAMBDA acc, e : WEdge(g, gp, acc, e),
                       [recs |-> WTeams(g, vs), first |-> <<>>, n |-> 0], es), alone)
Write(g, gp, glob) == WAll(g, gp, g.verts, EdgeOrder(g, glob), Roots(g))
(* breadth first from v *)
RECURSIVE Bfs(_, _, _)
Bfs(g, seen, todo) ==
  IF todo = <<>> THEN seen
  ELSE LET v == todo[1]
           new == SelectSeq([k \in 1..Len(g.outs[v]) |-> g.edges[g.outs[v][k]].dst],
                            LAMBDA x : g.kind[x] = "T" /\ x \notin ToSet(seen \o todo))
           uniq == FoldLeft(LAMBDA a, x : IF x \in ToSet(a) THEN a ELSE Append(a, x), <<>>, new)
       IN Bfs(g, Append(seen, v), Tail(todo) \o uniq)
WriteSub(g, gp, v) ==
  LET vs == Bfs(g, <<>>, <<v>>)
  IN WAll(g, gp, vs, FlattenSeq([k \in 1..Len(vs) |-> g.outs[vs[k]]]),
          IF g.kind[v] = "A" THEN <<v>> ELSE <<>>)

(* ------------------------------- reading -------------------------------- *)
(* state: [g, hp, vid, aid, node, pid, n] ; new elements are numbered from n *)
Empty(n) == [g |-> NoGraph, hp |-> <<>>, vid |-> <<>>, aid |-> <<>>, node |-> <<>>, pid |-> <<>>, n |-> n]
RLink(s, t, p, d) == [s EXCEPT !.g = AddEdge(@, s.n, s.vid[t], d, s.pid[p]), !.n = @ + 1]
RRec(s, r) ==
  CASE r.k = "T" -> [s EXCEPT !.g = AddVertex(@, s.n, "T", -1), !.vid = With(@, r.t, s.n), !.n = @ + 1]
    [] r.k = "A" -> LET u == [s EXCEPT !.node = With(@, r.n, r.label)]
                    IN IF r.label \in DOMAIN s.aid THEN u
                       ELSE [u EXCEPT !.g = AddVertex(@, s.n, "A", r.label),
                                      !.aid = With(@, r.label, s.n), !.n = @ + 1]
    [] r.k = "P" -> [s EXCEPT !.pid = With(@, r.p, s.n), !.hp = With(@, s.n, r.body), !.n = @ + 1]
    [] r.k = "TPA" -> RLink(s, r.t, r.p, s.aid[s.node[r.d]])
    [] r.k = "TPT" -> RLink(s, r.t, r.p, s.vid[r.d])
    [] r.k = "TP" -> LET first == CHOOSE e \in E(s.g) : s.g.edges[e].prog = s.pid[r.p]
                                     /\ \A x \in E(s.g) : s.g.edges[x].prog = s.pid[r.p] => e <= x
                     IN RLink(s, r.t, r.p, s.g.edges[first].dst)
ReadAll(recs) == FoldLeft(RRec, Empty(500), recs)
=============================================================================
