------------------------------- MODULE TPGMut -------------------------------
(***************************************************************************)
(* Evolution of the graph (property C02): initialisation, growth by mutated*)
(* clones of root teams, and each graph mutator on its own, as relations   *)
(* between the graph before (g) and after (h).  Draws are nondeterministic.*)
(* A parameter set is [n, init, max, roots, del, add, chg, act, mut]; the  *)
(* last five are probabilities: 0 never, 100 always, 50 anything between.  *)
(* dg, dh: program id -> digest of the program's content.                  *)
(***************************************************************************)
EXTENDS TPG
CONSTANT Known      \* known deviations of the implementation that are granted

May(x)  == x # 0
Must(x) == x = 100

RootTeams(g) == { v \in ToSet(Roots(g)) : g.kind[v] = "T" }
Arity(g, v) == Len(g.outs[v])
Accepts(par) == par.n >= 2 /\ par.init <= par.n /\ par.init >= 2

(* ---------------------------- initialisation ---------------------------- *)
InitOK(h, par) ==
  /\ Len(h.verts) = 2 * par.n
  /\ Cardinality(Actions(h)) = par.n /\ Cardinality(Teams(h)) = par.n
  /\ { h.act[a] : a \in Actions(h) } = 0..(par.n - 1)
  /\ Cardinality(Progs(h)) = 2 * par.n
  /\ \A t \in Teams(h) :
       /\ Arity(h, t) >= 2 /\ Arity(h, t) <= par.init
       /\ \A e \in ToSet(h.outs[t]) : h.edges[e].dst \in Actions(h)
       /\ Cardinality({ h.edges[e].dst : e \in ToSet(h.outs[t]) }) >= 2
       /\ Cardinality({ h.edges[e].prog : e \in ToSet(h.outs[t]) }) = Arity(h, t)
  /\ \A e, f \in E(h) : h.edges[e].prog = h.edges[f].prog => h.edges[e].dst = h.edges[f].dst

(* --------------------------- edge destinations -------------------------- *)
(* Where a mutated destination may lead.  KF_C02_dest: when an action is    *)
(* wanted, the implementation takes the team that has the drawn action's    *)
(* position in the list of teams.                                           *)
DestOK(d, T, A, act) ==    \* T, A: sequences of pre-existing teams, actions
  \/ act # 100 /\ d \in ToSet(T)
  \/ act # 0 /\ (IF "KF_C02_dest" \in Known
                 THEN \E k \in 1..Len(A) : k <= Len(T) /\ d = T[k]
                 ELSE d \in ToSet(A))
(* the drawn position may be past the end of the list of teams: exception *)
DestMayThrow(T, A, par) == /\ "KF_C02_dest" \in Known /\ May(par.act) /\ Len(A) > Len(T)

TeamSeq(g) == SelectSeq(g.verts, LAMBDA v : g.kind[v] = "T")
ActionSeq(g) == SelectSeq(g.verts, LAMBDA v : g.kind[v] = "A")

(* ------------------------------- growth --------------------------------- *)
(* one new team of h with respect to the pre-existing graph g *)
NewTeamOK(g, h, v, par) ==
  /\ h.kind[v] = "T"
  /\ Arity(h, v) >= 2 /\ Arity(h, v) <= par.max
  /\ \A e \in ToSet(h.outs[v]) :
       LET x == h.edges[e] IN
       IF x.prog \in Progs(g)
       THEN \E f \in E(g) : g.edges[f].prog = x.prog /\ g.edges[f].dst = x.dst
       ELSE /\ Uses(h, x.prog) = 1
            /\ \/ \E f \in E(g) : g.edges[f].dst = x.dst
               \/ May(par.chg) /\ DestOK(x.dst, TeamSeq(g), ActionSeq(g), par.act)
  /\ \E e \in ToSet(h.outs[v]) : h.edges[e].prog \notin Progs(g)
  /\ Must(par.mut) => \A e \in ToSet(h.outs[v]) : h.edges[e].prog \notin Progs(g)

(* roots of h restricted to g and the first j new vertices *)
RootsAfter(g, h, j) ==
  LET S == ToSet(SubSeq(h.verts, 1, Len(g.verts) + j))
  IN Cardinality({ v \in S : ~ \E e \in E(h) : h.edges[e].src \in S /\ h.edges[e].dst = v })

SharedLead(g) == \A e, f \in E(g) : g.edges[e].prog = g.edges[f].prog => g.edges[e].dst = g.edges[f].dst

Grown(g, h, par) ==
  LET n0 == Len(g.verts)
      k == Len(h.verts) - n0
      new == ToSet(SubSeq(h.verts, n0 + 1, Len(h.verts)))
  IN /\ k >= 0
     /\ SubSeq(h.verts, 1, n0) = g.verts
     /\ SameAt(g, h, V(g))
     /\ \A v \in new : NewTeamOK(g, h, v, par)
     /\ \A e \in E(h) \ E(g) : h.edges[e].src \in new
     /\ RootsAfter(g, h, k) >= par.roots
     /\ \A j \in 0..(k - 1) : RootsAfter(g, h, j) < par.roots
     /\ SharedLead(g) => SharedLead(h)
     /\ Acyclic(g) => Acyclic(h)

FirstPart(h, n) ==    \* h without the vertices after the first n
  LET S == SubSeq(h.verts, 1, n)
      K == { e \in E(h) : h.edges[e].src \in ToSet(S) }
  IN [verts |-> S, kind |-> [v \in ToSet(S) |-> h.kind[v]], act |-> [v \in ToSet(S) |-> h.act[v]],
      outs |-> [v \in ToSet(S) |-> h.outs[v]], edges |-> [e \in K |-> h.edges[e]]]

PopulateOK(g, h, par) ==
  IF RootTeams(g) # {} THEN Grown(g, h, par)
  ELSE /\ Len(h.verts) >= 2 * par.n
       /\ LET i == FirstPart(h, 2 * par.n) IN InitOK(i, par) /\ Grown(i, h, par)

(* ------------------------- single mutator calls ------------------------- *)
(* a team's outgoing edges without their identity *)
Sig(g, v) == [k \in 1..Len(g.outs[v]) |-> <<g.edges[g.outs[v][k]].prog, g.edges[g.outs[v][k]].dst>>]
OthersSame(g, h, v) == h.verts = g.verts /\ SameAt(g, h, V(g) \ {v}) /\ h.kind[v] = g.kind[v]
RemovedEdge(g, h, v) ==
  /\ OthersSame(g, h, v)
  /\ \E k \in 1..Arity(g, v) : h.outs[v] = RemoveAt(g.outs[v], k)
  /\ \A e \in E(h) : h.edges[e] = g.edges[e]
AddedEdge(g, h, v, pre) ==
  /\ OthersSame(g, h, v)
  /\ Sig(g, v) = SubSeq(Sig(h, v), 1, Arity(g, v)) /\ Arity(h, v) = Arity(g, v) + 1
  /\ \E k \in 1..Len(pre) :
       LET x == g.edges[pre[k]] IN
       /\ x.src # v /\ x.dst # v
       /\ Sig(h, v)[Arity(h, v)] = <<x.prog, x.dst>>
ClonedRoot(g, h, v, n) ==
  /\ h.verts = Append(g.verts, n) /\ SameAt(g, h, V(g)) /\ Sig(h, n) = Sig(g, v) /\ h.kind[n] = "T"
MutatedDest(g, h, x, T, A, par, ok) ==
  /\ OthersSame(g, h, g.edges[x].src) /\ h.outs = g.outs
  /\ IF ok THEN \E d \in V(g) : /\ DestOK(d, T, A, par.act)
                                /\ h.edges = [g.edges EXCEPT ![x].dst = d]
     ELSE DestMayThrow(T, A, par) /\ h = g
MutatedOut(g, h, dg, dh, x, T, A, new, par, ok) ==
  LET p == h.edges[x].prog IN
  /\ OthersSame(g, h, g.edges[x].src) /\ h.outs = g.outs
  /\ p \notin Progs(g) /\ new = <<p>>
  /\ dh[p] = dg[g.edges[x].prog]                 \* behaviour is mutated later
  /\ \E d \in V(g) : /\ h.edges = [g.edges EXCEPT ![x] = [src |-> @.src, dst |-> d, prog |-> p]]
                     /\ IF ok THEN \/ d = g.edges[x].dst /\ ~Must(par.chg)
                                   \/ May(par.chg) /\ DestOK(d, T, A, par.act)
                        ELSE DestMayThrow(T, A, par) /\ May(par.chg) /\ d = g.edges[x].dst
(* the whole team.  b: signature before; a: after.  Some of b is removed,   *)
(* some pre-existing edges are appended, then each edge may be mutated.     *)
EdgeMut(p0, d0, p, d, dg, dh, T, A, old, par) ==    \* one (possibly) mutated edge
  IF p \in old THEN p = p0 /\ d = d0 /\ ~Must(par.mut)
  ELSE /\ dh[p] = dg[p0]
       /\ \/ d = d0 /\ ~Must(par.chg)
          \/ May(par.chg) /\ DestOK(d, T, A, par.act)
Subseqs(n) == { s \in SUBSET (1..n) : TRUE }
MutatedTeam(g, h, dg, dh, v, T, A, pre, new, par, ok) ==
  LET b == Sig(g, v)
      a == Sig(h, v)
      old == Progs(g)
  IN
  /\ OthersSame(g, h, v)
  /\ ok => /\ new = SelectSeq([k \in 1..Len(a) |-> a[k][1]], LAMBDA p : p \notin old)
           /\ new # <<>>
           /\ \A k \in 1..Len(new) : Uses(h, new[k]) = 1
           /\ \E S \in Subseqs(Len(b)) :        \* kept positions
                LET ks == SetToSortSeq(S, <)
                    m == Len(ks)
                    r == Len(b) - m
                    ad == Len(a) - m
                IN /\ ad >= 0
                   /\ IF Len(b) <= 2 THEN r = 0
                      ELSE /\ r >= 1 /\ m >= 2
                           /\ ~May(par.del) => r = 1
                           /\ Must(par.del) => m = 2
                   /\ IF m >= par.max THEN ad = 0
                      ELSE /\ ad >= 1 /\ m + ad <= par.max
                           /\ ~May(par.add) => ad = 1
                           /\ Must(par.add) => m + ad = par.max
                   /\ \A k \in 1..m : EdgeMut(b[ks[k]][1], b[ks[k]][2], a[k][1], a[k][2], dg, dh, T, A, old, par)
                   /\ \A k \in (m + 1)..Len(a) :
                        \E i \in 1..Len(pre) :
                          LET x == g.edges[pre[i]] IN
                          x.src # v /\ x.dst # v
                          /\ EdgeMut(x.prog, x.dst, a[k][1], a[k][2], dg, dh, T, A, old, par)
  /\ ~ok => DestMayThrow(T, A, par) /\ May(par.chg)
=============================================================================
