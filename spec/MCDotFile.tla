------------------------------ MODULE MCDotFile ------------------------------
(* Every graph of a bounded family is written and read back record by record. *)
EXTENDS DotFile
CONSTANTS NE, Dups   \* edges ; Dups: both programs have the same content
VARIABLES g, glob, which, file, pos, rd
vars == <<g, glob, which, file, pos, rd>>
(* teams 1, 2 ; actions 3 (label 7), 4 (label 9); order of creation interleaved *)
Base == [verts |-> <<3, 1, 4, 2>>, kind |-> <<"T", "T", "A", "A">>, act |-> <<-1, -1, 7, 9>>,
         edges |-> <<>>, outs |-> <<<<>>, <<>>, <<>>, <<>>>>]
gp == [p \in 1..2 |-> IF Dups THEN 1 ELSE p]
Init == g = Base /\ glob = <<>> /\ which = -1 /\ file = <<>> /\ pos = 0 /\ rd = Empty(500)
Build == /\ which = -1 /\ Len(glob) < NE
         /\ \E s \in 1..2, d \in 1..4, p \in 1..2 :
              LET e == 11 + Len(glob) IN g' = AddEdge(g, e, s, d, p) /\ glob' = Append(glob, e)
         /\ UNCHANGED <<which, file, pos, rd>>
(* an edge moves to the end of the list of a team, not of the graph *)
Move == /\ which = -1 /\ glob # <<>>
        /\ \E e \in ToSet(glob), s \in 1..2 : g' = MoveSrc(g, e, s)
        /\ UNCHANGED <<glob, which, file, pos, rd>>
Save == /\ which = -1
        /\ \E w \in 0..4 : which' = w /\ file' = (IF w = 0 THEN Write(g, gp, glob) ELSE WriteSub(g, gp, w))
        /\ pos' = 1 /\ rd' = Empty(500) /\ UNCHANGED <<g, glob>>
Load == /\ which >= 0 /\ pos <= Len(file) /\ rd' = RRec(rd, file[pos]) /\ pos' = pos + 1
        /\ UNCHANGED <<g, glob, which, file>>
Next == Build \/ Move \/ Save \/ Load
Spec == Init /\ [][Next]_vars
RoundTrip == (which >= 0 /\ pos > Len(file)) =>
   SameGraph(IF which = 0 THEN g ELSE Sub(g, which), gp, rd.g, rd.hp)
(* the comparison is not vacuous: another destination, order or sharing is seen *)
Discriminates ==
  which = 0 /\ pos > Len(file) /\ Len(glob) >= 1 =>
    /\ \A e \in E(g) : ~SameGraph(RemEdges(g, {e}), gp, rd.g, rd.hp)
    /\ \A e \in E(g), a \in {3, 4} : g.edges[e].dst # a /\ g.kind[g.edges[e].dst] = "A"
          => ~SameGraph(MoveDst(g, e, a), gp, rd.g, rd.hp) \/ Cardinality(E(g)) > 1
    /\ \A e \in E(g) : Uses(g, g.edges[e].prog) > 1
          => ~SameGraph(SetProg(g, e, 3), With(gp, 3, gp[g.edges[e].prog]), rd.g, rd.hp)
=============================================================================
