-------------------------------- MODULE Infer --------------------------------
(***************************************************************************)
(* Inference (property C03): the path a policy takes through the graph.    *)
(* bid : edge id -> number (Prog.tla), the result of the edge's program.   *)
(***************************************************************************)
EXTENDS TPG, Prog

Clean(b) == IF b = QNAN THEN NINF ELSE b
(* position of the selected edge: the last one whose bid is the highest *)
Winner(bids) == CHOOSE k \in 1..Len(bids) :
   /\ \A j \in 1..Len(bids) : Clean(bids[j]) <= Clean(bids[k])
   /\ \A j \in (k + 1)..Len(bids) : Clean(bids[j]) < Clean(bids[k])
Follow(g, bid, v) == g.outs[v][Winner([k \in 1..Len(g.outs[v]) |-> bid[g.outs[v][k]]])]

RECURSIVE PathFrom(_, _, _)
PathFrom(g, bid, v) ==
  IF g.kind[v] = "A" THEN <<v>>
  ELSE <<v>> \o PathFrom(g, bid, g.edges[Follow(g, bid, v)].dst)

(* the edges evaluated along a path, in order *)
Evaluated(g, path) ==
  FlattenSeq([k \in 1..Len(path) |-> g.outs[path[k]]])
(* the edges followed *)
Followed(g, bid, path) == [k \in 1..(Len(path) - 1) |-> Follow(g, bid, path[k])]

(* bids of all edges of g, programs given as prog id -> program *)
BidsOf(env, g, progs, data) ==
  LET res == [p \in Progs(g) |-> Result(env, progs[p], data)]
  IN [e \in E(g) |-> res[g.edges[e].prog]]
=============================================================================
