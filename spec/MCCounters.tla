------------------------------ MODULE MCCounters ------------------------------
(* Threads run inferences on one instrumented graph, one increment at a time; *)
(* between the runs data change, counters are reset, unused parts removed.    *)
EXTENDS Counters
CONSTANTS Threads, MaxRuns, Vals
VARIABLES g, bid, c, th, hist, runs, mode
vars == <<g, bid, c, th, hist, runs, mode>>
Mk(d) == [verts |-> <<1, 2, 3, 4>>, kind |-> <<"T", "T", "A", "A">>, act |-> <<-1, -1, 0, 1>>,
          edges |-> [e \in 1..4 |-> [src |-> IF e <= 2 THEN 1 ELSE 2, dst |-> d[e], prog |-> e]],
          outs |-> << <<1, 2>>, <<3, 4>>, <<>>, <<>> >>]
Idle == [pc |-> "idle", at |-> 0, k |-> 0, best |-> 0, path |-> <<>>]
Init == /\ \E d \in { <<2, 3, 3, 4>>, <<2, 2, 4, 3>> } : g = Mk(d)
        /\ bid \in [1..4 -> Vals] /\ c = ZeroCount(g)
        /\ th = [t \in Threads |-> Idle] /\ hist = <<>> /\ runs = 0 /\ mode = "run"
Quiet == \A t \in Threads : th[t] = Idle
Start(t) == /\ mode = "run" /\ th[t].pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
            /\ \E r \in {1, 2} : th' = [th EXCEPT ![t] = [pc |-> "at", at |-> r, k |-> 0, best |-> 0, path |-> <<r>>]]
            /\ UNCHANGED <<g, bid, c, hist, mode>>
(* the visit is counted *)
Visit(t) == /\ th[t].pc = "at" /\ c' = [c EXCEPT !.v[th[t].at] = @ + 1]
            /\ IF g.kind[th[t].at] = "A"
               THEN th' = [th EXCEPT ![t] = Idle] /\ hist' = Append(hist, [path |-> th[t].path, bid |-> bid])
               ELSE th' = [th EXCEPT ![t].pc = "eval", ![t].k = 1] /\ UNCHANGED hist
            /\ UNCHANGED <<g, bid, runs, mode>>
(* one edge is evaluated, which is counted *)
Eval(t) == /\ th[t].pc = "eval" /\ th[t].k <= Len(g.outs[th[t].at])
           /\ LET e == g.outs[th[t].at][th[t].k] IN
              /\ c' = [c EXCEPT !.e[e] = @ + 1]
              /\ th' = [th EXCEPT ![t].k = @ + 1,
                          ![t].best = IF @ = 0 \/ Clean(bid[e]) >= Clean(bid[@]) THEN e ELSE @]
           /\ UNCHANGED <<g, bid, hist, runs, mode>>
(* the best edge is followed, which is counted *)
Go(t) == /\ th[t].pc = "eval" /\ th[t].k > Len(g.outs[th[t].at])
         /\ c' = [c EXCEPT !.t[th[t].best] = @ + 1]
         /\ LET d == g.edges[th[t].best].dst IN
            th' = [th EXCEPT ![t] = [pc |-> "at", at |-> d, k |-> 0, best |-> 0, path |-> Append(@.path, d)]]
         /\ UNCHANGED <<g, bid, hist, runs, mode>>
Data == /\ mode = "run" /\ Quiet /\ runs < MaxRuns /\ \E b \in [1..4 -> Vals] : b # bid /\ bid' = b
        /\ UNCHANGED <<g, c, th, hist, runs, mode>>
Reset == /\ mode = "run" /\ Quiet /\ hist # <<>> /\ c' = ZeroCount(g) /\ hist' = <<>>
         /\ UNCHANGED <<g, bid, th, runs, mode>>
(* the library's order: unvisited vertices, then edges not followed *)
Prune == /\ mode = "run" /\ Quiet /\ hist # <<>>
         /\ LET vs == { x \in V(g) : c.v[x] > 0 }
                kept == { e \in E(g) : g.edges[e].src \in vs /\ g.edges[e].dst \in vs }
                es == { e \in kept : c.t[e] > 0 }
            IN g' = [verts |-> SelectSeq(g.verts, LAMBDA x : x \in vs),
                     kind |-> [x \in vs |-> g.kind[x]], act |-> [x \in vs |-> g.act[x]],
                     edges |-> [x \in es |-> g.edges[x]],
                     outs |-> [x \in vs |-> SelectSeq(g.outs[x], LAMBDA y : y \in es)]]
         /\ Assert(g' = Pruned(g, c), "pruning")
         /\ mode' = "pruned" /\ UNCHANGED <<bid, c, th, hist, runs>>
Next == Data \/ Reset \/ Prune \/ \E t \in Threads : Start(t) \/ Visit(t) \/ Eval(t) \/ Go(t)
Spec == Init /\ [][Next]_vars
Count(P(_)) == Cardinality({ k \in 1..Len(hist) : P(k) })
Exact == (Quiet /\ mode = "run") =>
  /\ \A x \in V(g) : c.v[x] = Count(LAMBDA k : Contains(hist[k].path, x))
  /\ \A e \in E(g) : c.e[e] = Count(LAMBDA k : Contains(hist[k].path, g.edges[e].src))
  /\ \A e \in E(g) : c.t[e] = Count(LAMBDA k : Contains(Followed(g, hist[k].bid, hist[k].path), e))
  /\ c = FoldLeft(LAMBDA a, h : Add(g, h.bid, a, h.path, 1), ZeroCount(g), hist)
  /\ Flow(g, c, [x \in V(g) |-> Count(LAMBDA k : hist[k].path[1] = x)])
Decides == \A k \in 1..Len(hist) : hist[k].path = PathFrom(g, hist[k].bid, hist[k].path[1])

=============================================================================
