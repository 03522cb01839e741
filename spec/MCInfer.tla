------------------------------- MODULE MCInfer -------------------------------
(* The engine's loop (one edge at a time, best so far kept on >=) against the *)
(* declarative path, on every bid assignment of a small family of graphs.     *)
EXTENDS Infer
Vals == {QNAN, NINF, 0, 1}
VARIABLES g, bid, cur, pos, best, path
vars == <<g, bid, cur, pos, best, path>>
(* teams 1, 2 ; actions 3, 4 ; edges 1..3 of team 1, 4..5 of team 2 *)
Mk(d) == [verts |-> <<1, 2, 3, 4>>, kind |-> <<"T", "T", "A", "A">>, act |-> <<-1, -1, 0, 1>>,
          edges |-> [e \in 1..5 |-> [src |-> IF e <= 3 THEN 1 ELSE 2, dst |-> d[e], prog |-> e]],
          outs |-> << <<1, 2, 3>>, <<4, 5>>, <<>>, <<>> >>]
Init == /\ \E d \in { x \in [1..5 -> 2..4] : x[4] # 2 /\ x[5] # 2 /\ x[2] = 2 /\ x[4] = 3 /\ x[5] = 4 } : g = Mk(d)
        /\ bid \in [1..5 -> Vals]
        /\ cur = 1 /\ pos = 1 /\ best = 0 /\ path = <<1>>
Outs == g.outs[cur]
Scan == /\ g.kind[cur] = "T" /\ pos <= Len(Outs)
        /\ LET b == Clean(bid[Outs[pos]]) IN
           best' = IF best = 0 \/ b >= Clean(bid[best]) THEN Outs[pos] ELSE best
        /\ pos' = pos + 1 /\ UNCHANGED <<g, bid, cur, path>>
Go == /\ g.kind[cur] = "T" /\ pos > Len(Outs)
      /\ cur' = g.edges[best].dst /\ path' = Append(path, g.edges[best].dst)
      /\ pos' = 1 /\ best' = 0 /\ UNCHANGED <<g, bid>>
Next == Scan \/ Go
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == /\ IsPrefix(path, PathFrom(g, bid, 1))
         /\ g.kind[cur] = "A" => path = PathFrom(g, bid, 1)
         /\ \A k \in 1..Len(path) : g.kind[path[k]] = "A" => k = Len(path)
Ends == <>(g.kind[cur] = "A")
=============================================================================
