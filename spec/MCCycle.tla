------------------------------- MODULE MCCycle -------------------------------
(* The depth first search, one popped vertex at a time, on every graph.      *)
EXTENDS Cycle
CONSTANTS NT, NA, Success
VARIABLES d, visited, lifo, path, said
vars == <<d, visited, lifo, path, said>>
Asc(S) == SetToSortSeq(S, <)
Init == /\ \E t \in [1..NT -> SUBSET (1..(NT + NA))] :
             d = [n |-> NT + NA, succ |-> [v \in 1..(NT + NA) |-> IF v <= NT THEN Asc(t[v]) ELSE <<>>]]
        /\ visited = {} /\ lifo = Asc(RootsOf(d)) /\ path = <<>> /\ said = <<>>
Done == said # <<>>
Pop == /\ ~Done /\ lifo # <<>>
       /\ LET v == lifo[Len(lifo)]  rest == Front(lifo) IN
          IF v = 0 THEN path' = Front(path) /\ lifo' = rest /\ UNCHANGED <<visited, said>>
          ELSE /\ visited' = visited \cup {v}
               /\ IF v > NT THEN lifo' = rest /\ UNCHANGED <<path, said>>
                  ELSE LET p == Append(path, v) IN
                       IF \E w \in Succs(d, v) : w \in ToSet(p)
                       THEN said' = <<"cycle">> /\ path' = p /\ UNCHANGED lifo
                       ELSE path' = p /\ lifo' = Append(rest, 0) \o d.succ[v] /\ UNCHANGED said
       /\ UNCHANGED d
End == /\ ~Done /\ lifo = <<>>
       /\ said' = (IF Cardinality(visited) # d.n THEN <<"cycle">> ELSE IF Success THEN <<"none">> ELSE <<"silent">>)
       /\ UNCHANGED <<d, visited, lifo, path>>
Next == Pop \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == Done => said = <<Verdict(d, Success)>>
(* the path is one of the graph, without repetition *)
PathOK == /\ \A i, j \in 1..Len(path) : path[i] = path[j] => i = j
          /\ \A i \in 1..(Len(path) - 1) : path[i + 1] \in Succs(d, path[i])
(* the two readings of "there is a cycle" *)
Same == Done => (HasCycle(d) <=> Core(d, 1..d.n) # {})
Ends == <>Done
=============================================================================
