------------------------------ MODULE MCCodeGen ------------------------------
EXTENDS CodeGen
MCVals == {QNAN, NINF, 0, 1}
(* teams 1, 2; actions 3, 4, 5 (two of them may have the same number) *)
Mk(d, a) == [verts |-> <<1, 2, 3, 4, 5>>, kind |-> <<"T", "T", "A", "A", "A">>, act |-> <<-1, -1>> \o a,
             edges |-> [e \in 1..Len(d) |-> [src |-> IF e <= 3 THEN 1 ELSE 2, dst |-> d[e], prog |-> e]],
             outs |-> << <<1, 2, 3>>, [k \in 1..(Len(d) - 3) |-> k + 3], <<>>, <<>>, <<>> >>]
Alone(n) == [verts |-> <<3>>, kind |-> (3 :> "A"), act |-> (3 :> n), edges |-> <<>>, outs |-> (3 :> <<>>)]
Shapes == { x \in [1..5 -> 2..5] : x[2] = 2 /\ x[1] # 2 /\ x[3] # 5 /\ x[4] # 2 /\ x[5] # 2 /\ x[4] < x[5] }
MCGraphs == { Mk(d, a) : d \in Shapes, a \in { <<0, 1, 2>>, <<7, 7, 1>>, <<1, 0, 1>> } } \cup { Alone(4) }
SmallGraphs == { Mk(d, a) : d \in { <<3, 2, 4, 3, 5>>, <<5, 2, 2, 4, 5>> }, a \in { <<0, 1, 2>>, <<7, 7, 1>> } } \cup { Alone(4) }
=============================================================================
