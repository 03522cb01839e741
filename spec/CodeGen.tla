------------------------------- MODULE CodeGen -------------------------------
(***************************************************************************)
(* The C programs generated from a graph (property C16), as state machines.*)
(*                                                                         *)
(* switch mode: a loop over named vertices; a team fills its whole array   *)
(*   of scores, then bestProgram() scans it; an action returns.            *)
(* stack mode: a loop over function pointers; a team function calls        *)
(*   execute(), which runs and compares one program at a time; an action   *)
(*   function writes *action and returns NULL.                             *)
(* Vertices are known to the generated code only by their names: "T" and   *)
(* an identifier for a team; "A" and an identifier for an action in switch *)
(* mode; "A" and the *action's own number* in stack mode, so that several  *)
(* action vertices with one number share one function.                     *)
(***************************************************************************)
EXTENDS Infer
CONSTANTS Graphs, Vals, MaxCalls
Name(gg, m, v) ==
  IF gg.kind[v] = "T" THEN [k |-> "T", n |-> v]
  ELSE [k |-> "A", n |-> IF m = "stack" THEN gg.act[v] ELSE v]
Named(gg, m, n) == CHOOSE v \in V(gg) : Name(gg, m, v) = n
None == [k |-> "-", n |-> 0]

VARIABLES g, bid, mode, root, pc, f, scores, best, idx, action, calls, ret
vars == <<g, bid, mode, root, pc, f, scores, best, idx, action, calls, ret>>
Outs == g.outs[Named(g, mode, f)]
Bid(k) == Clean(bid[Outs[k]])

Init == /\ g \in Graphs /\ mode \in {"switch", "stack"}
        /\ bid = <<>> /\ pc = "idle" /\ scores = <<>> /\ f = None
        /\ root = Name(g, mode, Roots(g)[1])
        /\ best = 0 /\ idx = 0 /\ action = -1 /\ calls = 0 /\ ret = -1
(* the application writes its data and calls inferenceTPG() *)
Call == /\ pc = "idle" /\ calls < MaxCalls
        /\ \E b \in [E(g) -> Vals] : bid' = b
        /\ calls' = calls + 1 /\ f' = root /\ action' = -1 /\ pc' = "loop"
        /\ UNCHANGED <<g, mode, root, scores, best, idx, ret>>
Loop == /\ pc = "loop"
        /\ IF mode = "stack" /\ f = None THEN pc' = "done" /\ ret' = action /\ UNCHANGED <<f, action, scores, idx, best>>
           ELSE IF f.k = "A"
           THEN IF mode = "switch" THEN pc' = "done" /\ ret' = g.act[Named(g, mode, f)] /\ UNCHANGED <<f, action, scores, idx, best>>
                ELSE action' = f.n /\ f' = None /\ UNCHANGED <<pc, ret, scores, idx, best>>
           ELSE /\ pc' = (IF mode = "switch" THEN "fill" ELSE "scan")
                /\ scores' = (IF mode = "switch" THEN <<>> ELSE <<Bid(1)>>)
                /\ best' = 1 /\ idx' = (IF mode = "switch" THEN 1 ELSE 2)
                /\ UNCHANGED <<f, action, ret>>
        /\ UNCHANGED <<g, bid, mode, root, calls>>
Fill == /\ pc = "fill"
        /\ IF idx > Len(Outs) THEN pc' = "scan" /\ idx' = 2 /\ UNCHANGED scores
           ELSE scores' = Append(scores, bid[Outs[idx]]) /\ idx' = idx + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<g, bid, mode, root, f, best, action, calls, ret>>
Scan == /\ pc = "scan"
        /\ IF idx > Len(Outs)
           THEN /\ f' = Name(g, mode, g.edges[Outs[best]].dst) /\ pc' = "loop"
                /\ UNCHANGED <<scores, best, idx>>
           ELSE /\ LET c == IF mode = "switch" THEN Clean(scores[idx]) ELSE Bid(idx)
                       b == IF mode = "switch" THEN Clean(scores[best]) ELSE scores[1]
                   IN IF c >= b THEN /\ best' = idx
                                     /\ scores' = (IF mode = "switch" THEN scores ELSE <<c>>)
                      ELSE UNCHANGED <<best, scores>>
                /\ idx' = idx + 1 /\ UNCHANGED <<f, pc>>
        /\ UNCHANGED <<g, bid, mode, root, action, calls, ret>>
(* the caller takes the result; locals are gone, statics remain *)
Return == /\ pc = "done" /\ pc' = "idle" /\ ret' = -1 /\ bid' = <<>> /\ scores' = <<>> /\ f' = None
          /\ best' = 0 /\ idx' = 0 /\ action' = -1 /\ UNCHANGED <<g, mode, root, calls>>
Next == Return \/ Call \/ Loop \/ Fill \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Return \/ Loop \/ Fill \/ Scan)

(* the decision of the library *)
Decision(gg, b, v) == LET p == PathFrom(gg, b, v) IN gg.act[p[Len(p)]]
SameDecision == pc = "done" => ret = Decision(g, bid, Roots(g)[1])
(* a name denotes one behaviour *)
NamesOK == \A u, v \in V(g) :
   Name(g, mode, u) = Name(g, mode, v) => \/ u = v \/ (g.kind[u] = "A" /\ g.kind[v] = "A" /\ g.act[u] = g.act[v])
Ends == [](pc # "idle" => <>(pc = "idle"))
=============================================================================
