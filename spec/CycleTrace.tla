------------------------------ MODULE CycleTrace ------------------------------
(* Recorded verdicts on graphs (C19).                                        *)
EXTENDS Cycle, TraceLib
VARIABLE gen
tvars == <<gen, l>>
G(x) == [n |-> Len(x), succ |-> x]
Said(x, d) == LET v == Verdict(d, x.success) IN
              /\ x.cycle = (IF v = "cycle" THEN 1 ELSE 0)
              /\ x.none = (IF v = "none" THEN 1 ELSE 0)
              /\ (v = "silent") = (x.length = 0)
TInit == gen = 0 /\ l = 1
TNext ==
  \/ IsEvent("Verdicts") /\ Ev.same /\ UNCHANGED gen
     /\ LET d == G(Ev.succ) IN \A k \in 1..Len(Ev.said) : Said(Ev.said[k], d)
  \/ (* a training under way: one verdict per generation, on the graph just populated *)
     IsEvent("Start") /\ gen' = 0
  \/ IsEvent("Populated") /\ gen' = gen + 1
     /\ LET d == G(Ev.succ) IN
        /\ Ev.cycles = 0 /\ ~HasCycle(d)   \* those before this one
        /\ Ev.nones = gen
  \/ IsEvent("End") /\ Ev.cycles = 0 /\ Ev.nones = gen /\ Ev.gens = gen /\ UNCHANGED gen
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
