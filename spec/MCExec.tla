------------------------------- MODULE MCExec --------------------------------
(* Executions counted step by step by the graph and kept as traces by the    *)
(* engine: both sources of the statistics agree.                             *)
EXTENDS Stats
CONSTANTS MaxRuns, Vals
VARIABLES g, bid, c, hist
vars == <<g, bid, c, hist>>
Ln(i, x) == [i |-> i, d |-> 0, o |-> << <<0, 0>>, <<0, 0>> >>, x |-> x]
Prg == << [lines |-> <<Ln(0, FALSE), Ln(1, TRUE), Ln(0, FALSE)>>, cst |-> <<>>],
          [lines |-> <<Ln(1, FALSE)>>, cst |-> <<>>], [lines |-> <<>>, cst |-> <<>>] >>
(* vertices 1, 2, 3 are teams, 4, 5, 6 actions; edges lead forward *)
Mk(d, p) == [verts |-> <<1, 2, 3, 4, 5, 6>>, kind |-> <<"T", "T", "T", "A", "A", "A">>, act |-> <<-1, -1, -1, 0, 1, 0>>,
             edges |-> [e \in 1..5 |-> [src |-> (e + 1) \div 2, dst |-> d[e], prog |-> p[e]]],
             outs |-> << <<1, 2>>, <<3, 4>>, <<5>>, <<>>, <<>>, <<>> >>]
Init == /\ \E d \in {2, 3, 4} \X {3, 4} \X {3, 4} \X {4, 5} \X {5} :
           \E p \in { <<1, 1, 2, 3, 1>>, <<2, 3, 1, 1, 2>>, <<3, 2, 2, 2, 1>> } : g = Mk(d, p)
        /\ bid \in [1..5 -> Vals] /\ c = ZeroCount(g) /\ hist = <<>>
Run == /\ Len(hist) < MaxRuns
       /\ \E r \in ToSet(Roots(g)) :
            LET p == PathFrom(g, bid, r) IN hist' = Append(hist, p) /\ c' = Add(g, bid, c, p, 1)
       /\ UNCHANGED <<g, bid>>
Data == /\ hist # <<>> /\ Len(hist) < MaxRuns /\ bid' \in { [bid EXCEPT ![e] = x] : e \in 1..5, x \in Vals }
        /\ UNCHANGED <<g, c, hist>>
Next == Run \/ Data
Spec == Init /\ [][Next]_vars
Agree == /\ CountedWork(g, Costs(Prg), c) = WorkOf(g, Costs(Prg), hist)
         /\ Len(hist) = Sum(c.v, ToSet(Roots(g)))
Mass(f) == FoldSet(LAMBDA k, a : a + k * f[k], 0, DOMAIN f)
Distributed ==
  LET D == Distrib(hist, [k \in 1..Len(hist) |-> Work(g, Costs(Prg), hist[k])])  w == WorkOf(g, Costs(Prg), hist) IN
  /\ Total(D.teams) = Len(hist) /\ Mass(D.teams) = w.teams
  /\ Total(D.progs) = Len(hist) /\ Mass(D.progs) = w.progs
  /\ Total(D.lines) = Len(hist) /\ Mass(D.lines) = w.lines
  /\ DOMAIN D.instr = DOMAIN w.instr /\ \A i \in DOMAIN D.instr : Mass(D.instr[i]) = w.instr[i]
  /\ D.used = [v \in { v \in V(g) : c.v[v] > 0 } |-> c.v[v]]
=============================================================================
